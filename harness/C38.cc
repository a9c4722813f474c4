// text output of vectors and matrices: dune/istl/io.hh
// BOUNDS: printvector on BlockVector<FieldVector<double,2>> with 0..3 blocks and nested BlockVector<BlockVector<double>> (2 blocks of 0..2), 1..4 columns; printmatrix/printSparseMatrix/writeMatrixToMatlab on BCRS 2x3 (every pattern) with blocks double, FieldMatrix 2x2 / 2x1, ScaledIdentity 2, nested BCRS and M()==0; complex entries; writeVectorToMatlab; writeSVGMatrix on scalar and nested matrices with a recording options class
// BOUND-THOROUGH: printmatrix/printSparseMatrix/Matlab on 3x3 patterns
// ASSUME: the conversion of a double to characters by the C++ library is replaced by a token naming the value (precision and float format in force are recorded), everything else of the streams is the real library
#include "mat.h"
#include "tok.h"
#include <dune/istl/io.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/matrix.hh>
#include <unistd.h>
using namespace Dune; using namespace H;
namespace {
std::vector<std::string> lines(const std::string& s){ std::vector<std::string> r; std::string c; for(char x:s){ if(x=='\n'){ r.push_back(c); c.clear(); } else c+=x; } if(!c.empty()) r.push_back(c); return r; }
std::vector<std::string> words(const std::string& s){ std::vector<std::string> r; std::string c; for(char x:s){ if(x==' '||x=='|'||x=='\t'){ if(!c.empty()) r.push_back(c); c.clear(); } else c+=x; } if(!c.empty()) r.push_back(c); return r; }
bool blank(const std::string& s){ return words(s).empty(); }
std::string num(long i){ return std::to_string(i); }
// the word is a token for a value: compare it with the expected one
void val(const std::string& w,double e,const char* l){
  bool tk=w.size()>=3&&w[0]=='@'&&w[w.size()-1]=='@'; sym_assert_b(tk,l); if(!tk) return; std::size_t k=atoi(w.c_str()+1); sym_assert_b(k<Tok::tab().size(),l); if(k<Tok::tab().size()) sym_eq_(Tok::tab()[k].v,e,l); }
void fmt(int prec,bool sci,const char* l){ for(auto& r:Tok::tab()){ sym_assert_b(r.prec==prec,l); sym_assert_b(r.sci==sci,l); } }
struct State { std::ios_base::fmtflags f; std::streamsize p; };
State state(std::ostream& s){ return {s.flags(),s.precision()}; }
void same(std::ostream& s,const State& t,const char* l){ sym_assert_b(s.flags()==t.f,l); sym_assert_b(s.precision()==t.p,l); }
std::string title(const std::string& t,std::initializer_list<std::pair<const char*,long>> v){ std::string r=t+" ["; bool f=true; for(auto& p:v){ if(!f) r+=","; f=false; r+=std::string(p.first)+"="+num(p.second); } return r+"]"; }
template<class V> void vecCheck(const V& v,const std::vector<double>& flat){
  Tok::clear(); std::stringstream s; if(decided(sym_bool("fixed"))) s.setf(std::ios_base::fixed,std::ios_base::floatfield); s.precision(5); auto st=state(s);
  int columns=(int)sym_concrete_l(sym_int("columns",1,4)), width=(int)sym_concrete_l(sym_int("width",3,4)), prec=sym_int("precision",0,17);
  printvector(s,v,"the_title","row",columns,width,prec);
  auto L=lines(s.str()); std::size_t n=flat.size(), want=1+(n+columns-1)/columns; SYM_ASSERT(L.size()==want,"printvector: one line per group of columns entries"); if(L.size()!=want) return;
  SYM_ASSERT(L[0]==title("the_title",{{"blocks",(long)v.N()},{"dimension",(long)v.dim()}}),"printvector: title line"); SYM_ASSERT((long)v.dim()==(long)n,"dim");
  for(std::size_t i=0,l=1;i<n;i+=columns,l++){ auto w=words(L[l]); std::size_t k=std::min<std::size_t>(columns,n-i); SYM_ASSERT(w.size()==2+k,"printvector: entries in a line"); if(w.size()!=2+k) return;
    SYM_ASSERT(w[0]=="row"&&w[1]==num(i),"printvector: row text and counter"); for(std::size_t j=0;j<k;j++) val(w[2+j],flat[i+j],"printvector: value"); }
  SYM_ASSERT(Tok::tab().size()==n,"printvector: every entry once"); fmt(prec,true,"printvector: precision and format"); same(s,st,"printvector: stream format restored");
}
// a dense picture of the scalar entries: there[i][j], value
struct Pic { int n,m; std::vector<char> in; std::vector<double> v; Pic(int a,int b):n(a),m(b),in(a*b,0),v(a*b,0.0){} };
template<class B,int n,int m> void pic(Pic& P,const BCRSMatrix<B>& A,const Pat<n,m>& w,int bn,int bm){
  for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) for(int a=0;a<bn;a++) for(int b=0;b<bm;b++){ int k=(i*bn+a)*P.m+j*bm+b; P.in[k]=1;
    if constexpr(IsNumber<B>::value) P.v[k]=A[i][j]; else if constexpr(requires(const B& x){ x.scalar(); }) P.v[k]=(a==b)?A[i][j].scalar():0.0; else P.v[k]=A[i][j][a][b]; } }
template<class M> void matCheck(const M& A,const Pic& P){
  { Tok::clear(); std::stringstream s; s.precision(9); auto st=state(s); int prec=sym_int("precision",0,17);
    printmatrix(s,A,"mat","row",8,prec);
    auto L=lines(s.str()); SYM_ASSERT((int)L.size()==1+P.n,"printmatrix: one line per scalar row"); if((int)L.size()!=1+P.n) return;
    SYM_ASSERT(L[0]==title("mat",{{"n",(long)A.N()},{"m",(long)A.M()},{"rowdim",P.n},{"coldim",P.m}}),"printmatrix: title line");
    std::size_t c=0; for(int i=0;i<P.n;i++){ auto w=words(L[1+i]); SYM_ASSERT((int)w.size()==2+P.m,"printmatrix: one field per scalar column"); if((int)w.size()!=2+P.m) return;
      SYM_ASSERT(w[0]=="row"&&w[1]==num(i),"printmatrix: row text and number");
      for(int j=0;j<P.m;j++) if(P.in[i*P.m+j]){ val(w[2+j],P.v[i*P.m+j],"printmatrix: value"); c++; } else SYM_ASSERT(w[2+j]==".","printmatrix: filler for a block that is not stored"); }
    SYM_ASSERT(Tok::tab().size()==c,"printmatrix: every stored entry once"); fmt(prec,true,"printmatrix: precision and format"); same(s,st,"printmatrix: stream format restored"); }
}
template<class M,int n,int m> void sparseCheck(const M& A,const Pat<n,m>& w,const Pic& P,int bn,int bm,bool scid=false){
  Tok::clear(); std::stringstream s; s.setf(std::ios_base::fixed,std::ios_base::floatfield); s.precision(9); auto st=state(s); int prec=sym_int("precision",0,17), width=(int)sym_concrete_l(sym_int("blocks per line",1,m));
  printSparseMatrix(s,A,"mat","row",width,prec);
  auto L0=lines(s.str()); std::vector<std::vector<std::string>> L; for(auto& x:L0) if(!blank(x)) L.push_back(words(x));
  SYM_ASSERT(L0.size()>0&&L0[0]==title("mat",{{"n",n},{"m",m},{"rowdim",P.n},{"coldim",P.m}}),"printSparseMatrix: title line");
  std::size_t l=1,c=0;
  for(int i=0;i<n;i++){ std::vector<int> cols; for(int j=0;j<m;j++) if(w[i][j]) cols.push_back(j);
    for(std::size_t k=0;k<cols.size();k+=width) for(int a=0;a<bn;a++){
      SYM_ASSERT(l<L.size(),"printSparseMatrix: a line for every group of blocks and row of the blocks"); if(l>=L.size()) return; auto& q=L[l++]; std::size_t p=0;
      std::size_t e=std::min(cols.size(),k+width), want=(a==0?2+(e-k):0)+(e-k)*bm; SYM_ASSERT(q.size()==want,"printSparseMatrix: fields of a line"); if(q.size()!=want) return;
      if(a==0){ SYM_ASSERT(q[0]=="row"&&q[1]==num(i)+":","printSparseMatrix: row text and index"); p=2; }
      for(std::size_t x=k;x<e;x++){ if(a==0){ SYM_ASSERT(q[p]==num(cols[x])+":","printSparseMatrix: column index"); p++; }
        for(int b=0;b<bm;b++,p++) if(scid&&a!=b) SYM_ASSERT(q[p]=="-","printSparseMatrix: zero of a scaled identity"); else { val(q[p],P.v[(i*bn+a)*P.m+cols[x]*bm+b],"printSparseMatrix: value"); c++; } } } }
  SYM_ASSERT(l==L.size(),"printSparseMatrix: no further lines"); SYM_ASSERT(c==Tok::tab().size(),"printSparseMatrix: every entry once"); fmt(prec,true,"printSparseMatrix: precision and format"); same(s,st,"printSparseMatrix: stream format restored");
}
struct Tmp { char n[64]; Tmp(){ std::string p="/dev/shm/dune-c38-XXXXXX"; strcpy(n,p.c_str()); int fd=mkstemp(n); if(fd>=0) close(fd); } ~Tmp(){ unlink(n); } std::string read(){ std::ifstream f(n); std::stringstream s; s<<f.rdbuf(); return s.str(); } };
// the entries "row column value" in a text, each stored scalar exactly once
void triples(const std::string& t,const Pic& P,const char* l,const std::vector<double>* im=nullptr){
  auto L=lines(t); std::vector<char> seen(P.in.size(),0); std::size_t f=im?4:3;
  for(auto& x:L){ auto w=words(x); sym_assert_b(w.size()==f,l); if(w.size()!=f) return; int i=atoi(w[0].c_str())-1,j=atoi(w[1].c_str())-1; bool ok=i>=0&&i<P.n&&j>=0&&j<P.m; sym_assert_b(ok,l); if(!ok) return;
    int k=i*P.m+j; sym_assert_b(P.in[k]&&!seen[k],l); seen[k]=1; val(w[2],P.v[k],l); if(im) val(w[3],(*im)[k],l); }
  for(std::size_t k=0;k<seen.size();k++) sym_assert_b(seen[k]==P.in[k],l);
}
template<class M> void matlabCheck(const M& A,const Pic& P,const std::vector<double>* im=nullptr){
  Tok::clear(); int prec=sym_int("precision",1,18); Tmp f; writeMatrixToMatlab(A,f.n,prec); triples(f.read(),P,"writeMatrixToMatlab: each stored scalar once, at its row and column",im); fmt(prec,false,"writeMatrixToMatlab: precision");
}
template<int n,int m> void mats(){
  auto w=pattern<n,m>();
  switch(sym_concrete_l(sym_int("block type",0,3))){
  case 0: { BCRSMatrix<double> A; build(A,w); fillvals(A,w); Pic P(n,m); pic(P,A,w,1,1); matCheck(A,P); sparseCheck(A,w,P,1,1); matlabCheck(A,P); break; }
  case 1: { BCRSMatrix<FieldMatrix<double,2,2>> A; build(A,w); fillvals(A,w); Pic P(2*n,2*m); pic(P,A,w,2,2); matCheck(A,P); sparseCheck(A,w,P,2,2); matlabCheck(A,P); break; }
  case 2: { BCRSMatrix<FieldMatrix<double,2,1>> A; build(A,w); fillvals(A,w); Pic P(2*n,m); pic(P,A,w,2,1); matCheck(A,P); sparseCheck(A,w,P,2,1); matlabCheck(A,P); break; }
  default: { // the flattened dimensions of dynamic block types are known only for rows and columns with an entry (documented)
    for(int i=0;i<n;i++){ bool e=false; for(int j=0;j<m;j++) e|=w[i][j]; sym_assume(e); } for(int j=0;j<m;j++){ bool e=false; for(int i=0;i<n;i++) e|=w[i][j]; sym_assume(e); }
    BCRSMatrix<ScaledIdentityMatrix<double,2>> A; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) A[i][j]=ScaledIdentityMatrix<double,2>(sym_real("a")); Pic P(2*n,2*m); pic(P,A,w,2,2); sparseCheck(A,w,P,2,2,true);
    // only the diagonal of a scaled identity is stored
    Pic D(2*n,2*m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) for(int a=0;a<2;a++){ D.in[(2*i+a)*D.m+2*j+a]=1; D.v[(2*i+a)*D.m+2*j+a]=A[i][j].scalar(); } matlabCheck(A,D); break; }
  }
  sym_reach("matrices");
}
}
SYM_HARNESS(vectors, SYM_REAL, "blocks,nested,scalar"){
  switch(sym_concrete_l(sym_int("vector type",0,2))){
  case 0: { int n=(int)sym_concrete_l(sym_int("n",0,3)); BlockVector<FieldVector<double,2>> v(n); std::vector<double> f; for(int i=0;i<n;i++){ fill(v[i],"v"); f.push_back(v[i][0]); f.push_back(v[i][1]); } vecCheck(v,f);
    Tok::clear(); int prec=sym_int("precision",1,18); Tmp t; writeVectorToMatlab(v,t.n,prec); auto L=lines(t.read()); SYM_ASSERT(L.size()==f.size(),"writeVectorToMatlab: one line per scalar"); if(L.size()!=f.size()) return; for(std::size_t i=0;i<f.size();i++) val(L[i],f[i],"writeVectorToMatlab: value"); fmt(prec,false,"writeVectorToMatlab: precision"); sym_reach("blocks"); break; }
  case 1: { BlockVector<BlockVector<double>> v(2); std::vector<double> f; for(int i=0;i<2;i++){ int k=(int)sym_concrete_l(sym_int("k",0,2)); v[i].resize(k); for(int j=0;j<k;j++){ fill(v[i][j],"v"); f.push_back(v[i][j]); } } vecCheck(v,f);
    Tok::clear(); Tmp t; writeVectorToMatlab(v,t.n); auto L=lines(t.read()); SYM_ASSERT(L.size()==f.size(),"writeVectorToMatlab: one line per scalar"); if(L.size()!=f.size()) return; for(std::size_t i=0;i<f.size();i++) val(L[i],f[i],"writeVectorToMatlab: value"); fmt(18,false,"writeVectorToMatlab: precision"); sym_reach("nested"); break; }
  default: { int n=(int)sym_concrete_l(sym_int("n",0,5)); BlockVector<double> v(n); std::vector<double> f; for(int i=0;i<n;i++){ fill(v[i],"v"); f.push_back(v[i]); } vecCheck(v,f); sym_reach("scalar"); }
  }
}
SYM_HARNESS(matrices, SYM_REAL, "matrices"){ if(sym_tier()) mats<3,3>(); else mats<2,3>(); }
SYM_HARNESS(matlab_special, SYM_REAL, "complex,no columns,nested,dense"){
  switch(sym_concrete_l(sym_int("kind",0,3))){
  case 0: { auto w=pattern<2,2>(); BCRSMatrix<FieldMatrix<std::complex<double>,1,2>> A; build(A,w); fillvals(A,w); Pic P(2,4); std::vector<double> im(8,0.0); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) for(int b=0;b<2;b++){ int k=i*4+2*j+b; P.in[k]=1; P.v[k]=A[i][j][0][b].real(); im[k]=A[i][j][0][b].imag(); } 
    matlabCheck(A,P,&im); sym_reach("complex"); break; }
  case 1: { int n=(int)sym_concrete_l(sym_int("rows",0,3)); BCRSMatrix<double> A(n,0,BCRSMatrix<double>::row_wise); for(auto r=A.createbegin();r!=A.createend();++r); Pic P(n,0); matlabCheck(A,P); matCheck(A,P); sym_reach("no columns"); break; }
  case 2: { // nested: 2x2 blocks of sizes (1,2)x(2,1), every block pattern that names all rows and columns
    auto w=pattern<2,2>(); for(int i=0;i<2;i++){ sym_assume(w[i][0]||w[i][1]); sym_assume(w[0][i]||w[1][i]); }
    typedef BCRSMatrix<double> In; BCRSMatrix<In> A; build(A,w); int rn[2]={1,2},cn[2]={2,1},ro[2]={0,1},co[2]={0,2}; Pic P(3,3);
    for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ In& B=A[i][j]; B.setBuildMode(In::row_wise); B.setSize(rn[i],cn[j]); bool first=true; std::vector<std::pair<int,int>> e; for(auto r=B.createbegin();r!=B.createend();++r) for(int c=0;c<cn[j];c++) if((r.index()+c)%2==0||first){ r.insert(c); e.push_back({(int)r.index(),c}); first=false; }
      for(auto& q:e){ fill(B[q.first][q.second],"a"); int k=(ro[i]+q.first)*3+co[j]+q.second; P.in[k]=1; P.v[k]=B[q.first][q.second]; } }
    matlabCheck(A,P); matCheck(A,P); sym_reach("nested"); break; }
  default: { Matrix<FieldMatrix<double,1,1>> A(2,3); Pic P(2,3); for(int i=0;i<2;i++) for(int j=0;j<3;j++){ fill(A[i][j],"a"); P.in[i*3+j]=1; P.v[i*3+j]=A[i][j][0][0]; } Tok::clear(); std::stringstream s; writeMatrixToMatlabHelper(A,0,0,s); triples(s.str(),P,"writeMatrixToMatlabHelper on Matrix"); sym_reach("dense"); }
  }
}
// SVG ----------------------------------------------------------------------------------------------------
namespace {
struct Box { std::vector<std::size_t> r,c; std::array<std::size_t,4> b; double v; bool leaf; };
std::vector<Box>* svg;
struct Rec { std::size_t block_size=10,interspace=5,width=0,height=0; bool write_header=true; std::string style="s";
  template<class S,class R,class C,class B> void writeSVGBlock(S& out,const R& r,const C& c,const B& blk,const std::array<std::size_t,4>& b) const {
    if constexpr(!std::is_same_v<std::decay_t<S>,Impl::NullStream>){ Box x; x.r.assign(r.begin(),r.end()); x.c.assign(c.begin(),c.end()); x.b=b; x.leaf=false; x.v=0; if constexpr(blockLevel<B>()==0){ x.leaf=true; x.v=blk; } out<<"<b #"<<svg->size()<<"/>\n"; svg->push_back(x); } } };
// the recorded blocks whose element made it into the text (the library also writes to scratch streams to find sizes)
std::vector<Box> shown(const std::vector<Box>& B,const std::string& t){ std::vector<Box> r; for(auto p=t.find("<b #");p!=std::string::npos;p=t.find("<b #",p+1)) r.push_back(B[atoi(t.c_str()+p+4)]); return r; }
double attr(const std::string& t,const char* key,const char* l){ auto p=t.find(std::string(" ")+key+"='"); sym_assert_b(p!=std::string::npos,l); if(p==std::string::npos) return 0; p+=strlen(key)+3; auto e=t.find_first_of("' ",p); return Tok::tab()[atoi(t.substr(p,e-p).c_str()+1)].v; }
}
SYM_HARNESS(svg_scalar, SYM_REAL, "svg"){
  auto w=pattern<2,3>(); BCRSMatrix<double> A; build(A,w); fillvals(A,w); Tok::clear(); std::vector<Box> B; svg=&B;
  Rec o; o.block_size=sym_int("block_size",1,20); o.interspace=sym_int("interspace",0,9); int wd=(int)sym_concrete_l(sym_int("width given",0,1)),ht=(int)sym_concrete_l(sym_int("height given",0,1)); o.width=wd?100:0; o.height=ht?80:0; o.write_header=decided(sym_bool("header")); if(o.write_header){ o.block_size=sym_concrete_l(sym_int("block",0,1))?10:1; o.interspace=sym_concrete_l(sym_int("space",0,1))?5:0; }
  std::stringstream s; writeSVGMatrix(s,A,o); B=shown(B,s.str()); bool ok=true; int cnt=0; for(int i=0;i<2;i++) for(int j=0;j<3;j++) if(w[i][j]) cnt++;
  SYM_ASSERT((int)B.size()==1+cnt,"svg: one block per stored entry and one for the matrix"); if((int)B.size()!=1+cnt) return;
  std::size_t W=o.interspace+3*(o.block_size+o.interspace), H=o.interspace+2*(o.block_size+o.interspace); std::size_t k=0;
  for(auto& x:B) if(!x.leaf){ SYM_ASSERT(x.r.empty()&&x.c.empty(),"svg: prefix of the matrix itself"); SYM_EQ(x.b[2],W,"svg: total width"); SYM_EQ(x.b[3],H,"svg: total height"); }
  std::vector<char> seen(6,0); for(auto& x:B) if(x.leaf){ ok=x.r.size()==1&&x.c.size()==1&&x.r[0]<2&&x.c[0]<3; SYM_ASSERT(ok,"svg: index prefix"); if(!ok) return; int i=x.r[0],j=x.c[0]; SYM_ASSERT(w[i][j]&&!seen[i*3+j],"svg: each stored entry once"); seen[i*3+j]=1; SYM_EQ(x.v,A[i][j],"svg: value");
    SYM_EQ(x.b[0],o.interspace+j*(o.block_size+o.interspace),"svg: x"); SYM_EQ(x.b[1],o.interspace+i*(o.block_size+o.interspace),"svg: y"); SYM_EQ(x.b[2],o.block_size,"svg: width"); SYM_EQ(x.b[3],o.block_size,"svg: height"); k++; }
  std::string t=s.str(); auto cntOf=[&](const char* x){ int c=0; for(auto p=t.find(x);p!=std::string::npos;p=t.find(x,p+1)) c++; return c; };
  SYM_ASSERT(cntOf("<svg")==(o.write_header?1:0)&&cntOf("</svg>")==cntOf("<svg")&&cntOf("<g ")==cntOf("</g>")&&cntOf("<b #")==1+cnt,"svg: balanced elements");
  if(o.write_header){ double dw=attr(t,"width","svg: header width"),dh=attr(t,"height","svg: header height"); SYM_ASSERT(dw>=1&&dh>=1,"svg: the picture has a positive size"); if(wd) SYM_ASSERT(dw==100,"svg: the given width"); if(ht) SYM_ASSERT(dh==80,"svg: the given height"); }
  sym_reach("svg");
}
SYM_HARNESS(svg_nested, SYM_REAL, "svg"){
  auto w=pattern<2,2>(); bool any=false; for(int i=0;i<2;i++) for(int j=0;j<2;j++) any|=w[i][j]; sym_assume(any);
  BCRSMatrix<FieldMatrix<double,2,1>> A; build(A,w); fillvals(A,w); Tok::clear(); std::vector<Box> B; svg=&B; Rec o; o.block_size=sym_int("block_size",1,20); o.interspace=sym_int("interspace",0,9); o.write_header=false;
  std::stringstream s; writeSVGMatrix(s,A,o); B=shown(B,s.str()); int cnt=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) cnt++;
  SYM_ASSERT((int)B.size()==1+3*cnt,"svg nested: one block per entry, per stored block and one for the matrix"); if((int)B.size()!=1+3*cnt) return;
  std::size_t bw=o.interspace+(o.block_size+o.interspace), bh=o.interspace+2*(o.block_size+o.interspace);
  std::vector<char> sb(4,0),se(8,0);
  for(auto& x:B){ SYM_ASSERT(x.r.size()==x.c.size()&&x.r.size()<=2,"svg nested: index prefixes");
    if(x.r.size()==0){ SYM_EQ(x.b[2],o.interspace+2*(bw+o.interspace),"svg nested: total width"); SYM_EQ(x.b[3],o.interspace+2*(bh+o.interspace),"svg nested: total height"); }
    else if(x.r.size()==1){ bool ok=x.r[0]<2&&x.c[0]<2; SYM_ASSERT(ok,"svg nested: block index"); if(!ok) return; int q=x.r[0]*2+x.c[0]; SYM_ASSERT(w[x.r[0]][x.c[0]]&&!sb[q],"svg nested: each stored block once"); sb[q]=1; SYM_EQ(x.b[2],bw,"svg nested: block width"); SYM_EQ(x.b[3],bh,"svg nested: block height"); }
    else { bool ok=x.r[0]<2&&x.c[0]<2&&x.r[1]<2&&x.c[1]<1; SYM_ASSERT(ok,"svg nested: entry index"); if(!ok) return; int q=(x.r[0]*2+x.c[0])*2+x.r[1]; SYM_ASSERT(w[x.r[0]][x.c[0]]&&!se[q],"svg nested: each entry once"); se[q]=1; SYM_EQ(x.v,A[x.r[0]][x.c[0]][x.r[1]][x.c[1]],"svg nested: value"); SYM_EQ(x.b[0],o.interspace,"svg nested: x"); SYM_EQ(x.b[1],o.interspace+x.r[1]*(o.block_size+o.interspace),"svg nested: y"); } }
  sym_reach("svg");
}
