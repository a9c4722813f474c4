// Matrix Market files: dune/istl/matrixmarket.hh
// BOUNDS: written and read again: BCRS 2x3 every pattern with blocks double, 2x2, complex, complex 2x1; vectors of 0..3 blocks double, 2, complex, complex 2. Read from text: scalar 3x3 and 2x2-blocked 4x4 coordinate files with 0..all positions (4x4: every subset of 8 positions), entries in ascending or descending order, comments before any entry, structure general/symmetric/skew-symmetric/hermitian, data real/integer/complex/pattern; damaged files: every truncation after a field, indices out of range, sizes that do not fit the blocks or the structure
// BOUND-THOROUGH: 3x3 patterns written and read again
// ASSUME: the conversion between double and characters by the C++ library is replaced by tokens naming the value (see tok.h), everything else of the streams is the real library; float entries are outside
#include "mat.h"
#include "tok.h"
#include <dune/istl/matrixmarket.hh>
#include <unistd.h>
#include <cstring>
using namespace Dune; using namespace H;
typedef std::complex<double> Cx;
namespace {
double nval(double x){ return x; }
template<class B> struct Bl { typedef B K; static const int n=1,m=1; static B& at(B& b,int,int){ return b; } static const B& at(const B& b,int,int){ return b; } };
template<class F,int N,int M_> struct Bl<FieldMatrix<F,N,M_>> { typedef F K; static const int n=N,m=M_; static F& at(FieldMatrix<F,N,M_>& b,int i,int j){ return b[i][j]; } static const F& at(const FieldMatrix<F,N,M_>& b,int i,int j){ return b[i][j]; } };
template<class B,int n,int m> void sameM(const BCRSMatrix<B>& A,const BCRSMatrix<B>& R,const Pat<n,m>& w,const char* l){ samePattern(R,w,l); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) for(int a=0;a<Bl<B>::n;a++) for(int b=0;b<Bl<B>::m;b++) sym_eq_(Bl<B>::at(R[i][j],a,b),Bl<B>::at(A[i][j],a,b),l); }
template<class B,int n,int m> void roundtrip(const Pat<n,m>& w){
  typedef BCRSMatrix<B> M; M A; build(A,w); fillvals(A,w); Tok::clear(); std::stringstream s; s.precision(11); writeMatrixMarket(A,s);
  M R; if(decided(sym_bool("used before"))){ R.setBuildMode(M::row_wise); R.setSize(3,2); for(auto r=R.createbegin();r!=R.createend();++r) r.insert(r.index()%2); R=1.0; }
  readMatrixMarket(R,s); sameM(A,R,w,"a matrix written and read again"); for(auto& r:Tok::tab()) SYM_ASSERT(r.prec==11,"the precision of the stream is used"); }
template<class B> void roundtripV(int n){
  BlockVector<B> v(n),r(sym_concrete_l(sym_int("old",0,2))); for(int i=0;i<n;i++) fill(v[i],"v"); r=1.0; Tok::clear(); std::stringstream s; writeMatrixMarket(v,s); readMatrixMarket(r,s);
  SYM_ASSERT((int)r.N()==n,"size of a vector read again"); if((int)r.N()!=n) return; for(int i=0;i<n;i++) if constexpr(IsNumber<B>::value) sym_eq_(r[i],v[i],"a vector written and read again"); else for(std::size_t k=0;k<v[i].size();k++) sym_eq_(r[i][k],v[i][k],"a vector written and read again"); }
struct Dir { char n[64]; Dir(){ strcpy(n,"/dev/shm/dune-c33-XXXXXX"); if(!mkdtemp(n)) abort(); } std::string operator()(const char* f)const{ return std::string(n)+"/"+f; } ~Dir(){ for(const char* f:{"a","a.mm","a.mtx","a.dat.mm"}) unlink((std::string(n)+"/"+f).c_str()); rmdir(n); } };
}
template<int n,int m> static void roundtrips(){ auto w=pattern<n,m>(); switch(sym_concrete_l(sym_int("block",0,3))){ case 0: roundtrip<double>(w); sym_reach("scalar"); break; case 1: roundtrip<FieldMatrix<double,2,2>>(w); sym_reach("blocks"); break; case 2: roundtrip<Cx>(w); sym_reach("complex"); break; default: roundtrip<FieldMatrix<Cx,2,1>>(w); sym_reach("complex"); } }
SYM_HARNESS(matrix_roundtrip, SYM_REAL, "scalar,blocks,complex"){ if(sym_tier()) roundtrips<3,3>(); else roundtrips<2,3>(); }
SYM_HARNESS(vector_roundtrip, SYM_REAL, "scalar,blocks,complex"){
  int n=(int)sym_concrete_l(sym_int("n",0,3)); switch(sym_concrete_l(sym_int("block",0,3))){ case 0: roundtripV<double>(n); sym_reach("scalar"); break; case 1: roundtripV<FieldVector<double,2>>(n); sym_reach("blocks"); break; case 2: roundtripV<Cx>(n); sym_reach("complex"); break; default: roundtripV<FieldVector<Cx,2>>(n); sym_reach("complex"); } }
// the file interface
SYM_HARNESS(files, SYM_REAL, "matrix,vector,missing"){
  Dir d; const char* nm[]={"a","a.mm","a.mtx","a.dat"}; const char* fn[]={"a.mm","a.mm","a.mtx","a.dat.mm"}; int k=(int)sym_concrete_l(sym_int("name",0,3)); Tok::clear(); int prec=(int)sym_concrete_l(sym_int("precision",-1,17));
  if(decided(sym_bool("absent"))){ BCRSMatrix<double> R; bool threw=false; try { loadMatrixMarket(R,d(nm[k])); } catch(const IOError&){ threw=true; } SYM_ASSERT(threw,"loading a file that does not exist"); sym_reach("missing"); return; }
  if(decided(sym_bool("matrix"))){ auto w=full<2,2>(); BCRSMatrix<double> A,R; build(A,w); fillvals(A,w); storeMatrixMarket(A,d(nm[k]),prec); SYM_ASSERT(access(d(fn[k]).c_str(),R_OK)==0,"name of the file"); if(k==2||!decided(sym_bool("full name"))) loadMatrixMarket(R,d(nm[k])); else loadMatrixMarket(R,d(fn[k])); sameM(A,R,w,"a matrix stored and loaded"); sym_reach("matrix"); }
  else { BlockVector<double> v(2),r; for(auto& x:v) fill(x,"v"); storeMatrixMarket(v,d(nm[k]),prec); loadMatrixMarket(r,d(nm[k])); SYM_ASSERT(r.N()==2,"size"); SYM_EQ(r[0],v[0],"a vector stored and loaded"); SYM_EQ(r[1],v[1],"a vector stored and loaded"); sym_reach("vector"); }
  for(auto& r:Tok::tab()){ if(prec>0) SYM_ASSERT(r.prec==prec,"requested precision"); SYM_ASSERT(r.sci,"scientific format"); }
}
// reading text ---------------------------------------------------------------------------------------------
namespace {
enum { GEN, SYM, SKEW, HERM }; enum { RE, INT, CPX, PATT };
const char* sname[]={"general","symmetric","skew-symmetric","hermitian"}; const char* cname[]={"real","integer","complex","pattern"};
std::string put(double v){ std::stringstream s; s<<v; return s.str(); }
// a coordinate file of an n x n matrix with the positions p (lower triangle unless general)
template<class K,int n> struct File { bool p[n][n]={}; K v[n][n]; std::string text; int cnt=0; };
template<class K,int n> void write(File<K,n>& f,int st,int ct){
  std::stringstream s; s<<"%%MatrixMarket matrix "; bool up=decided(sym_bool("upper case")); s<<(up?"COORDINATE":"coordinate")<<" "<<cname[ct]<<" "<<sname[st]<<"\n"; int com=(int)sym_concrete_l(sym_int("comments",0,2)); if(com) s<<"% a comment\n%\n"; 
  std::vector<std::pair<int,int>> e; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(f.p[i][j]) e.push_back({i,j}); if(decided(sym_bool("descending"))) std::reverse(e.begin(),e.end()); f.cnt=e.size();
  s<<n<<" "<<n<<" "<<e.size()<<"\n"; int k=0; for(auto& q:e){ if(com==2&&(k++)%2==0) s<<"% in between\n"; s<<q.first+1<<" "<<q.second+1; K& x=f.v[q.first][q.second]; x=K(0);
    if(ct==RE){ double r=sym_real("r"); x=r; s<<" "<<put(r); } else if(ct==INT){ long z=(k%2?3:-7); x=double(z); s<<" "<<z; k++; } else if(ct==CPX){ double r=sym_real("r"),i=sym_real("i"); if constexpr(!std::is_same_v<K,double>) x=K(r,i); s<<" "<<put(r)<<" "<<put(i); } s<<"\n"; }
  f.text=s.str(); }
template<class K> K cj(K x){ if constexpr(std::is_same_v<K,double>) return x; else return std::conj(x); }
template<class B,int n> void readCheck(File<typename Bl<B>::K,n>& f,int st,int ct){
  typedef typename Bl<B>::K K; const int b=Bl<B>::n; write(f,st,ct); bool q[n][n]; K v[n][n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ q[i][j]=f.p[i][j]; v[i][j]=q[i][j]?f.v[i][j]:K(0); }
  if(st!=GEN) for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(f.p[i][j]){ q[j][i]=true; v[j][i]=st==SYM?v[i][j]:st==SKEW?-v[i][j]:cj(v[i][j]); }
  BCRSMatrix<B> R; std::stringstream s(f.text); readMatrixMarket(R,s); Pat<n/b,n/b> w; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(q[i][j]) w[i/b][j/b]=true;
  samePattern(R,w,"the pattern read"); for(int i=0;i<n/b;i++) for(int j=0;j<n/b;j++) if(w[i][j]) for(int c=0;c<b;c++) for(int d=0;d<b;d++) sym_eq_(Bl<B>::at(R[i][j],c,d),v[i*b+c][j*b+d],"the values read"); }
template<class K,int n> void positions(File<K,n>& f,int st,int step=1){ int k=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(st!=GEN&&j>i) continue; if(st==SKEW&&i==j) continue; if((k++)%step==0) f.p[i][j]=decided(sym_bool("p")); } }
}
SYM_HARNESS(read_scalar, SYM_REAL, "general,symmetric,skew,hermitian"){
  int st=(int)sym_concrete_l(sym_int("structure",0,3)); File<double,3> f; positions(f,st,st==GEN?2:1); readCheck<double,3>(f,st,RE); sym_reach(st==GEN?"general":st==SYM?"symmetric":st==SKEW?"skew":"hermitian"); }
SYM_HARNESS(read_blocks, SYM_REAL, "general,symmetric"){
  int st=(int)sym_concrete_l(sym_int("structure",0,2)); File<double,4> f; positions(f,st,st==GEN?2:st==SYM?2:1); readCheck<FieldMatrix<double,2,2>,4>(f,st,RE); sym_reach(st==GEN?"general":"symmetric"); }
SYM_HARNESS(read_complex, SYM_REAL, "complex,real"){
  int st=(int)sym_concrete_l(sym_int("structure",0,3)); int ct=(int)sym_concrete_l(sym_int("data",0,2)); File<Cx,3> f; positions(f,st,2); readCheck<Cx,3>(f,st,ct); sym_reach(ct==CPX?"complex":"real"); }
SYM_HARNESS(read_kinds, SYM_REAL, "integer,pattern,refused"){
  int ct=(int)sym_concrete_l(sym_int("data",1,3)); File<double,3> f; positions(f,GEN,2);
  if(ct==CPX){ write(f,GEN,ct); BCRSMatrix<double> R; std::stringstream s(f.text); bool threw=false; try { readMatrixMarket(R,s); } catch(const Exception&){ threw=true; } SYM_ASSERT(threw,"complex data for a real matrix is refused"); sym_reach("refused"); return; }
  // what pattern files say is the pattern only; values are zero
  readCheck<double,3>(f,GEN,ct); sym_reach(ct==INT?"integer":"pattern"); }
SYM_HARNESS(read_vector, SYM_REAL, "real,complex,refused"){
  int n=(int)sym_concrete_l(sym_int("n",0,3)); bool cx=decided(sym_bool("complex")); std::stringstream s; s<<"%%MatrixMarket matrix array "<<(cx?"complex":"real")<<" general\n% x\n"<<n<<" 1\n"; std::vector<Cx> v; for(int i=0;i<n;i++){ double a=sym_real("r"),b=cx?sym_real("i"):0.0; v.push_back(Cx(a,b)); s<<put(a); if(cx) s<<" "<<put(b); s<<"\n"; }
  if(decided(sym_bool("into complex"))){ BlockVector<Cx> r; readMatrixMarket(r,s); SYM_ASSERT((int)r.N()==n,"size"); for(int i=0;i<n;i++) SYM_EQ(r[i],v[i],"complex vector"); sym_reach("complex"); }
  else if(cx){ BlockVector<double> r; bool threw=false; try { readMatrixMarket(r,s); } catch(const Exception&){ threw=true; } SYM_ASSERT(threw,"complex data for a real vector is refused"); sym_reach("refused"); }
  else { BlockVector<double> r; readMatrixMarket(r,s); SYM_ASSERT((int)r.N()==n,"size"); for(int i=0;i<n;i++) SYM_EQ(r[i],v[i].real(),"real vector"); sym_reach("real"); }
}
// damaged input is refused by an exception: nothing outside the matrix is touched, nothing is made up
namespace {
template<class O> bool refused(const std::string& t){ O R; std::stringstream s(t); try { readMatrixMarket(R,s); } catch(const Exception&){ return true; } return false; }
std::string cut(const std::vector<std::string>& w,int k){ std::string t; for(int i=0;i<k;i++) t+=w[i]; return t; }
}
SYM_HARNESS(damaged, SYM_REAL, "truncated,index,dimensions,vector"){
  Tok::clear(); const std::string H="%%MatrixMarket matrix coordinate real "; double a=sym_real("a"),b=sym_real("b"); std::string A=put(a),B=put(b);
  switch(sym_concrete_l(sym_int("kind",0,3))){
  case 0: { std::vector<std::string> w={H+"general\n","2 ","2 ","2\n","1 ","2 ",A+"\n","2 ","1 ",B+"\n"}; int k=(int)sym_concrete_l(sym_int("fields",1,10)); bool r=refused<BCRSMatrix<double>>(cut(w,k)); SYM_ASSERT(r==(k<10),"a matrix file that ends early"); sym_reach("truncated"); break; }
  case 1: { int st=(int)sym_concrete_l(sym_int("structure",0,3)); long i=sym_concrete_l(sym_int("i",-1,4)),j=sym_concrete_l(sym_int("j",-1,5)); int rows=2,cols=st==GEN?3:2; std::string t=H+sname[st]+"\n"+std::to_string(rows)+" "+std::to_string(cols)+" 1\n"+std::to_string(i)+" "+std::to_string(j)+" "+A+"\n";
    bool r=refused<BCRSMatrix<double>>(t); SYM_ASSERT(r==!(i>=1&&i<=rows&&j>=1&&j<=cols),"an entry outside the matrix"); 
    std::string t2=H+"general\n4 2 1\n"+std::to_string(i)+" "+std::to_string(j)+" "+A+"\n"; r=refused<BCRSMatrix<FieldMatrix<double,2,1>>>(t2); SYM_ASSERT(r==!(i>=1&&i<=4&&j>=1&&j<=2),"an entry outside the blocked matrix"); sym_reach("index"); break; }
  case 2: { int n=(int)sym_concrete_l(sym_int("n",1,5)),m=(int)sym_concrete_l(sym_int("m",1,4)); std::string t=H+"general\n"+std::to_string(n)+" "+std::to_string(m)+" 1\n"+std::to_string(n)+" "+std::to_string(m)+" "+A+"\n"; bool r=refused<BCRSMatrix<FieldMatrix<double,2,3>>>(t); SYM_ASSERT(r==(n%2!=0||m%3!=0),"dimensions that are no multiple of the block size");
    int st=(int)sym_concrete_l(sym_int("structure",1,3)); t=H+sname[st]+"\n"+std::to_string(n)+" "+std::to_string(m)+" 1\n"+std::to_string(n)+" 1 "+A+"\n"; r=refused<BCRSMatrix<double>>(t); if(n!=m) SYM_ASSERT(r,"a symmetric matrix that is not square"); else SYM_ASSERT(!r,"a square symmetric matrix"); sym_reach("dimensions"); break; }
  default: { std::vector<std::string> w={"%%MatrixMarket matrix array real general\n","2 ","1\n",A+"\n",B+"\n"}; int k=(int)sym_concrete_l(sym_int("fields",1,5)); bool r=refused<BlockVector<double>>(cut(w,k)); SYM_ASSERT(r==(k<5),"a vector file that ends early"); r=refused<BlockVector<FieldVector<double,2>>>(cut(w,k)); SYM_ASSERT(r==(k<5),"a blocked vector file that ends early");
    int n=(int)sym_concrete_l(sym_int("n",0,4)),c=(int)sym_concrete_l(sym_int("c",0,2)); std::string t="%%MatrixMarket matrix array real general\n"+std::to_string(n)+" "+std::to_string(c)+"\n"; for(int i=0;i<n*c;i++) t+=A+"\n"; r=refused<BlockVector<FieldVector<double,2>>>(t); SYM_ASSERT(r==(n%2!=0||c!=1),"vector sizes that do not fit"); 
    r=refused<BlockVector<double>>("%%MatrixMarket matrix coordinate real general\n2 1\n"+A+"\n"+B+"\n"); SYM_ASSERT(r,"coordinate format for a vector"); r=refused<BCRSMatrix<double>>("%%MatrixMarket matrix array real general\n1 1\n"+A+"\n"); SYM_ASSERT(r,"array format for a matrix"); sym_reach("vector"); }
  }
}
// banners: only complete ones count; without one the documented default applies
SYM_HARNESS(banners, SYM_REAL, "default,read"){
  Tok::clear(); double a=sym_real("a"); std::string body="2 2 1\n2 1 "+put(a)+"\n"; const char* bn[]={"","% hello\n","%%MatrixMarket\n","%%MatrixMarket vector coordinate real symmetric\n","%%MatrixMarket matrix coordinates real symmetric\n","%%MatrixMarket matrix coordinate\n","%%MatrixMarket matrix coordinate rea symmetric\n","%%MatrixMarket matrix coordinate real sym\n","%%MatrixMarket matrix coordinate real Symmetric\n","%%MatrixMarket matrix coordinate REAL symmetric   \n%c\n"};
  int k=(int)sym_concrete_l(sym_int("banner",0,9)); BCRSMatrix<double> R; std::stringstream s(std::string(bn[k])+body); readMatrixMarket(R,s); bool sy=k>=8; Pat<2,2> w; w[1][0]=true; if(sy) w[0][1]=true; samePattern(R,w,"pattern after the banner"); SYM_EQ(R[1][0],a,"value"); if(sy) SYM_EQ(R[0][1],a,"mirrored value"); sym_reach(sy?"read":"default");
}
