// C09: block vector containers behave like sequences
// BOUNDS: histories of 4 (thorough: 5) operations (resize 0..3, reserve 0..4, copy, assign, move, swap, self assignment, scalar assignment, element write) on two BlockVector objects with symbolic values against a model; every constructor; windows into arrays of 5 elements with symbolic offset and length; index-compressed windows with every subset of 5 indices and every searched index
#include "flat.h"
using namespace Dune; using namespace H;
typedef BlockVector<double> V; typedef std::vector<double> Ref;
static void same(V& v,const Ref& r,bool val,const char*l){ const V& c=v; sym_assert_eq_l(v.size(),r.size(),l); sym_assert_eq_l(v.N(),r.size(),l); sym_assert_eq_l(v.dim(),r.size(),l); if(val){ for(std::size_t i=0;i<r.size();i++){ sym_assert_eq_d(v[i],r[i],l); sym_assert_eq_d(c.data()[i],r[i],l); } }
  std::size_t k=0; for(auto it=v.begin();it!=v.end();++it,++k){ sym_assert_eq_l(it.index(),k,l); sym_assert_b(&*it==&v[k],l); } sym_assert_eq_l(k,r.size(),l); for(auto it=c.begin();it!=c.end();++it) k--; sym_assert_eq_l(k,0,l); if(r.size()){ k=r.size(); for(auto it=v.beforeEnd();it!=v.beforeBegin();--it){ k--; sym_assert_eq_l(it.index(),k,l); } sym_assert_eq_l(k,0,l); }
  for(std::size_t i=0;i<=r.size();i++){ auto f=v.find(i); auto g=c.find(i); sym_assert_b((f==v.end())==(i>=r.size()),l); sym_assert_b((g==c.end())==(i>=r.size()),l); if(i<r.size()) sym_assert_eq_l(f.index(),i,l); } sym_assert_b(v.capacity()>=r.size(),l); }
SYM_HARNESS(histories,SYM_REAL,"resize,copy,move,swap"){
  V v[2]; Ref r[2]; 
  for(int k=0;k<(sym_tier()?4:3);k++){
    long op=sym_concrete_l(sym_int("op",0,9)); int a=sym_bool("which"),b=1-a;
    switch(op){
     case 0: case 1:{ long n=sym_concrete_l(sym_int("n",0,3)); std::size_t old=r[a].size(); v[a].resize(n); r[a].resize(n); sym_reach("resize"); for(std::size_t i=old;i<(std::size_t)n;i++){ SYM_EQ(v[a][i],0.0,"new components are value initialized"); v[a][i]=r[a][i]=sym_real("v"); } break; }
     case 2:{ long n=sym_concrete_l(sym_int("cap",0,4)); double* p=v[a].data(); std::size_t cap=v[a].capacity(); v[a].reserve(n); SYM_ASSERT(v[a].capacity()>=(std::size_t)n,"reserve"); p=v[a].data(); std::size_t keep=r[a].size(); v[a].resize(v[a].capacity()); SYM_ASSERT(v[a].data()==p,"no reallocation within the capacity"); v[a].resize(keep); break; }
     case 3: v[a]=v[b]; r[a]=r[b]; sym_reach("copy"); break;
     case 4:{ V c(v[b]); c.swap(v[a]); Ref t=r[a]; r[a]=r[b]; same(c,t,true,"swapped out"); break; }
     case 5:{ V c(std::move(v[b])); SYM_EQ(v[b].size(),0,"moved from vector is empty"); v[b]=V(); same(c,r[b],true,"moved to"); v[a]=std::move(c); r[a]=r[b]; r[b].clear(); sym_reach("move"); break; }
     case 6: v[0].swap(v[1]); r[0].swap(r[1]); sym_reach("swap"); break;
     case 7: v[a]=*&v[a]; break;
     case 8:{ double s=sym_real("s"); v[a]=s; for(auto&x:r[a]) x=s; break; }
     case 9:{ if(r[a].empty()) return; long i=sym_concrete_l(sym_int("i",0,r[a].size()-1)); double s=sym_real("w"); v[a][i]=s; r[a][i]=s; break; }
    }
    same(v[0],r[0],true,"first vector"); same(v[1],r[1],true,"second vector"); if(r[0].size()&&r[1].size()) SYM_ASSERT(v[0].data()!=v[1].data(),"no aliasing");
  }
}
SYM_HARNESS(construct,SYM_REAL,"done"){ long n=sym_concrete_l(sym_int("n",0,3)),c=sym_concrete_l(sym_int("c",0,5)); V a(n); same(a,Ref(n,0.0),true,"sized"); V b(n,(std::size_t)c); same(b,Ref(n,0.0),true,"sized with capacity"); SYM_ASSERT(b.capacity()>=(std::size_t)std::max(n,c),"capacity"); double x=sym_real("x"),y=sym_real("y"); V l={x,y,x}; same(l,Ref{x,y,x},true,"list"); V m(l); same(m,Ref{x,y,x},true,"copy"); m[1]=7; same(l,Ref{x,y,x},true,"source of copy"); V o(std::move(l)); same(o,Ref{x,y,x},true,"move"); V e; same(e,Ref{},true,"default"); e=o; same(e,Ref{x,y,x},true,"assigned"); sym_reach("done"); }
SYM_HARNESS(blocks,SYM_REAL,"done"){ typedef BlockVector<FieldVector<double,2>> W; W a(2); fillv(a,"a"); auto f=flat<double>(a); W b(a),c; c=a; a.resize(3); auto g=flat<double>(a); f.push_back(0); f.push_back(0); eqv(g,f,"resize keeps and appends zero blocks"); f.pop_back(); f.pop_back(); eqv(flat<double>(b),f,"copy"); eqv(flat<double>(c),f,"assigned"); a.resize(1); f.resize(2); eqv(flat<double>(a),f,"shrunk"); SYM_EQ(b.dim(),4,"dim"); typedef BlockVector<BlockVector<double>> N; N x(2); x[0]={1.0,2.0}; x[1].resize(1); x[1][0]=sym_real("v"); N y(x); x[1][0]=0; x[0].resize(0); SYM_EQ(y[0].size(),2,"nested copy is deep"); SYM_EQ(y.dim(),3,"nested dim"); y=x; SYM_EQ(y.dim(),1,"nested assignment"); sym_reach("done"); }
SYM_HARNESS(window,SYM_REAL,"done"){ double a[5]; for(double&x:a) x=sym_real("a"); typedef Imp::BlockVectorWindow<double,std::allocator<double>> W; long o=sym_concrete_l(sym_int("o",0,4)),n=sym_concrete_l(sym_int("n",0,4)); sym_assume(o+n<=5); W w(a+o,n),u(w),z; z.set(n,a+o); SYM_EQ(w.N(),(std::size_t)n,"size"); SYM_EQ(z.getsize(),(std::size_t)n,"size"); for(int i=0;i<n;i++){ SYM_ASSERT(&w[i]==a+o+i&&&u[i]==a+o+i&&&z[i]==a+o+i,"window refers to the elements"); } long k=0; for(auto it=w.begin();it!=w.end();++it){ SYM_EQ((long)it.index(),k,"index"); SYM_ASSERT(&*it==a+o+k,"element"); k++; } SYM_EQ(k,n,"count"); double s=sym_real("s"),b[5]; std::copy(a,a+5,b); w=s; for(int i=0;i<5;i++) SYM_EQ(a[i],(i>=o&&i<o+n)?s:b[i],"scalar assignment stays inside"); 
  double d[5]={1,2,3,4,5}; W t(d,n); w=t; for(int i=0;i<5;i++) SYM_EQ(a[i],(i>=o&&i<o+n)?d[i-o]:b[i],"assignment copies data"); SYM_ASSERT(w.getptr()==a+o,"assignment keeps the window"); t.setptr(d+1); t.setsize(n>0?n-1:0); SYM_EQ(t.getsize(),(std::size_t)(n>0?n-1:0),"setsize"); SYM_ASSERT(t.getptr()==d+1,"setptr"); sym_reach("done"); }
SYM_HARNESS(compressed,SYM_REAL,"found,missing"){
  const int m=5; double a[m]; std::size_t j[m]; int n=0; bool in[m]; for(int i=0;i<m;i++){ in[i]=sym_bool("in"); if(in[i]){ j[n]=i; a[n]=sym_real("a"); n++; } } typedef Imp::CompressedBlockVectorWindow<double> W; W w(a,j,n); const W& c=w; SYM_EQ(w.size(),(std::size_t)n,"size"); SYM_EQ(w.N(),(std::size_t)n,"N");
  long q=sym_int("q",0,m); bool has=false; int pos=0; for(int i=0;i<m;i++) if(i==q) has=in[i]; q=sym_concrete_l(q); for(int i=0;i<q&&i<m;i++) pos+=in[i];
  auto f=w.find(q); auto g=c.find(q); SYM_ASSERT((f!=w.end())==has,"find"); SYM_ASSERT((g!=c.end())==has,"const find"); if(has){ SYM_EQ(f.index(),(std::size_t)q,"found index"); SYM_EQ((int)f.offset(),pos,"found offset"); SYM_ASSERT(&*f==a+pos&&&w[q]==a+pos&&&c[q]==a+pos,"found element"); sym_reach("found"); } else { bool t=false,u=false; try{ w[q]; }catch(const ISTLError&){t=true;} try{ c[q]; }catch(const ISTLError&){u=true;} SYM_ASSERT(t&&u,"access to a missing index is refused"); sym_reach("missing"); }
  int k=0; long last=-1; for(auto it=c.begin();it!=c.end();++it,++k){ SYM_ASSERT((long)it.index()>last,"order"); last=it.index(); SYM_ASSERT(&*it==a+k,"element"); SYM_EQ((int)it.offset(),k,"offset"); } SYM_EQ(k,n,"count"); for(auto it=w.beforeEnd();it!=w.beforeBegin();--it){ k--; SYM_EQ(it.index(),j[k],"reverse index"); } SYM_EQ(k,0,"reverse count");
  W u(w); double s=sym_real("s"); u=s; for(int i=0;i<n;i++) SYM_EQ(a[i],s,"copied window refers to the same elements"); double b[m]={9,8,7,6,5}; std::size_t jj[m]={0,2,3,4,7}; W t(b,jj,n); w=t; for(int i=0;i<n;i++){ SYM_EQ(a[i],b[i],"assignment copies data"); SYM_EQ(j[i],jj[i],"assignment copies indices"); } SYM_ASSERT(w.getptr()==a&&w.getindexptr()==j,"assignment keeps the window");
}
