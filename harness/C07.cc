// C07: block vector algebra and norms equal linear algebra
// BOUNDS: BlockVector of 0..3 entries (double, complex, FieldVector<.,2>, FieldVector<complex,2>, nested BlockVector), VariableBlockVector with blocks of 0..2 entries, windows, index-compressed windows; all values symbolic; NaN at any one position
#include "flat.h"
#include <dune/istl/vbvector.hh>
using namespace Dune; using namespace H;
typedef std::complex<double> C;
static double absq(double x){ return x*x; } static double absq(C c){ return c.real()*c.real()+c.imag()*c.imag(); }
static double ab(double x){ return x<0?-x:x; } static double ar(double x){ return ab(x); } static double ar(C c){ return ab(c.real())+ab(c.imag()); }
template<class K> K conjdot(const DV<K>& x,const DV<K>& y){ K s=0; for(std::size_t i=0;i<x.size();i++) s+=cj(x[i])*y[i]; return s; }
// linear part: no comparisons on values
template<class K,class V> void linear(V& x,V& y){
  fillv(x,"x"); fillv(y,"y"); const auto fx=flat<K>(x),fy=flat<K>(y); K s; fill(s,"s");
  sym_eq_(x*y,dotp(fx,fy),"bilinear product"); sym_eq_(x.dot(y),conjdot(fx,fy),"Hermitian product"); double n2=0; for(auto&e:fx) n2+=absq(e); SYM_EQ(x.two_norm2(),n2,"two_norm2");
  SYM_EQ(x.dim(),fx.size(),"dim"); eqv(flat<K>(x),fx,"products leave x"); eqv(flat<K>(y),fy,"products leave y");
  x+=y; eqv(flat<K>(x),axpy(fx,K(1),fy),"+="); x-=y; eqv(flat<K>(x),fx,"-="); x.axpy(s,y); eqv(flat<K>(x),axpy(fx,s,fy),"axpy"); eqv(flat<K>(y),fy,"axpy leaves y");
  y*=s; eqv(flat<K>(y),scl(s,fy),"*="); x=s; eqv(flat<K>(x),DV<K>(fx.size(),s),"= scalar"); x-=x; eqv(flat<K>(x),DV<K>(fx.size(),K(0)),"x-=x"); y+=y; eqv(flat<K>(y),scl(K(2)*s,fy),"y+=y");
  if constexpr(std::is_same_v<K,double>){ sym_assume(s!=0); y/=s; eqv(flat<K>(y),scl(2.0,fy),"/="); } else { y/=K(0,2); eqv(flat<K>(y),scl(K(0,-1)*s,fy),"/="); }
  sym_reach("done");
}
template<class V> void norms(V& x){
  fillv(x,"x"); const auto f=flat<double>(x); double n2=0,n1=0,mx=0; for(double e:f){ n2+=e*e; n1+=ab(e); if(ab(e)>mx) mx=ab(e); }
  double t=x.two_norm(); SYM_EQ(t*t,n2,"two_norm"); SYM_ASSERT(t>=0,"two_norm sign"); SYM_EQ(x.one_norm(),n1,"one_norm"); SYM_EQ(x.one_norm_real(),n1,"one_norm_real"); SYM_EQ(x.infinity_norm(),mx,"infinity_norm"); SYM_EQ(x.infinity_norm_real(),mx,"infinity_norm_real"); eqv(flat<double>(x),f,"norms leave x"); sym_reach("done");
}
template<class V> void cnorms(V& x){
  fillv(x,"x"); const auto f=flat<C>(x); double n2=0,n1=0,mx=0; for(C e:f){ n2+=absq(e); n1+=ar(e); if(ar(e)>mx) mx=ar(e); }
  double t=x.two_norm(); SYM_EQ(t*t,n2,"two_norm"); SYM_EQ(x.one_norm_real(),n1,"one_norm_real"); SYM_EQ(x.infinity_norm_real(),mx,"infinity_norm_real"); sym_reach("done"); }
static long len(){ return sym_concrete_l(sym_int("n",0,3)); }
SYM_HARNESS(lin_double,SYM_REAL,"done"){ long n=len(); BlockVector<double> x(n),y(n); linear<double>(x,y); }
SYM_HARNESS(lin_complex,SYM_REAL,"done"){ long n=len(); BlockVector<C> x(n),y(n); linear<C>(x,y); }
SYM_HARNESS(lin_block,SYM_REAL,"done"){ long n=len(); BlockVector<FieldVector<double,2>> x(n),y(n); linear<double>(x,y); }
SYM_HARNESS(lin_cblock,SYM_REAL,"done"){ long n=len(); BlockVector<FieldVector<C,2>> x(n),y(n); linear<C>(x,y); }
SYM_HARNESS(lin_nested,SYM_REAL,"done"){ BlockVector<BlockVector<FieldVector<C,1>>> x(2),y(2); for(int i=0;i<2;i++){ long k=sym_concrete_l(sym_int("k",0,2)); x[i].resize(k); y[i].resize(k); } linear<C>(x,y); }
SYM_HARNESS(lin_variable,SYM_REAL,"done"){ typedef VariableBlockVector<double> V; auto mk=[](int a,int b){ V v(2); { auto it=v.createbegin(); it.setblocksize(a); ++it; it.setblocksize(b); ++it; } return v; }; long a=sym_concrete_l(sym_int("a",0,2)),b=sym_concrete_l(sym_int("b",0,2)); V x=mk(a,b),y=mk(a,b); linear<double>(x,y); }
SYM_HARNESS(norm_double,SYM_REAL,"done"){ long n=len(); BlockVector<double> x(n); norms(x); }
SYM_HARNESS(norm_block,SYM_REAL,"done"){ BlockVector<FieldVector<double,2>> x(2); norms(x); }
SYM_HARNESS(norm_nested,SYM_REAL,"done"){ BlockVector<BlockVector<double>> x(2); x[0].resize(2); x[1].resize(1); norms(x); }
SYM_HARNESS(norm_variable,SYM_REAL,"done"){ VariableBlockVector<double> x(2); { auto it=x.createbegin(); it.setblocksize(2); ++it; it.setblocksize(1); ++it; } norms(x); }
SYM_HARNESS(norm_complex,SYM_REAL,"done"){ BlockVector<C> x(2); cnorms(x); BlockVector<FieldVector<C,1>> y(1); fillv(y,"y"); double a=y.infinity_norm(),b=y.one_norm(); SYM_EQ(a*a,absq(y[0][0]),"complex infinity_norm"); SYM_EQ(b*b,absq(y[0][0]),"complex one_norm"); }
inline void poison(double& x,long p,long& k){ if(k==p) x=std::numeric_limits<double>::quiet_NaN(); k++; }
template<class V> auto poison(V& v,long p,long& k) -> decltype((void)v.begin()){ for(auto it=v.begin();it!=v.end();++it) poison(*it,p,k); }
template<class V> void nan(V& x,int cnt){ fillv(x,"x"); long p=sym_concrete_l(sym_int("pos",0,cnt-1)); long k=0; poison(x,p,k);
  double v[6]={x.infinity_norm(),x.infinity_norm_real(),x.two_norm(),x.two_norm2(),x.one_norm(),x.one_norm_real()}; for(double e:v) SYM_ASSERT(e!=e,"NaN is reported by every norm"); sym_reach("done"); }
SYM_HARNESS(nan_double,SYM_REAL,"done"){ BlockVector<double> x(3); nan(x,3); }
SYM_HARNESS(nan_block,SYM_REAL,"done"){ BlockVector<FieldVector<double,2>> x(2); nan(x,4); }
SYM_HARNESS(nan_nested,SYM_REAL,"done"){ BlockVector<BlockVector<double>> x(2); x[0].resize(2); x[1].resize(1); nan(x,3); }
SYM_HARNESS(nan_variable,SYM_REAL,"done"){ VariableBlockVector<double> x(2); { auto it=x.createbegin(); it.setblocksize(2); ++it; it.setblocksize(1); ++it; } nan(x,3); }
// windows and compressed windows
SYM_HARNESS(windows,SYM_REAL,"done"){
  double a[4],b[4]; for(int i=0;i<4;i++){ a[i]=sym_real("a"); b[i]=sym_real("b"); } double A[4],B[4]; std::copy(a,a+4,A); std::copy(b,b+4,B); long n=sym_concrete_l(sym_int("n",0,2)); typedef Imp::BlockVectorWindow<double,std::allocator<double>> W; W x(a+1,n),y(b+1,n); double s=sym_real("s");
  double d=0; for(int i=1;i<=n;i++) d+=A[i]*B[i]; SYM_EQ(x*y,d,"window product"); x.axpy(s,y); for(int i=0;i<4;i++) SYM_EQ(a[i],(i>=1&&i<=n)?A[i]+s*B[i]:A[i],"window axpy"); y*=s; for(int i=0;i<4;i++) SYM_EQ(b[i],(i>=1&&i<=n)?s*B[i]:B[i],"window scale"); y=x; for(int i=0;i<4;i++) SYM_EQ(b[i],(i>=1&&i<=n)?a[i]:B[i],"window assignment copies"); x-=y; for(int i=1;i<=n;i++) SYM_EQ(a[i],0.0,"window difference"); BlockVector<double> c=y; SYM_EQ(c.size(),(std::size_t)n,"autonomous copy"); for(int i=0;i<n;i++){ SYM_EQ(c[i],y[i],"autonomous copy"); SYM_ASSERT(&c[i]!=&y[i],"autonomous copy is independent"); } sym_reach("done"); }
SYM_HARNESS(compressed,SYM_REAL,"done"){ // y's index set is a subset of x's
  typedef FieldVector<double,2> F; typedef Imp::CompressedBlockVectorWindow<F> W; F p[3],q[3]; std::size_t i[3]={1,4,6},j[3]; int n=0; for(int k=0;k<3;k++) if(sym_bool("in")) j[n++]=i[k]; for(int k=0;k<3;k++){ fill(p[k],"p"); fill(q[k],"q"); } F P[3],Q[3]; std::copy(p,p+3,P); std::copy(q,q+3,Q); W x(p,i,3),y(q,j,n); double s=sym_real("s");
  auto yat=[&](int k){ for(int m=0;m<n;m++) if(j[m]==i[k]) return Q[m]; return F(0.0); };
  if(n==3) SYM_EQ(x*y,P[0]*Q[0]+P[1]*Q[1]+P[2]*Q[2],"compressed product"); x+=y; for(int k=0;k<3;k++){ F w=P[k]+yat(k); HEQ(p[k],w,"compressed +="); } x-=y; for(int k=0;k<3;k++) HEQ(p[k],P[k],"compressed -="); x.axpy(s,y); for(int k=0;k<3;k++){ F w=P[k]; w.axpy(s,yat(k)); HEQ(p[k],w,"compressed axpy"); } for(int m=0;m<n;m++) HEQ(q[m],Q[m],"other unchanged");
  y*=s; for(int m=0;m<3;m++){ F w=Q[m]; if(m<n) w*=s; HEQ(q[m],w,"compressed scale"); } double t=0; for(int m=0;m<n;m++) t+=q[m]*q[m]; SYM_EQ(y.two_norm2(),t,"compressed norm"); SYM_EQ(y.dim(),(std::size_t)(2*n),"compressed dim"); x=s; for(int k=0;k<3;k++) HEQ(p[k],F(s),"compressed scalar assignment"); sym_reach("done"); }
SYM_HARNESS(compressed_norm,SYM_REAL,"done"){ typedef FieldVector<double,1> F; typedef Imp::CompressedBlockVectorWindow<F> W; F p[3]; std::size_t i[3]={0,2,5}; for(auto&e:p) fill(e,"p"); W x(p,i,2); double a=ab(p[0][0]),b=ab(p[1][0]); SYM_EQ(x.infinity_norm(),a>b?a:b,"compressed infinity_norm"); SYM_EQ(x.infinity_norm_real(),a>b?a:b,"compressed infinity_norm_real"); SYM_EQ(x.one_norm(),a+b,"compressed one_norm"); SYM_EQ(x.one_norm_real(),a+b,"compressed one_norm_real"); double t=x.two_norm(); SYM_EQ(t*t,a*a+b*b,"compressed two_norm"); x[2]=std::numeric_limits<double>::quiet_NaN(); double v=x.infinity_norm(),w=x.infinity_norm_real(); SYM_ASSERT(v!=v&&w!=w,"compressed NaN"); sym_reach("done"); }
// mixed field types
SYM_HARNESS(mixed,SYM_REAL,"done"){ BlockVector<FieldVector<double,1>> x(2); BlockVector<FieldVector<C,1>> y(2); fillv(x,"x"); fillv(y,"y"); C d=x[0][0]*y[0][0]+x[1][0]*y[1][0],e=x[0][0]*cj(y[0][0])+x[1][0]*cj(y[1][0]); sym_eq_(C(x.dot(y)),d,"real . complex"); sym_eq_(C(y.dot(x)),e,"complex . real"); sym_reach("done"); }
