// C13: direct solves of special block matrices are exact
// BOUNDS: block tridiagonal systems of up to 4 (thorough: 5) scalar unknowns and 3 blocks of size 2x2, block diagonal systems of up to 4 blocks (scalar, 2x2, 3x3), scaled identities up to size 4, all values with nonsingular pivots, all right-hand sides and previous contents of the solution; sizing sequences of 3 steps (construct, setSize 0..4, copy, assign) 
// ASSUME: the pivot blocks of the elimination are nonsingular (singular pivots divide by zero by definition)
#include "flat.h"
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/scaledidmatrix.hh>
using namespace Dune; using namespace H;
typedef FieldMatrix<double,2,2> B2; typedef FieldVector<double,2> V2;
static double inv(double a){ return 1.0/a; } static B2 inv(const B2& a){ B2 r; double d=a[0][0]*a[1][1]-a[0][1]*a[1][0]; r[0][0]=a[1][1]/d; r[0][1]=-a[0][1]/d; r[1][0]=-a[1][0]/d; r[1][1]=a[0][0]/d; return r; }
static bool regular(double a){ return a!=0.0; } template<int n> static bool regular(const FieldMatrix<double,n,n>& a){ if constexpr(n==1) return a[0][0]!=0.0; else if constexpr(n==2) return a[0][0]*a[1][1]-a[0][1]*a[1][0]!=0.0; else return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])!=0.0; }
static double prod(double a,double b){return a*b;} static B2 prod(const B2&a,const B2&b){ B2 r=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) for(int k=0;k<2;k++) r[i][j]+=a[i][k]*b[k][j]; return r; }
template<class B,class V,int n> static void thomas(){ BTDMatrix<B> A(n); for(auto&r:A) for(auto&e:r) fill(e,"a"); auto D=dense(A); BlockVector<V> x(n),b(n); fillv(x,"old"); fillv(b,"b"); auto fb=flat<double>(b);
  { B p=A[0][0]; sym_assume(regular(p)); for(int i=1;i<n;i++){ B s=A[i][i]; s-=prod(prod(A[i][i-1],inv(p)),A[i-1][i]); sym_assume(regular(s)); p=s; } }
  const BTDMatrix<B>& C=A; C.solve(x,b); auto fx=flat<double>(x); eqv(mul(D,fx),fb,"A x = b"); eqv(flat<double>(b),fb,"right-hand side unchanged"); eqm(dense(A),D,"matrix unchanged"); }
SYM_HARNESS(thomas1,SYM_REAL,"done"){ thomas<double,double,1>(); thomas<double,double,2>(); sym_reach("done"); }
SYM_HARNESS(thomas3,SYM_REAL,"done"){ thomas<double,double,3>(); sym_reach("done"); }
SYM_HARNESS(thomas4,SYM_REAL,"done"){ if(sym_tier()) thomas<double,double,5>(); else thomas<double,double,4>(); sym_reach("done"); }
SYM_HARNESS(thomas2b,SYM_REAL,"done"){ thomas<B2,V2,1>(); sym_reach("done"); }
SYM_HARNESS(thomas2b2,SYM_REAL,"done"){ thomas<B2,V2,2>(); sym_reach("done"); }
SYM_HARNESS(thomas2b3,SYM_REAL,"done"){ thomas<B2,V2,3>(); sym_reach("done"); }
SYM_HARNESS(empty,SYM_REAL,"done"){ BTDMatrix<double> A; BlockVector<double> x,b; A.setSize(0); A.solve(x,b); SYM_EQ(A.N(),0u,"N"); BTDMatrix<double> B(0); B.solve(x,b); BDMatrix<double> D; D.setSize(0); D.solve(x,b); D.invert(); SYM_EQ(D.N(),0u,"N"); SYM_EQ(x.size(),0u,"size"); sym_reach("done"); }
template<class B,class V,int n> static void diag(){ BDMatrix<B> A(n); for(auto&r:A) for(auto&e:r){ fill(e,"a"); sym_assume(regular(e)); } auto D=dense(A); BlockVector<V> x(n),b(n); fillv(x,"old"); fillv(b,"b"); auto fb=flat<double>(b); A.solve(x,b); eqv(mul(D,flat<double>(x)),fb,"A x = b"); eqv(flat<double>(b),fb,"right-hand side unchanged"); eqm(dense(A),D,"matrix unchanged");
  BDMatrix<B> I(A); I.invert(); DM<double> E(D.n,D.m); for(int i=0;i<D.n;i++) E(i,i)=1.0; eqm(mm(dense(I),D),E,"inverse times matrix"); eqm(dense(A),D,"source of the copy unchanged"); BlockVector<V> y(n); I.mv(b,y); eqv(flat<double>(y),flat<double>(x),"inverse solves"); }
SYM_HARNESS(diagonal,SYM_REAL,"done"){ long k=sym_concrete_l(sym_int("kind",0,3)); if(k==0) diag<double,double,4>(); else if(k==1) diag<B2,V2,2>(); else if(k==2) diag<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(); else diag<FieldMatrix<double,3,3>,FieldVector<double,3>,1>(); sym_reach("done"); }
template<int n> static void scaled(){ ScaledIdentityMatrix<double,n> A; double s=sym_real("s"); A=s; sym_assume(s!=0.0); FieldVector<double,n> x,b,y; fill(x,"old"); fill(b,"b"); FieldVector<double,n> c(b); A.solve(x,b); A.mv(x,y); for(int i=0;i<n;i++){ SYM_EQ(y[i],c[i],"A x = b"); SYM_EQ(b[i],c[i],"right-hand side unchanged"); } SYM_EQ(A.scalar(),s,"matrix unchanged"); double d=1; for(int i=0;i<n;i++) d*=s; SYM_EQ(A.determinant(),d,"determinant"); A.invert(); A.mv(b,y); for(int i=0;i<n;i++) SYM_EQ(y[i],x[i],"inverse solves"); }
SYM_HARNESS(scaledid,SYM_REAL,"done"){ scaled<1>(); scaled<2>(); scaled<4>(); sym_reach("done"); }
SYM_HARNESS(scaledblocks,SYM_REAL,"done"){ typedef ScaledIdentityMatrix<double,2> S; BDMatrix<S> A(3); BlockVector<V2> x(3),b(3); fillv(b,"b"); fillv(x,"old"); double s[3]; for(int i=0;i<3;i++){ s[i]=sym_real("s"); sym_assume(s[i]!=0.0); A[i][i]=s[i]; } for(int i=0;i<3;i++) for(int j=0;j<2;j++) SYM_EQ(A[i][i].scalar(),s[i],"block"); (void)x; BlockVector<V2> y(3); A.mv(b,y); for(int i=0;i<3;i++) for(int j=0;j<2;j++) SYM_EQ(y[i][j],s[i]*b[i][j],"product"); sym_reach("done"); }
// the declared structure for every way to size and re-size
template<class M> static void structure(const M& A,long n,int band){ SYM_EQ((long)A.N(),n,"N"); SYM_EQ((long)A.M(),n,"M"); long nz=0; for(long i=0;i<n;i++){ long k=0; for(auto j=A[i].begin();j!=A[i].end();++j,++k){ long c=j.index(); SYM_ASSERT(c-i<=band&&i-c<=band&&c<n,"column inside of the band"); } SYM_EQ(k,1+(band&&i>0)+(band&&i<n-1),"row is complete"); nz+=k; } SYM_EQ((long)A.nonzeroes(),nz,"nonzeroes"); }
template<class M> static void sizing(int band,bool thorough){ M a[2]; long n[2]={0,0}; for(int k=0;k<(thorough?4:3);k++){ int t=sym_bool("which"),o=1-t; long op=sym_concrete_l(sym_int("op",0,3)); 
   if(op==0){ n[t]=sym_concrete_l(sym_int("n",0,4)); a[t].setSize(n[t]); for(long i=0;i<n[t];i++) for(auto&e:a[t][i]) e=double(i); sym_reach("sized"); }
   else if(op==1){ n[t]=sym_concrete_l(sym_int("n",0,3)); M b((int)n[t]); for(long i=0;i<n[t];i++) for(auto&e:b[i]) e=double(i); a[t]=b; sym_reach("assigned"); }
   else if(op==2){ M b(a[o]); structure(b,n[o],band); b.setSize(2); structure(b,2,band); }
   else { a[t]=a[o]; n[t]=n[o]; }
   for(int z=0;z<2;z++){ structure(a[z],n[z],band); for(long i=0;i<n[z];i++) for(auto&e:a[z][i]) SYM_EQ(e,double(i),"values"); } } }
SYM_HARNESS(sizing_bd,SYM_REAL,"sized,assigned"){ sizing<BDMatrix<double>>(0,sym_tier()); }
SYM_HARNESS(sizing_btd,SYM_REAL,"sized,assigned"){ sizing<BTDMatrix<double>>(1,sym_tier()); }
SYM_HARNESS(lists,SYM_REAL,"done"){ double a=sym_real("a"),b=sym_real("b"); BDMatrix<double> D{a,b,a}; structure(D,3,0); SYM_EQ(D[0][0],a,"first"); SYM_EQ(D[1][1],b,"second"); SYM_EQ(D[2][2],a,"third"); D=b; SYM_EQ(D[2][2],b,"scalar assignment"); BTDMatrix<double> T(3); T=a; structure(T,3,1); for(auto&r:T) for(auto&e:r) SYM_EQ(e,a,"scalar assignment"); sym_reach("done"); }
