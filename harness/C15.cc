// C15: triangular and diagonal block solves are exact
// BOUNDS: every pattern with diagonal of 3x3 (thorough: 4x4) scalar, 2x2 (thorough: 3x3) dense 2x2 and diagonal blocks, and of 2x2 nested sparse matrices with 2x2 inner patterns; all values, all right-hand sides, all relaxation factors except 0, every solve (lower, upper, unit, relaxed, diagonal) at recursion levels 0, 1 and 2
// ASSUME: the diagonal blocks are nonsingular, the relaxation factor is not 0
#include "flat.h"
#include <dune/istl/gsetc.hh>
#include <dune/common/diagonalmatrix.hh>
using namespace Dune; using namespace H;
enum { LT,ULT,UT,UUT,DG,NK };
// v solves T v = d where T is the (unit) triangular / diagonal part of D with blocks of size B on the diagonal divided by w
static void judge(const DM<double>& D,const DV<double>& v,const DV<double>& d,int kind,double w,int B){ int n=D.n; for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++){ int bi=i/B,bj=j/B; bool unit=kind==ULT||kind==UUT; double t=0; if(bi==bj) t=unit?(i==j?1.0/w:0.0):D(i,j)/w; else if((bj<bi&&(kind==LT||kind==ULT))||(bj>bi&&(kind==UT||kind==UUT))) t=D(i,j); s+=t*v[j]; } SYM_EQ(s,d[i],"T v = d"); } }
template<class M,class X,class L> static void solve(const M& A,X& v,const X& d,int kind,bool relax,double w,L bl,bool deflt){
  if constexpr(L::recursion_level==1) if(deflt){ switch(kind){ case LT: relax?bltsolve(A,v,d,w):bltsolve(A,v,d); break; case ULT: relax?ubltsolve(A,v,d,w):ubltsolve(A,v,d); break; case UT: relax?butsolve(A,v,d,w):butsolve(A,v,d); break; case UUT: relax?ubutsolve(A,v,d,w):ubutsolve(A,v,d); break; default: relax?bdsolve(A,v,d,w):bdsolve(A,v,d); } return; }
  switch(kind){ case LT: relax?bltsolve(A,v,d,w,bl):bltsolve(A,v,d,bl); break; case ULT: relax?ubltsolve(A,v,d,w,bl):ubltsolve(A,v,d,bl); break; case UT: relax?butsolve(A,v,d,w,bl):butsolve(A,v,d,bl); break; case UUT: relax?ubutsolve(A,v,d,w,bl):ubutsolve(A,v,d,bl); break; default: relax?bdsolve(A,v,d,w,bl):bdsolve(A,v,d,bl); } }
static double det(const FieldMatrix<double,1,1>& a){ return a[0][0]; } static double det(const FieldMatrix<double,2,2>& a){ return a[0][0]*a[1][1]-a[0][1]*a[1][0]; }
template<class B,class V,int n> static void run(int mode){ auto w=pattern<n,n>(true); BCRSMatrix<B> A; build(A,w,mode); fillvals(A,w); for(int i=0;i<n;i++) sym_assume(det(A[i][i])!=0.0); auto D=dense(A); BlockVector<V> v(n),d(n); fillv(v,"old"); fillv(d,"d"); auto fd=flat<double>(d); int kind=sym_concrete_l(sym_int("kind",0,NK-1)); bool relax=sym_bool("relax"); double om=1.0; if(relax){ om=sym_real("w"); sym_assume(om!=0.0); } bool df=sym_bool("default level"); solve(A,v,d,kind,relax,om,BL<1>(),df); judge(D,flat<double>(v),fd,kind,om,BS<B>::n); eqv(flat<double>(d),fd,"right-hand side unchanged"); eqm(dense(A),D,"matrix unchanged"); }
SYM_HARNESS(scalar,SYM_REAL,"done"){ if(sym_tier()) run<FieldMatrix<double,1,1>,FieldVector<double,1>,4>(ROWWISE); else run<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(ROWWISE); sym_reach("done"); }
SYM_HARNESS(scalar_random,SYM_REAL,"done"){ run<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(RANDOM_GAPS); sym_reach("done"); }
SYM_HARNESS(dense2,SYM_REAL,"done"){ if(sym_tier()) run<FieldMatrix<double,2,2>,FieldVector<double,2>,3>(ROWWISE); else run<FieldMatrix<double,2,2>,FieldVector<double,2>,2>(ROWWISE); sym_reach("done"); }
SYM_HARNESS(diagblocks,SYM_REAL,"done"){ const int n=2; auto w=pattern<n,n>(true); typedef DiagonalMatrix<double,2> B; BCRSMatrix<B> A; build(A,w); DM<double> D(4,4); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) for(int k=0;k<2;k++){ D(2*i+k,2*j+k)=A[i][j].diagonal(k)=sym_real("a"); if(i==j) sym_assume(D(2*i+k,2*i+k)!=0.0); } BlockVector<FieldVector<double,2>> v(n),d(n); fillv(v,"old"); fillv(d,"d"); auto fd=flat<double>(d); int kind=sym_concrete_l(sym_int("kind",0,NK-1)); bool relax=sym_bool("relax"); double om=1.0; if(relax){ om=sym_real("w"); sym_assume(om!=0.0); } solve(A,v,d,kind,relax,om,BL<1>(),sym_bool("default level")); judge(D,flat<double>(v),fd,kind,om,2); sym_reach("done"); }
// level 0: one dense block
SYM_HARNESS(level0,SYM_REAL,"done"){ FieldMatrix<double,2,2> A; fill(A,"a"); sym_assume(det(A)!=0.0); FieldVector<double,2> v,d; fill(v,"old"); fill(d,"d"); DM<double> D(2,2); for(int i=0;i<2;i++) for(int j=0;j<2;j++) D(i,j)=A[i][j]; DV<double> fd{d[0],d[1]}; int kind=sym_concrete_l(sym_int("kind",0,NK-1)); bool relax=sym_bool("relax"); double om=1.0; if(relax){ om=sym_real("w"); sym_assume(om!=0.0); } solve(A,v,d,kind,relax,om,BL<0>(),false); judge(D,DV<double>{v[0],v[1]},fd,kind,om,2); sym_reach("done"); }
// level 2: nested sparse blocks, possibly of different sizes on the diagonal
SYM_HARNESS(nested,SYM_REAL,"done"){ typedef FieldMatrix<double,1,1> S; typedef BCRSMatrix<S> I; const int sz[2]={2,1}; bool o01=sym_bool("w01"),o10=sym_bool("w10"); auto p=pattern<2,2>(true,"p"); BCRSMatrix<I> A; Pat<2,2> w; w[0][0]=w[1][1]=true; w[0][1]=o01; w[1][0]=o10; build(A,w); build(A[0][0],p); fillvals(A[0][0],p); { auto q=full<1,1>(); build(A[1][1],q); fillvals(A[1][1],q); } if(o01){ auto q=pattern<2,1>(false,"q"); build(A[0][1],q); fillvals(A[0][1],q); } if(o10){ auto q=pattern<1,2>(false,"r"); build(A[1][0],q); fillvals(A[1][0],q); }
  DM<double> D(3,3); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) for(auto r=A[i][j].begin();r!=A[i][j].end();++r) for(auto c=r->begin();c!=r->end();++c) D(2*i+r.index(),2*j+c.index())=(*c)[0][0]; for(int i=0;i<3;i++) sym_assume(D(i,i)!=0.0);
  BlockVector<BlockVector<FieldVector<double,1>>> v(2),d(2); for(int i=0;i<2;i++){ v[i].resize(sz[i]); d[i].resize(sz[i]); } fillv(v,"old"); fillv(d,"d"); auto fd=flat<double>(d); int kind=sym_concrete_l(sym_int("kind",0,NK-1)); bool relax=sym_bool("relax"); double om=1.0; if(relax){ om=sym_real("w"); sym_assume(om!=0.0); } solve(A,v,d,kind,relax,om,BL<2>(),false); judge(D,flat<double>(v),fd,kind,om,1); eqv(flat<double>(d),fd,"right-hand side unchanged"); sym_reach("done"); }
