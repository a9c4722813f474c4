// C16: relaxation steps follow their definition and keep the solution
// BOUNDS: every pattern with diagonal of 3x3 matrices with number and 1x1 blocks, of 2x2 (thorough: 3x3) matrices with 2x2 blocks, nested sparse matrices (2x2 blocks of sizes 2 and 1, all patterns) at recursion level 2, heterogeneous 2x2 matrices of dense and of sparse blocks; all values, all relaxation factors; Jacobi, Gauss-Seidel, forward and backward SOR
// ASSUME: the diagonal blocks are nonsingular
#include "flat.h"
#include <dune/istl/gsetc.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
using namespace Dune; using namespace H; using namespace Indices;
enum { JAC,GS,SORF,SORB,NS };
struct Part { int off,len; std::vector<Part> sub; };
// reference: one step on the dense image, blocks given by the partition tree
static DV<double> solve(const DM<double>& D,int o,int len,const DV<double>& b){ if(len==1) return {b[0]/D(o,o)}; double t=D(o,o)*D(o+1,o+1)-D(o,o+1)*D(o+1,o); return {(D(o+1,o+1)*b[0]-D(o,o+1)*b[1])/t,(D(o,o)*b[1]-D(o+1,o)*b[0])/t}; }
static void step(int kind,const DM<double>& D,const Part& P,DV<double>& x,const DV<double>& b,double w){ // x, b local to the part
  if(P.sub.empty()){ x=solve(D,P.off,P.len,b); return; } DV<double> old=x,acc(P.len,0.0); int n=P.sub.size();
  for(int q=0;q<n;q++){ const Part& S=P.sub[kind==SORB?n-1-q:q]; int o=S.off-P.off; DV<double> rhs(S.len); for(int i=0;i<S.len;i++){ rhs[i]=b[o+i]; for(int j=0;j<P.len;j++) if(kind!=GS||j<o||j>=o+S.len) rhs[i]-=D(S.off+i,P.off+j)*x[j]; } DV<double> v(S.len,0.0); if(kind==GS) for(int i=0;i<S.len;i++) v[i]=x[o+i]; step(kind,D,S,v,rhs,w);
    for(int i=0;i<S.len;i++) if(kind==JAC) acc[o+i]=v[i]; else if(kind==GS) x[o+i]=v[i]; else x[o+i]+=w*v[i]; }
  if(kind==JAC) for(int i=0;i<P.len;i++) x[i]+=w*acc[i]; if(kind==GS) for(int i=0;i<P.len;i++) x[i]=w*x[i]+(1.0-w)*old[i]; }
static Part uniform(int n,int k){ Part P{0,n*k,{}}; for(int i=0;i<n;i++) P.sub.push_back({i*k,k,{}}); return P; }
template<class M,class X,class L> static void real(const M& A,X& x,const X& b,double w,int kind,L l,bool df){ if constexpr(L::recursion_level==1) if(df){ switch(kind){ case JAC: dbjac(A,x,b,w); break; case GS: dbgs(A,x,b,w); break; case SORF: bsorf(A,x,b,w); break; default: bsorb(A,x,b,w); } return; } switch(kind){ case JAC: dbjac(A,x,b,w,l); break; case GS: dbgs(A,x,b,w,l); break; case SORF: bsorf(A,x,b,w,l); break; default: bsorb(A,x,b,w,l); } }
// definition and fixed point
template<class M,class X,class L> static void judge(const M& A,const DM<double>& D,const Part& P,X& x,X& b,L l){ int kind=sym_concrete_l(sym_int("step",0,NS-1)); double w=sym_real("w"); bool fix=sym_bool("start with the solution"),df=sym_bool("default level"); fillv(x,"x"); auto fx=flat<double>(x); DV<double> fb; if(fix){ fb=mul(D,fx); std::size_t k=0; std::function<void(double&)> set; auto put=[&](auto& self,auto& v)->void{ if constexpr(std::is_same_v<std::decay_t<decltype(v)>,double>) v=fb[k++]; else if constexpr(iterable<std::decay_t<decltype(v)>>) for(auto& e:v) self(self,e); else Hybrid::forEach(v,[&](auto& e){ self(self,e); }); }; put(put,b); } else { fillv(b,"b"); fb=flat<double>(b); }
  real(A,x,b,w,kind,l,df); eqv(flat<double>(b),fb,"right-hand side unchanged"); if(fix) eqv(flat<double>(x),fx,"the solution is a fixed point"); else { step(kind,D,P,fx,fb,w); eqv(flat<double>(x),fx,"definition of the step"); } sym_reach(fix?"fixed":"defined"); }
static double det(double a){ return a; } static double det(const FieldMatrix<double,1,1>& a){ return a[0][0]; } static double det(const FieldMatrix<double,2,2>& a){ return a[0][0]*a[1][1]-a[0][1]*a[1][0]; }
template<class B,class V,int n> static void run(){ auto w=pattern<n,n>(true); BCRSMatrix<B> A; build(A,w); fillvals(A,w); for(int i=0;i<n;i++) sym_assume(det(A[i][i])!=0.0); auto D=dense(A); BlockVector<V> x(n),b(n); judge(A,D,uniform(n,BS<B>::n),x,b,BL<1>()); eqm(dense(A),D,"matrix unchanged"); }
SYM_HARNESS(numbers,SYM_REAL,"fixed,defined"){ run<double,double,3>(); }
SYM_HARNESS(scalar,SYM_REAL,"fixed,defined"){ run<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(); }
SYM_HARNESS(dense2,SYM_REAL,"fixed,defined"){ if(sym_tier()) run<FieldMatrix<double,2,2>,FieldVector<double,2>,3>(); else run<FieldMatrix<double,2,2>,FieldVector<double,2>,2>(); }
template<class S,class V> static void nest(){ typedef BCRSMatrix<S> I; const int sz[2]={2,1}; bool flip=sym_bool("small block first"); int s0=flip?1:2,s1=3-s0; (void)sz; bool o01=sym_bool("w01"),o10=sym_bool("w10"); BCRSMatrix<I> A; Pat<2,2> w; w[0][0]=w[1][1]=true; w[0][1]=o01; w[1][0]=o10; build(A,w); auto p=pattern<2,2>(true,"p"); auto one=full<1,1>(); I& big=flip?A[1][1]:A[0][0]; I& small=flip?A[0][0]:A[1][1]; build(big,p); fillvals(big,p); build(small,one); fillvals(small,one); auto q=pattern<2,1>(false,"q"); auto r=pattern<1,2>(false,"r"); if(o01){ if(flip){ build(A[0][1],r); fillvals(A[0][1],r); } else { build(A[0][1],q); fillvals(A[0][1],q); } } if(o10){ if(flip){ build(A[1][0],q); fillvals(A[1][0],q); } else { build(A[1][0],r); fillvals(A[1][0],r); } }
  DM<double> D(3,3); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) for(auto a=A[i][j].begin();a!=A[i][j].end();++a) for(auto c=a->begin();c!=a->end();++c){ double z; if constexpr(std::is_same_v<S,double>) z=*c; else z=(*c)[0][0]; D((i?s0:0)+a.index(),(j?s0:0)+c.index())=z; } for(int i=0;i<3;i++) sym_assume(D(i,i)!=0.0);
  BlockVector<BlockVector<V>> x(2),b(2); x[0].resize(s0); x[1].resize(s1); b=x; Part P{0,3,{{0,s0,{}},{s0,s1,{}}}}; for(auto& s:P.sub) for(int i=0;i<s.len;i++) s.sub.push_back({s.off+i,1,{}}); judge(A,D,P,x,b,BL<2>()); }
SYM_HARNESS(nested,SYM_REAL,"fixed,defined"){ nest<FieldMatrix<double,1,1>,FieldVector<double,1>>(); }
SYM_HARNESS(nested_numbers,SYM_REAL,"fixed,defined"){ nest<double,double>(); }
// heterogeneous matrices
template<class M,class F> static void blocks(M& A,F&& f){ Hybrid::forEach(std::make_index_sequence<M::N()>{},[&](auto i){ Hybrid::forEach(std::make_index_sequence<M::M()>{},[&](auto j){ f(A[i][j],(int)i,(int)j); }); }); }
SYM_HARNESS(multi_dense,SYM_REAL,"fixed,defined"){ MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,1,1>,FieldMatrix<double,1,2>>,MultiTypeBlockVector<FieldMatrix<double,2,1>,FieldMatrix<double,2,2>>> A; DM<double> D(3,3); blocks(A,[&](auto& B,int i,int j){ fill(B,"a"); for(unsigned a=0;a<B.N();a++) for(unsigned c=0;c<B.M();c++) D(i+a,j+c)=B[a][c]; }); sym_assume(D(0,0)!=0.0); sym_assume(D(1,1)*D(2,2)-D(1,2)*D(2,1)!=0.0); MultiTypeBlockVector<FieldVector<double,1>,FieldVector<double,2>> x,b; Part P{0,3,{{0,1,{}},{1,2,{}}}}; judge(A,D,P,x,b,BL<1>()); blocks(A,[&](auto& B,int i,int j){ for(unsigned a=0;a<B.N();a++) for(unsigned c=0;c<B.M();c++) SYM_EQ(B[a][c],D(i+a,j+c),"matrix unchanged"); }); }
SYM_HARNESS(multi_sparse,SYM_REAL,"fixed,defined"){ typedef FieldMatrix<double,1,1> S; typedef BCRSMatrix<S> I; MultiTypeBlockMatrix<MultiTypeBlockVector<I,I>,MultiTypeBlockVector<I,BCRSMatrix<S>>> A; auto p=pattern<2,2>(true,"p"); auto q=pattern<2,1>(false,"q"); auto r=pattern<1,2>(false,"r"); auto s=full<1,1>(); build(A[_0][_0],p); fillvals(A[_0][_0],p); build(A[_0][_1],q); fillvals(A[_0][_1],q); build(A[_1][_0],r); fillvals(A[_1][_0],r); build(A[_1][_1],s); fillvals(A[_1][_1],s); DM<double> D(3,3); blocks(A,[&](auto& B,int i,int j){ for(auto a=B.begin();a!=B.end();++a) for(auto c=a->begin();c!=a->end();++c) D(2*i+a.index(),2*j+c.index())=(*c)[0][0]; }); for(int i=0;i<3;i++) sym_assume(D(i,i)!=0.0);
  typedef BlockVector<FieldVector<double,1>> V; MultiTypeBlockVector<V,V> x,b; x[_0].resize(2); x[_1].resize(1); b=x; Part P{0,3,{{0,2,{{0,1,{}},{1,1,{}}}},{2,1,{{2,1,{}}}}}}; judge(A,D,P,x,b,BL<2>()); }
