// C05: matrix-vector kernels equal linear algebra
// BOUNDS: BCRSMatrix 2x3 and 3x2 with every pattern (thorough: 3x3 with every pattern), entries double, complex, 2x1 and 2x2 blocks, nested BCRSMatrix blocks; three construction modes; BDMatrix and BTDMatrix of size 1..3 with scalar and 2x2 blocks; dense Matrix up to 3x2 with scalar, complex and 2x1 blocks; ScaledIdentityMatrix 1..3 real and complex; all 11 kernels, all values symbolic
#include "flat.h"
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
using namespace Dune; using namespace H;
typedef std::complex<double> C;
template<class V> static void sz(V& v,std::size_t n){ v.resize(n); }
template<class B,class XB,class YB,int n,int m> static void sparse(int nm=1){
  typedef BCRSMatrix<B> M; typedef typename BS<B>::K K; auto w=pattern<n,m>(); static const int modes[3]={ROWWISE,RANDOM_GAPS,IMPLICIT}; M A; build(A,w,modes[nm>1?sym_concrete_l(sym_int("mode",0,nm-1)):0]); fillvals(A,w); auto D=dense(A);
  BlockVector<XB> x(m); BlockVector<YB> y(n); K alpha; fill(alpha,"alpha");
  for(int k=0;k<NKERN;k++){ kernel(A,D,k,x,y,alpha); } eqm(dense(A),D,"matrix unchanged"); samePattern(A,w,"pattern unchanged"); sym_reach("done");
}
SYM_HARNESS(bcrs_double,SYM_REAL,"done"){ if(sym_tier()) sparse<double,double,double,3,3>(1); else sparse<double,double,double,2,3>(3); }
SYM_HARNESS(bcrs_double_tall,SYM_REAL,"done"){ sparse<double,double,double,3,2>(3); }
SYM_HARNESS(bcrs_complex,SYM_REAL,"done"){ sparse<C,C,C,2,3>(1); }
SYM_HARNESS(bcrs_block21,SYM_REAL,"done"){ sparse<FieldMatrix<double,2,1>,FieldVector<double,1>,FieldVector<double,2>,2,3>(1); }
SYM_HARNESS(bcrs_block12,SYM_REAL,"done"){ sparse<FieldMatrix<C,1,2>,FieldVector<C,2>,FieldVector<C,1>,2,2>(2); }
SYM_HARNESS(bcrs_block22,SYM_REAL,"done"){ sparse<FieldMatrix<C,2,2>,FieldVector<C,2>,FieldVector<C,2>,2,2>(1); }
SYM_HARNESS(bcrs_fm11,SYM_REAL,"done"){ sparse<FieldMatrix<double,1,1>,FieldVector<double,1>,FieldVector<double,1>,2,3>(1); }
// scalar alpha of another type
SYM_HARNESS(usmv_alpha,SYM_REAL,"done"){
  typedef BCRSMatrix<FieldMatrix<C,2,2>> M; auto w=pattern<2,2>(); M A; build(A,w); fillvals(A,w); auto D=dense(A); BlockVector<FieldVector<C,2>> x(2),y(2); fillv(x,"x"); fillv(y,"y"); auto fx=flat<C>(x),fy=flat<C>(y); double al=sym_real("al");
  A.usmv(al,x,y); eqv(flat<C>(y),axpy(fy,C(al),mul(D,fx)),"usmv with real factor"); sym_reach("done");
}
// nested sparse blocks
SYM_HARNESS(bcrs_nested,SYM_REAL,"done"){
  typedef BCRSMatrix<double> I; typedef BCRSMatrix<I> M; auto w=pattern<2,2>(); M A; build(A,w); DM<double> D(4,4); Pat<2,2> p; p[0][0]=p[1][0]=true; p[0][1]=sym_bool("inner");
  for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ I e; build(e,p); fillvals(e,p); A[i][j]=e; for(int a=0;a<2;a++) for(int b=0;b<2;b++) if(p[a][b]) D(2*i+a,2*j+b)=e[a][b]; }
  BlockVector<BlockVector<double>> x(2),y(2); for(int i=0;i<2;i++){ x[i].resize(2); y[i].resize(2); } double alpha=sym_real("alpha");
  for(int k=0;k<NKERN;k++) kernel(A,D,k,x,y,alpha); sym_reach("done");
}
template<class B,class V> static void special(){
  typedef typename BS<B>::K K; K alpha; fill(alpha,"alpha"); int n=sym_concrete_l(sym_int("n",1,3)); BlockVector<V> x(n),y(n);
  { BDMatrix<B> A(n); for(auto r=A.begin();r!=A.end();++r) for(auto c=r->begin();c!=r->end();++c){ SYM_EQ(c.index(),r.index(),"diagonal pattern"); fill(*c,"d"); } auto D=dense(A); for(int k=0;k<NKERN;k++) kernel(A,D,k,x,y,alpha); eqm(dense(A),D,"BDMatrix unchanged"); }
  { BTDMatrix<B> A(n); long cnt=0; for(auto r=A.begin();r!=A.end();++r) for(auto c=r->begin();c!=r->end();++c){ long d=(long)c.index()-(long)r.index(); SYM_ASSERT(d>=-1&&d<=1,"tridiagonal pattern"); fill(*c,"t"); cnt++; } SYM_EQ(cnt,(long)(3*n-2),"tridiagonal entries"); auto D=dense(A); for(int k=0;k<NKERN;k++) kernel(A,D,k,x,y,alpha); eqm(dense(A),D,"BTDMatrix unchanged"); }
  sym_reach("done");
}
SYM_HARNESS(diag_tridiag_double,SYM_REAL,"done"){ special<double,double>(); }
SYM_HARNESS(diag_tridiag_complex,SYM_REAL,"done"){ special<C,C>(); }
SYM_HARNESS(diag_tridiag_block,SYM_REAL,"done"){ special<FieldMatrix<double,2,2>,FieldVector<double,2>>(); }
template<class B,class XB,class YB> static void densem(){
  typedef typename BS<B>::K K; K alpha; fill(alpha,"alpha"); int n=sym_concrete_l(sym_int("n",1,3)),m=sym_concrete_l(sym_int("m",1,2)); Matrix<B> A(n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) fill(A[i][j],"a"); auto D=dense(A); BlockVector<XB> x(m); BlockVector<YB> y(n);
  for(int k=0;k<NKERN;k++) kernel(A,D,k,x,y,alpha); eqm(dense(A),D,"dense matrix unchanged"); SYM_EQ(A.N(),(std::size_t)n,"N"); SYM_EQ(A.M(),(std::size_t)m,"M"); sym_reach("done");
}
SYM_HARNESS(dense_double,SYM_REAL,"done"){ densem<double,double,double>(); }
SYM_HARNESS(dense_complex,SYM_REAL,"done"){ densem<C,C,C>(); }
SYM_HARNESS(dense_block,SYM_REAL,"done"){ densem<FieldMatrix<C,2,1>,FieldVector<C,1>,FieldVector<C,2>>(); }
template<class K,int n> static void ident(){
  K p,alpha; fill(p,"p"); fill(alpha,"alpha"); ScaledIdentityMatrix<K,n> A(p); DM<K> D(n,n); for(int i=0;i<n;i++) D(i,i)=p; FieldVector<K,n> x,y; for(int k=0;k<NKERN;k++) kernel(A,D,k,x,y,alpha); sym_eq_(A.scalar(),p,"scalar unchanged"); SYM_EQ(A.N(),n,"N"); SYM_EQ(A.M(),n,"M");
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) SYM_ASSERT(A.exists(i,j)==(i==j),"exists"); sym_reach("done");
}
SYM_HARNESS(scaled_identity,SYM_REAL,"done"){ ident<double,1>(); ident<double,3>(); ident<C,1>(); ident<C,2>(); }
// scaled identity blocks inside of a sparse matrix
SYM_HARNESS(bcrs_scaled_identity,SYM_REAL,"done"){
  typedef ScaledIdentityMatrix<C,2> B; BCRSMatrix<B> A; auto w=pattern<2,2>(); build(A,w); DM<C> D(4,4); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ C p; fill(p,"p"); A[i][j]=p; D(2*i,2*j)=D(2*i+1,2*j+1)=p; } BlockVector<FieldVector<C,2>> x(2),y(2); C alpha; fill(alpha,"alpha"); for(int k=0;k<NKERN;k++) kernel(A,D,k,x,y,alpha); sym_reach("done");
}
