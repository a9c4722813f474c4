// C37: operators and scalar products are the objects they wrap
// BOUNDS: matrices of 2x3 numbers, 1x1, 2x2 (real, complex) and 1x2 blocks with every pattern, heterogeneous 2x2 matrices; all vectors and factors; every order of three calls; reference and shared ownership with the other owner gone
#include "flat.h"
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/bdmatrix.hh>
using namespace Dune; using namespace H; using namespace Indices; typedef std::complex<double> Z;
template<class B,class VX,class VY,int n,int m> static void adapter(){ typedef typename BS<B>::K K; typedef BCRSMatrix<B> M; typedef BlockVector<VX> X; typedef BlockVector<VY> Y; auto w=pattern<n,m>(); auto A=std::make_shared<M>(); build(*A,w); fillvals(*A,w); auto D=dense(*A);
  std::unique_ptr<AssembledLinearOperator<M,X,Y>> op; std::shared_ptr<const M> keep=A; int how=sym_concrete_l(sym_int("owner",0,2)); if(how==0) op.reset(new MatrixAdapter<M,X,Y>(*A)); else op.reset(new MatrixAdapter<M,X,Y>(std::shared_ptr<const M>(A))); if(how==2){ A.reset(); keep.reset(); sym_reach("last owner"); }
  SYM_ASSERT(how==2||&op->getmat()==A.get(),"the wrapped matrix"); SYM_ASSERT(op->category()==SolverCategory::sequential&&SolverCategory::category(*op)==SolverCategory::sequential,"category");
  X x(m); Y y(n); fillv(x,"x"); fillv(y,"y"); auto fx=flat<K>(x),fy=flat<K>(y); LinearOperator<X,Y>& l=*op;
  for(int s=0;s<2;s++){ bool add=decided(sym_bool("scaleadd")); K a; if(add){ fill(a,"alpha"); l.applyscaleadd(a,x,y); fy=axpy(fy,a,mul(D,fx)); sym_reach("scaleadd"); } else { l.apply(x,y); fy=mul(D,fx); sym_reach("apply"); } eqv(flat<K>(y),fy,"operator result"); eqv(flat<K>(x),fx,"argument unchanged"); eqm(dense(op->getmat()),D,"matrix unchanged"); } }
SYM_HARNESS(numbers,SYM_REAL,"apply,scaleadd,last owner"){ adapter<double,double,double,2,2>(); }
SYM_HARNESS(scalar,SYM_REAL,"apply,scaleadd,last owner"){ adapter<FieldMatrix<double,1,1>,FieldVector<double,1>,FieldVector<double,1>,2,3>(); }
SYM_HARNESS(blocks,SYM_REAL,"apply,scaleadd,last owner"){ adapter<FieldMatrix<double,2,2>,FieldVector<double,2>,FieldVector<double,2>,2,2>(); }
SYM_HARNESS(rect,SYM_REAL,"apply,scaleadd,last owner"){ adapter<FieldMatrix<double,1,2>,FieldVector<double,2>,FieldVector<double,1>,2,2>(); }
SYM_HARNESS(cplx,SYM_REAL,"apply,scaleadd,last owner"){ adapter<FieldMatrix<Z,2,2>,FieldVector<Z,2>,FieldVector<Z,2>,1,2>(); }
SYM_HARNESS(hetero,SYM_REAL,"done"){ typedef MultiTypeBlockVector<FieldVector<double,1>,FieldVector<double,2>> V; typedef MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,1,1>,FieldMatrix<double,1,2>>,MultiTypeBlockVector<FieldMatrix<double,2,1>,FieldMatrix<double,2,2>>> M; M A; fill(A[_0][_0],"a"); fill(A[_0][_1],"a"); fill(A[_1][_0],"a"); fill(A[_1][_1],"a"); DM<double> D(3,3); D(0,0)=A[_0][_0][0][0]; for(int i=0;i<2;i++){ D(0,1+i)=A[_0][_1][0][i]; D(1+i,0)=A[_1][_0][i][0]; for(int j=0;j<2;j++) D(1+i,1+j)=A[_1][_1][i][j]; }
  MatrixAdapter<M,V,V> op(A); V x,y; fillv(x,"x"); fillv(y,"y"); auto fx=flat<double>(x),fy=flat<double>(y); double a=sym_real("alpha"); op.applyscaleadd(a,x,y); eqv(flat<double>(y),axpy(fy,a,mul(D,fx)),"scaled add"); op.apply(x,y); eqv(flat<double>(y),mul(D,fx),"apply"); eqv(flat<double>(x),fx,"argument unchanged"); sym_reach("done"); }
// scalar products
template<class V> static void product(V& x,V& y){ typedef typename FieldTraits<V>::field_type K; fillv(x,"x"); fillv(y,"y"); auto fx=flat<K>(x),fy=flat<K>(y); SeqScalarProduct<V> s; ScalarProduct<V> t; ScalarProduct<V>& p=sym_bool("seq")?(ScalarProduct<V>&)s:t; K d=0; for(std::size_t i=0;i<fx.size();i++) d+=cj(fx[i])*fy[i]; double n2=0; for(auto& e:fx) n2+=std::real(e)*std::real(e)+std::imag(e)*std::imag(e);
  for(int q=0;q<2;q++){ H::eq(K(p.dot(x,y)),d,"hermitian product"); H::eq(K(p.dot(y,x)),K(cj(d)),"conjugate symmetric"); H::eq(K(p.dot(x,x)),K(n2),"positive"); double n=p.norm(x); SYM_EQ(n*n,n2,"induced norm"); SYM_ASSERT(n>=0.0,"norm is not negative"); } eqv(flat<K>(x),fx,"argument unchanged"); eqv(flat<K>(y),fy,"argument unchanged"); SYM_ASSERT(p.category()==SolverCategory::sequential,"category"); sym_reach("done"); }
SYM_HARNESS(sp_numbers,SYM_REAL,"done"){ int n=sym_concrete_l(sym_int("n",0,3)); BlockVector<double> x(n),y(n); product(x,y); }
SYM_HARNESS(sp_blocks,SYM_REAL,"done"){ BlockVector<FieldVector<double,2>> x(2),y(2); product(x,y); }
SYM_HARNESS(sp_complex,SYM_REAL,"done"){ BlockVector<FieldVector<Z,1>> x(2),y(2); product(x,y); }
SYM_HARNESS(sp_complexnumbers,SYM_REAL,"done"){ BlockVector<Z> x(2),y(2); product(x,y); }
SYM_HARNESS(sp_nested,SYM_REAL,"done"){ typedef BlockVector<BlockVector<FieldVector<double,1>>> V; V x(2),y(2); x[0].resize(1); x[1].resize(2); y=x; product(x,y); }
SYM_HARNESS(sp_hetero,SYM_REAL,"done"){ MultiTypeBlockVector<FieldVector<double,1>,BlockVector<FieldVector<double,2>>> x,y; x[_1].resize(2); y=x; product(x,y); }
SYM_HARNESS(sp_heterocomplex,SYM_REAL,"done"){ MultiTypeBlockVector<FieldVector<Z,1>,FieldVector<Z,2>> x,y; product(x,y); }
// the parallel scalar product hands over to the communication object, which it may own
typedef BlockVector<FieldVector<double,1>> BV; static int alive=0;
struct Com { double w; Com(double w_):w(w_){ alive++; } ~Com(){ alive--; } template<class X,class T> void dot(const X& x,const X& y,T& r) const { r=0; for(std::size_t i=0;i<x.size();i++) r+=w*x[i][0]*y[i][0]; } template<class X> double norm(const X& x) const { double r=0; for(std::size_t i=0;i<x.size();i++) r+=w*x[i][0]; return r; } };
SYM_HARNESS(parallel,SYM_REAL,"owned,factory"){ alive=0; double w=sym_real("w"); auto c=std::make_shared<const Com>(w); BV x(2),y(2); fillv(x,"x"); fillv(y,"y"); double d=w*(x[0][0]*y[0][0]+x[1][0]*y[1][0]),nn=w*(x[0][0]+x[1][0]); int k=sym_concrete_l(sym_int("kind",0,8)); std::shared_ptr<ScalarProduct<BV>> p; auto cat=sym_bool("over")?SolverCategory::overlapping:SolverCategory::nonoverlapping; bool seq=false,own=true;
  switch(k){ case 0: p=std::make_shared<ParallelScalarProduct<BV,Com>>(c,cat); break; case 1: p=std::make_shared<ParallelScalarProduct<BV,Com>>(*c,cat); own=false; break; case 2: p=std::make_shared<NonoverlappingSchwarzScalarProduct<BV,Com>>(c); cat=SolverCategory::nonoverlapping; break; case 3: p=std::make_shared<NonoverlappingSchwarzScalarProduct<BV,Com>>(*c); own=false; cat=SolverCategory::nonoverlapping; break; case 4: p=std::make_shared<OverlappingSchwarzScalarProduct<BV,Com>>(c); cat=SolverCategory::overlapping; break; case 5: p=std::make_shared<OverlappingSchwarzScalarProduct<BV,Com>>(*c); own=false; cat=SolverCategory::overlapping; break;
   case 6: p=makeScalarProduct<BV>(c,cat); sym_reach("factory"); break; case 7: p=createScalarProduct<BV>(*c,cat); own=false; break; case 8: seq=true; cat=SolverCategory::sequential; p=sym_bool("create")?createScalarProduct<BV>(*c,cat):makeScalarProduct<BV>(c,cat); own=false; break; }
  if(own){ c.reset(); SYM_EQ(alive,1,"kept alive"); sym_reach("owned"); } SYM_ASSERT(p->category()==cat,"category"); for(int q=0;q<2;q++){ if(seq){ SYM_EQ(p->dot(x,y),x[0][0]*y[0][0]+x[1][0]*y[1][0],"sequential product"); } else { SYM_EQ(p->dot(x,y),d,"product of the communication"); SYM_EQ(p->norm(x),nn,"norm of the communication"); } } p.reset(); c.reset(); SYM_EQ(alive,0,"released once"); }
