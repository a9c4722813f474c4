// C14: heterogeneous block containers equal their flattening
// BOUNDS: vectors of blocks with 1+2 and of 2 sparse blocks with 2+2x2 components, 2x2 matrices of FieldMatrix blocks (real and complex, all values) and of sparse blocks (every pattern of the off-diagonal blocks), non-square 1x2 and 2x1 arrangements, nested heterogeneous vectors; all 11 matrix vector kernels; arithmetic, norms, NaN at every position
// FLAGS: -fno-finite-math-only
#include "flat.h"
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
using namespace Dune; using namespace H; using namespace Indices; typedef std::complex<double> C;
template<class M,class F> static void blocks(M& A,F&& f){ Hybrid::forEach(std::make_index_sequence<M::N()>{},[&](auto i){ Hybrid::forEach(std::make_index_sequence<M::M()>{},[&](auto j){ f(A[i][j],(int)i,(int)j); }); }); }
// dense image of a 2x2 heterogeneous matrix of dense blocks; row/column offsets from the first row / column
template<class K,class M> static DM<K> denseD(const M& A){ int ro[4]={0},co[4]={0}; blocks(A,[&](auto& B,int i,int j){ ro[i+1]=ro[i]+B.N(); co[j+1]=co[j]+B.M(); }); DM<K> D(ro[M::N()],co[M::M()]); blocks(A,[&](auto& B,int i,int j){ for(unsigned a=0;a<B.N();a++) for(unsigned b=0;b<B.M();b++) D(ro[i]+a,co[j]+b)=B[a][b]; }); return D; }
template<class K,class M> static DM<K> denseS(const M& A){ int ro[4]={0},co[4]={0}; std::vector<DM<K>> bl; blocks(A,[&](auto& B,int i,int j){ bl.push_back(dense(B)); ro[i+1]=ro[i]+bl.back().n; co[j+1]=co[j]+bl.back().m; }); DM<K> D(ro[M::N()],co[M::M()]); int k=0; blocks(A,[&](auto&,int i,int j){ auto& B=bl[k++]; for(int a=0;a<B.n;a++) for(int b=0;b<B.m;b++) D(ro[i]+a,co[j]+b)=B(a,b); }); return D; }
template<class K> using Vec=MultiTypeBlockVector<FieldVector<K,1>,FieldVector<K,2>>;
template<class K> using Mat=MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<K,1,1>,FieldMatrix<K,1,2>>,MultiTypeBlockVector<FieldMatrix<K,2,1>,FieldMatrix<K,2,2>>>;
template<class K> static void fillD(Mat<K>& A){ blocks(A,[&](auto& B,int,int){ fill(B,"a"); }); }
template<class K> static void kernels(){ Mat<K> A; fillD(A); auto D=denseD<K>(A); Vec<K> x,y; K al; fill(al,"alpha"); int k=sym_concrete_l(sym_int("kernel",0,NKERN-1)); kernel(A,D,k,x,y,al); eqm(denseD<K>(A),D,"matrix unchanged"); }
SYM_HARNESS(kernels_real,SYM_REAL,"done"){ kernels<double>(); sym_reach("done"); }
SYM_HARNESS(kernels_complex,SYM_REAL,"done"){ kernels<C>(); sym_reach("done"); }
// sparse blocks with symbolic patterns
typedef MultiTypeBlockVector<BlockVector<FieldVector<double,1>>,BlockVector<FieldVector<double,2>>> SV;
typedef MultiTypeBlockMatrix<MultiTypeBlockVector<BCRSMatrix<FieldMatrix<double,1,1>>,BCRSMatrix<FieldMatrix<double,1,2>>>,MultiTypeBlockVector<BCRSMatrix<FieldMatrix<double,2,1>>,BCRSMatrix<FieldMatrix<double,2,2>>>> SM;
static void mk(SM& A){ auto p=pattern<2,2>(false,"p"); auto q=pattern<2,1>(false,"q"); auto r=pattern<1,2>(false,"r"); auto s=pattern<1,1>(false,"s"); build(A[_0][_0],p); build(A[_0][_1],q); build(A[_1][_0],r,RANDOM); build(A[_1][_1],s,RANDOM); fillvals(A[_0][_0],p); fillvals(A[_0][_1],q); fillvals(A[_1][_0],r); fillvals(A[_1][_1],s); }
SYM_HARNESS(kernels_sparse,SYM_REAL,"done"){ SM A; mk(A); auto D=denseS<double>(A); SV x,y; x[_0].resize(2); x[_1].resize(1); y=x; int k=sym_concrete_l(sym_int("kernel",0,NKERN-1)); kernel(A,D,k,x,y,sym_real("alpha")); eqm(denseS<double>(A),D,"matrix unchanged"); sym_reach("done"); }
SYM_HARNESS(arith_sparse,SYM_REAL,"done"){ SM A; mk(A); SM B(A); auto D=denseS<double>(A); blocks(B,[&](auto& b,int,int){ for(auto& r:b) for(auto& e:r) fill(e,"b"); }); auto E=denseS<double>(B); double k=sym_real("k"); sym_assume(k!=0.0); A+=B; for(int i=0;i<D.n*D.m;i++) D.a[i]+=E.a[i]; eqm(denseS<double>(A),D,"sum"); A*=k; for(auto&e:D.a) e*=k; eqm(denseS<double>(A),D,"scaled"); A-=B; for(int i=0;i<D.n*D.m;i++) D.a[i]-=E.a[i]; eqm(denseS<double>(A),D,"difference"); A/=k; for(auto&e:D.a) e/=k; eqm(denseS<double>(A),D,"quotient"); eqm(denseS<double>(B),E,"other operand unchanged"); double f=0; for(double e:D.a) f+=e*e; SYM_EQ(A.frobenius_norm2(),f,"Frobenius norm"); A=k; auto F=denseS<double>(A); blocks(A,[&](auto& b,int,int){ for(auto& r:b) for(auto& e:r) for(auto& q:e) for(double z:q) SYM_EQ(z,k,"scalar assignment"); }); sym_reach("done"); }
// non-square arrangements
SYM_HARNESS(shapes,SYM_REAL,"done"){ MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,2,1>,FieldMatrix<double,2,2>>> R; blocks(R,[&](auto& B,int,int){ fill(B,"r"); }); static_assert(decltype(R)::N()==1&&decltype(R)::M()==2); MultiTypeBlockVector<FieldVector<double,2>> y; Vec<double> x; auto D=denseD<double>(R); int k=sym_concrete_l(sym_int("kernel",0,NKERN-1)); double al=sym_real("alpha"); kernel(R,D,k,x,y,al);
  MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,1,2>>,MultiTypeBlockVector<FieldMatrix<double,2,2>>> S; blocks(S,[&](auto& B,int,int){ fill(B,"s"); }); auto E=denseD<double>(S); kernel(S,E,k,y,x,al); sym_reach("done"); }
// vectors
template<class K> static void vec(){ Vec<K> x,y; fillv(x,"x"); fillv(y,"y"); auto fx=flat<K>(x),fy=flat<K>(y); K a; fill(a,"a"); long op=sym_concrete_l(sym_int("op",0,8)); DV<K> want=fx; SYM_EQ(x.dim(),3u,"dim"); SYM_EQ(x.N(),2u,"N");
  switch(op){ case 0: x+=y; want=axpy(fx,K(1),fy); break; case 1: x-=y; want=sub(fx,fy); break; case 2: x*=a; want=scl(a,fx); break; case 3: if(a==K(0)) return; x/=a; for(auto&e:want) e/=a; break; case 4: x.axpy(a,y); want=axpy(fx,a,fy); break; case 5: x=a; for(auto&e:want) e=a; break; case 6: { H::eq(K(x*y),dotp(fx,fy),"unconjugated product"); break; } case 7: { K s=0; for(std::size_t i=0;i<fx.size();i++) s+=cj(fx[i])*fy[i]; H::eq(K(x.dot(y)),s,"dot product"); break; } case 8: x=y; want=fy; break; }
  eqv(flat<K>(x),want,"result"); eqv(flat<K>(y),fy,"operand unchanged"); double t=0; for(auto&e:want) t+=std::real(e)*std::real(e)+std::imag(e)*std::imag(e); if(op<3){ SYM_EQ(x.two_norm2(),t,"squared norm"); double n=x.two_norm(); SYM_EQ(n*n,t,"norm"); SYM_ASSERT(n>=0.0,"norm"); } }
SYM_HARNESS(vector_real,SYM_REAL,"done"){ vec<double>(); sym_reach("done"); }
SYM_HARNESS(vector_complex,SYM_REAL,"done"){ vec<C>(); sym_reach("done"); }
static double ab(double x){ return x<0?-x:x; }
SYM_HARNESS(vector_norms,SYM_REAL,"done"){ Vec<double> x; fillv(x,"x"); auto f=flat<double>(x); double s=0,m=0; for(double e:f){ s+=ab(e); if(ab(e)>m) m=ab(e); } SYM_EQ(x.one_norm(),s,"one norm"); SYM_EQ(x.one_norm_real(),s,"one norm"); SYM_EQ(x.infinity_norm(),m,"maximum norm"); SYM_EQ(x.infinity_norm_real(),m,"maximum norm"); sym_reach("done"); }
SYM_HARNESS(vector_norms_complex,SYM_REAL,"done"){ MultiTypeBlockVector<FieldVector<C,1>,FieldVector<C,1>> x; fillv(x,"x"); auto f=flat<C>(x); double s=0,m=0; for(C e:f){ double t=ab(e.real())+ab(e.imag()); s+=t; if(t>m) m=t; } SYM_EQ(x.one_norm_real(),s,"simplified one norm"); SYM_EQ(x.infinity_norm_real(),m,"simplified maximum norm"); sym_reach("done"); }
SYM_HARNESS(vector_nan,SYM_REAL,"done"){ MultiTypeBlockVector<FieldVector<double,1>,FieldVector<double,2>,BlockVector<double>> x; x[_2].resize(1); fillv(x,"x"); long p=sym_concrete_l(sym_int("NaN at",0,3)); double n=std::numeric_limits<double>::quiet_NaN(); if(p==0) x[_0][0]=n; else if(p<3) x[_1][p-1]=n; else x[_2][0]=n; SYM_ASSERT(x.infinity_norm()!=x.infinity_norm(),"maximum norm is NaN"); SYM_ASSERT(x.infinity_norm_real()!=x.infinity_norm_real(),"maximum norm is NaN"); SYM_ASSERT(x.two_norm()!=x.two_norm(),"norm is NaN"); SYM_ASSERT(x.one_norm()!=x.one_norm(),"one norm is NaN"); sym_reach("done"); }
SYM_HARNESS(nested,SYM_REAL,"done"){ MultiTypeBlockVector<Vec<double>,FieldVector<double,1>> x,y; fillv(x,"x"); fillv(y,"y"); auto f=flat<double>(x),g=flat<double>(y); double a=sym_real("a"); SYM_EQ(x*y,dotp(f,g),"product"); SYM_EQ(x.two_norm2(),dotp(f,f),"norm"); x.axpy(a,y); eqv(flat<double>(x),axpy(f,a,g),"axpy"); SYM_EQ(x.dim(),4u,"dim"); sym_reach("done"); }
// matrix arithmetic and norms
template<class K> static void arith(){ Mat<K> A,B; fillD(A); fillD(B); auto D=denseD<K>(A),E=denseD<K>(B); K k; fill(k,"k"); long op=sym_concrete_l(sym_int("op",0,5)); switch(op){ case 0: A+=B; for(int i=0;i<9;i++) D.a[i]+=E.a[i]; break; case 1: A-=B; for(int i=0;i<9;i++) D.a[i]-=E.a[i]; break; case 2: A*=k; for(auto&e:D.a) e*=k; break; case 3: if(k==K(0)) return; A/=k; for(auto&e:D.a) e/=k; break; case 4: A=k; for(auto&e:D.a) e=k; break; case 5: { double f=0; for(auto&e:D.a) f+=std::real(e)*std::real(e)+std::imag(e)*std::imag(e); SYM_EQ(A.frobenius_norm2(),f,"Frobenius norm"); double n=A.frobenius_norm(); SYM_EQ(n*n,f,"Frobenius norm"); } } eqm(denseD<K>(A),D,"result"); eqm(denseD<K>(B),E,"operand unchanged"); }
SYM_HARNESS(arith_real,SYM_REAL,"done"){ arith<double>(); sym_reach("done"); }
SYM_HARNESS(arith_complex,SYM_REAL,"done"){ arith<C>(); sym_reach("done"); }
typedef MultiTypeBlockMatrix<MultiTypeBlockVector<FieldMatrix<double,1,1>,FieldMatrix<double,1,1>>,MultiTypeBlockVector<FieldMatrix<double,2,1>,FieldMatrix<double,2,1>>> NM;
SYM_HARNESS(matrix_norms,SYM_REAL,"done"){ NM A; blocks(A,[&](auto& B,int,int){ fill(B,"a"); }); auto mx=[](double a,double b){ return a>b?a:b; }; double r0=ab(A[_0][_0][0][0])+ab(A[_0][_1][0][0]); double r1=mx(ab(A[_1][_0][0][0]),ab(A[_1][_0][1][0]))+mx(ab(A[_1][_1][0][0]),ab(A[_1][_1][1][0])); SYM_EQ(A.infinity_norm(),mx(r0,r1),"row sum norm"); SYM_EQ(A.infinity_norm_real(),mx(r0,r1),"row sum norm"); sym_reach("done"); }
SYM_HARNESS(matrix_nan,SYM_REAL,"done"){ NM A; blocks(A,[&](auto& B,int,int){ fill(B,"a"); }); long p=sym_concrete_l(sym_int("NaN at",0,5)),k=0; double n=std::numeric_limits<double>::quiet_NaN(); blocks(A,[&](auto& B,int,int){ for(auto& r:B) for(double& e:r) if(k++==p) e=n; }); SYM_ASSERT(A.infinity_norm()!=A.infinity_norm(),"maximum norm is NaN"); SYM_ASSERT(A.infinity_norm_real()!=A.infinity_norm_real(),"maximum norm is NaN"); SYM_ASSERT(A.frobenius_norm()!=A.frobenius_norm(),"Frobenius norm is NaN"); sym_reach("done"); }
