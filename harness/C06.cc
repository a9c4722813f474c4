// C06: matrix arithmetic and norms equal linear algebra
// BOUNDS: BCRSMatrix 2x3 (every pattern pair subset/superset, 6 construction modes for scaling), entries double, complex, 2x2 blocks; dense Matrix up to 3x2 and 2x2 products; ScaledIdentityMatrix real and complex; integer dense matrices; BDMatrix/BTDMatrix; NaN at any one position, all other values symbolic; norms of 0x0 matrices
#include "flat.h"
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
using namespace Dune; using namespace H;
typedef std::complex<double> C;
static double ab(double x){ return x<0?-x:x; }
static double absq(double x){ return x*x; } static double absq(C c){ return c.real()*c.real()+c.imag()*c.imag(); }
static double ar(double x){ return ab(x); } static double ar(C c){ return ab(c.real())+ab(c.imag()); }
static double an(double x){ return ab(x); } static double an(C c){ return std::sqrt(absq(c)); }
template<class K> double fro2(const DM<K>& D){ double s=0; for(auto&x:D.a) s+=absq(x); return s; }
// max over block rows of the sum of block row-sum norms
template<int bn,int bm,class K,class F> double rowsum(const DM<K>& D,F f){ double r=0; for(int i=0;i<D.n/bn;i++){ double s=0; for(int j=0;j<D.m/bm;j++){ double mx=0; for(int p=0;p<bn;p++){ double t=0; for(int q=0;q<bm;q++) t+=f(D(i*bn+p,j*bm+q)); if(t>mx) mx=t; } s+=mx; } if(s>r) r=s; } return r; }
template<int bn,int bm,class M,class K> void norms(const M& A,const DM<K>& D,bool inf=true){
  double f=A.frobenius_norm(); SYM_EQ(A.frobenius_norm2(),fro2(D),"frobenius_norm2"); SYM_EQ(f*f,fro2(D),"frobenius_norm"); SYM_ASSERT(f>=0,"frobenius_norm sign");
  if(inf){ SYM_EQ(A.infinity_norm_real(),(rowsum<bn,bm>(D,[](auto x){return ar(x);})),"infinity_norm_real"); if(std::is_same_v<K,double>) SYM_EQ(A.infinity_norm(),(rowsum<bn,bm>(D,[](auto x){return an(x);})),"infinity_norm"); } }
template<class B,int n,int m> void arith(int modes){
  typedef BCRSMatrix<B> M; typedef typename BS<B>::K K; auto w=pattern<n,m>(); int mode=modes>1?sym_concrete_l(sym_int("mode",0,modes-1)):RANDOM_GAPS; M A; build(A,w,mode); fillvals(A,w,"a"); auto D=dense(A); K s; fill(s,"s");
  long op=sym_concrete_l(sym_int("op",0,5)); Pat<n,m> u; M Bm; DM<K> E;
  if(op>=2&&op<=4){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) u[i][j]=w[i][j]&&((i+j)%2==0||sym_bool("u")); build(Bm,u,mode==IMPLICIT?ROWWISE:IMPLICIT); fillvals(Bm,u,"b"); E=dense(Bm); }
  auto lin=[&](K x){ for(std::size_t i=0;i<D.a.size();i++) D.a[i]+=x*E.a[i]; };
  switch(op){ case 0: A*=s; for(auto&x:D.a) x*=s; break;
   case 1: { if constexpr(std::is_same_v<K,double>){ sym_assume(s!=0); A/=s; for(auto&x:D.a) x/=s; } else { A/=K(2,0); for(auto&x:D.a) x*=K(0.5,0); } break; }
   case 2: A+=Bm; lin(K(1)); break; case 3: A-=Bm; lin(K(-1)); break; case 4: A.axpy(s,Bm); lin(s); break;
   case 5: A=s; for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) for(int p=0;p<BS<B>::n;p++) for(int q=0;q<BS<B>::m;q++) D(i*BS<B>::n+p,j*BS<B>::m+q)=s; break; }
  eqm(dense(A),D,"result"); samePattern(A,w,"pattern"); if(E.n){ eqm(dense(Bm),E,"other operand unchanged"); samePattern(Bm,u,"other pattern unchanged"); } sym_reach("done");
}
SYM_HARNESS(arith_double,SYM_REAL,"done"){ arith<double,2,3>(sym_tier()?NMODES:3); }
SYM_HARNESS(arith_double_modes,SYM_REAL,"done"){ arith<double,2,2>(NMODES); }
SYM_HARNESS(arith_complex,SYM_REAL,"done"){ arith<C,2,2>(1); }
SYM_HARNESS(arith_block,SYM_REAL,"done"){ arith<FieldMatrix<double,2,2>,2,2>(NMODES); }
SYM_HARNESS(arith_block_complex,SYM_REAL,"done"){ arith<FieldMatrix<C,1,2>,2,2>(1); }
SYM_HARNESS(norm_double,SYM_REAL,"done"){ auto w=pattern<2,2>(); BCRSMatrix<double> A; build(A,w,sym_bool("gaps")?RANDOM_GAPS:ROWWISE); fillvals(A,w); auto D=dense(A); norms<1,1>(A,D); eqm(dense(A),D,"unchanged"); sym_reach("done"); }
SYM_HARNESS(norm_block,SYM_REAL,"done"){ Pat<2,2> w; w[0][0]=true; w[1][0]=sym_tier()?sym_bool("w"):false; w[1][1]=sym_bool("w"); BCRSMatrix<FieldMatrix<double,2,1>> A; build(A,w); fillvals(A,w); norms<2,1>(A,dense(A)); sym_reach("done"); }
SYM_HARNESS(norm_complex,SYM_REAL,"done"){ Pat<2,2> w; w[0][1]=true; w[1][0]=sym_bool("w"); BCRSMatrix<C> A; build(A,w); fillvals(A,w); norms<1,1>(A,dense(A)); if(!w[1][0]){ double x=A.infinity_norm(); SYM_EQ(x*x,absq(A[0][1]),"infinity_norm complex"); SYM_ASSERT(x>=0,"sign"); } sym_reach("done"); }
SYM_HARNESS(norm_empty,SYM_REAL,"done"){ BCRSMatrix<double> A; A.setBuildMode(BCRSMatrix<double>::row_wise); A.setSize(0,0); A.createbegin(); SYM_EQ(A.frobenius_norm(),0.0,"0x0"); Pat<2,2> w; BCRSMatrix<double> Z; build(Z,w,ROWWISE); SYM_EQ(Z.infinity_norm(),0.0,"no entries"); SYM_EQ(Z.frobenius_norm(),0.0,"no entries"); Z*=2.0; Matrix<double> D(0,0); SYM_EQ(D.frobenius_norm(),0.0,"dense 0x0"); SYM_EQ(D.infinity_norm(),0.0,"dense 0x0"); sym_reach("done"); }
// a NaN anywhere must not give an ordinary number
template<class M,class F> void nan1(M& A,F set,int cnt,const char* l){ int p=sym_concrete_l(sym_int("pos",0,cnt-1)); set(A,p); double a=A.infinity_norm(),b=A.infinity_norm_real(),c=A.frobenius_norm(),d=A.frobenius_norm2(); sym_assert_b(a!=a,l); sym_assert_b(b!=b,l); sym_assert_b(c!=c,l); sym_assert_b(d!=d,l); sym_reach("done"); }
static const double QNAN=std::numeric_limits<double>::quiet_NaN();
SYM_HARNESS(nan_bcrs,SYM_REAL,"done"){ Pat<2,2> w; w[0][0]=w[0][1]=w[1][1]=true; BCRSMatrix<double> A; build(A,w); fillvals(A,w); nan1(A,[](auto& A,int p){ (p==0?A[0][0]:p==1?A[0][1]:A[1][1])=QNAN; },3,"BCRS NaN"); }
SYM_HARNESS(nan_bcrs_block,SYM_REAL,"done"){ Pat<2,2> w; w[0][0]=w[0][1]=w[1][1]=true; BCRSMatrix<FieldMatrix<double,1,2>> A; build(A,w); fillvals(A,w); nan1(A,[](auto& A,int p){ int q=p%2; p/=2; (p==0?A[0][0]:p==1?A[0][1]:A[1][1])[0][q]=QNAN; },6,"BCRS block NaN"); }
SYM_HARNESS(nan_dense,SYM_REAL,"done"){ Matrix<double> A(2,2); for(int i=0;i<2;i++) for(int j=0;j<2;j++) A[i][j]=sym_real("a"); nan1(A,[](auto& A,int p){ A[p/2][p%2]=QNAN; },4,"dense NaN"); }
SYM_HARNESS(nan_complex,SYM_REAL,"done"){ Pat<1,2> w; w[0][0]=w[0][1]=true; BCRSMatrix<C> A; build(A,w); double r=sym_real("r"); int p=sym_concrete_l(sym_int("pos",0,3)); A[0][0]=C(p==0?QNAN:r,p==1?QNAN:1.0); A[0][1]=C(p==2?QNAN:2.0,p==3?QNAN:r); double b=A.infinity_norm_real(),c=A.frobenius_norm2(); SYM_ASSERT(b!=b,"complex NaN infinity_norm_real"); SYM_ASSERT(c!=c,"complex NaN frobenius"); sym_reach("done"); }
// dense
template<class B> void densea(){
  typedef typename BS<B>::K K; int n=sym_concrete_l(sym_int("n",1,3)),m=sym_concrete_l(sym_int("m",1,2)); Matrix<B> A(n,m),E(n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++){ fill(A[i][j],"a"); fill(E[i][j],"e"); } auto D=dense(A),F=dense(E); K s; fill(s,"s");
  Matrix<B> R(A); R*=s; DM<K> W(D); for(auto&x:W.a) x*=s; eqm(dense(R),W,"*="); 
  if constexpr(std::is_same_v<K,double>){ sym_assume(s!=0); R=A; R/=s; W=D; for(auto&x:W.a) x/=s; eqm(dense(R),W,"/="); }
  R=A; R+=E; W=D; for(std::size_t i=0;i<W.a.size();i++) W.a[i]+=F.a[i]; eqm(dense(R),W,"+="); R-=E; eqm(dense(R),D,"-="); 
  R=s; for(auto&x:W.a) x=s; eqm(dense(R),W,"= scalar"); eqm(dense(A),D,"operand unchanged"); eqm(dense(E),F,"operand unchanged");
  if constexpr(BS<B>::n==1&&BS<B>::m==1){ auto T=A.transpose(); eqm(dense(T),tr(D),"transpose"); auto P=A*E.transpose(); eqm(dense(P),mm(D,tr(F)),"product"); }
  for(auto r=A.begin();r!=A.end();++r) SYM_EQ(r->size(),(std::size_t)m,"row length"); int cnt=0; for(auto r=A.beforeEnd();r!=A.beforeBegin();--r){ SYM_EQ((int)r.index(),n-1-cnt,"reverse rows"); for(int j=0;j<m;j++) HEQ((*r)[j],A[n-1-cnt][j],"reverse row content"); cnt++; } SYM_EQ(cnt,n,"reverse row count");
  sym_reach("done");
}
SYM_HARNESS(dense_double,SYM_REAL,"done"){ densea<double>(); }
SYM_HARNESS(dense_complex,SYM_REAL,"done"){ densea<C>(); }
SYM_HARNESS(dense_fm,SYM_REAL,"done"){ densea<FieldMatrix<double,1,2>>(); densea<FieldMatrix<double,1,1>>(); }
SYM_HARNESS(dense_copies,SYM_REAL,"done"){ // copies and assignments between sizes are deep
  int n=sym_concrete_l(sym_int("n",0,2)),m=sym_concrete_l(sym_int("m",0,3)),p=sym_concrete_l(sym_int("p",0,3)),q=sym_concrete_l(sym_int("q",0,2)); Matrix<double> A(n,m),B(p,q); for(int i=0;i<n;i++) for(int j=0;j<m;j++) A[i][j]=sym_real("a"); for(int i=0;i<p;i++) for(int j=0;j<q;j++) B[i][j]=1; auto D=dense(A);
  Matrix<double> Cc(A); B=A; eqm(dense(B),D,"assigned"); eqm(dense(Cc),D,"copied"); SYM_EQ(B.N(),(std::size_t)n,"N"); SYM_EQ(B.M(),(std::size_t)m,"M"); A=5.0; eqm(dense(B),D,"independent"); eqm(dense(Cc),D,"independent"); A.setSize(p,q); SYM_EQ(A.N(),(std::size_t)p,"N"); SYM_EQ(A.M(),(std::size_t)q,"M"); for(int i=0;i<p;i++) for(int j=0;j<q;j++) A[i][j]=10*i+j; for(int i=0;i<p;i++) for(int j=0;j<q;j++) SYM_ASSERT(A[i][j]==10*i+j,"own storage"); B=B; eqm(dense(B),D,"self assignment"); sym_reach("done"); }
SYM_HARNESS(dense_norm,SYM_REAL,"done"){ int n=sym_concrete_l(sym_int("n",1,2)),m=sym_concrete_l(sym_int("m",1,2)); Matrix<double> A(n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) A[i][j]=sym_real("a"); norms<1,1>(A,dense(A)); sym_reach("done"); }
SYM_HARNESS(dense_norm_block,SYM_REAL,"done"){ Matrix<FieldMatrix<double,2,1>> A(1,2); for(int j=0;j<2;j++) fill(A[0][j],"a"); norms<2,1>(A,dense(A)); Matrix<C> B(1,2); B[0][0]=C(1,2); fill(B[0][1],"c"); norms<1,1>(B,dense(B)); sym_reach("done"); }
SYM_HARNESS(dense_int,SYM_REAL,"done"){ Matrix<int> A(2,2); long v[2][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++){ v[i][j]=sym_int("v",-3,3); A[i][j]=v[i][j]; } long r0=std::abs(v[0][0])+std::abs(v[0][1]),r1=std::abs(v[1][0])+std::abs(v[1][1]); SYM_EQ((long)A.infinity_norm(),r0>r1?r0:r1,"int infinity_norm"); SYM_EQ((long)A.infinity_norm_real(),r0>r1?r0:r1,"int infinity_norm_real"); SYM_EQ((long)A.frobenius_norm2(),v[0][0]*v[0][0]+v[0][1]*v[0][1]+v[1][0]*v[1][0]+v[1][1]*v[1][1],"int frobenius_norm2"); 
  BCRSMatrix<int> S; build(S,full<2,2>()); for(int i=0;i<2;i++) for(int j=0;j<2;j++) S[i][j]=v[i][j]; SYM_EQ((long)S.infinity_norm(),r0>r1?r0:r1,"int sparse infinity_norm"); SYM_EQ((long)S.infinity_norm_real(),r0>r1?r0:r1,"int sparse infinity_norm_real"); sym_reach("done"); }
template<class K,int n> void ident(){ K p,q,s; fill(p,"p"); fill(q,"q"); fill(s,"s"); typedef ScaledIdentityMatrix<K,n> I; I A(p); const I B(q); 
  A+=B; sym_eq_(A.scalar(),p+q,"+="); A-=B; sym_eq_(A.scalar(),p,"-="); A*=s; sym_eq_(A.scalar(),p*s,"*="); A=p; A+=s; sym_eq_(A.scalar(),p+s,"+= scalar"); A-=s; sym_eq_(A.scalar(),p,"-= scalar"); auto T=A*s; sym_eq_(T.scalar(),p*s,"A*s"); auto U=s*A; sym_eq_(U.scalar(),s*p,"s*A"); if constexpr(std::is_same_v<K,double>){ sym_assume(s!=0); A/=s; sym_eq_(A.scalar(),p/s,"/="); A=p; }
  SYM_EQ(A.frobenius_norm2(),n*absq(p),"frobenius_norm2"); double f=A.frobenius_norm(); SYM_EQ(f*f,n*absq(p),"frobenius_norm"); SYM_EQ(A.infinity_norm_real(),ar(p),"infinity_norm_real"); double i=A.infinity_norm(); SYM_EQ(i*i,absq(p),"infinity_norm"); SYM_ASSERT(i>=0&&f>=0,"sign"); 
  for(int a=0;a<n;a++) for(int b=0;b<n;b++) if(a==b) sym_eq_(A[a][b],p,"diagonal entry"); SYM_ASSERT((A==B)==(p==q),"comparison"); sym_reach("done"); }
SYM_HARNESS(ident_double,SYM_REAL,"done"){ ident<double,1>(); ident<double,3>(); }
SYM_HARNESS(ident_complex,SYM_REAL,"done"){ ident<C,2>(); }
SYM_HARNESS(special,SYM_REAL,"done"){ BDMatrix<double> A(2),A2(2); BTDMatrix<double> T(2),T2(2); auto fl=[](auto& M){ for(auto r=M.begin();r!=M.end();++r) for(auto c=r->begin();c!=r->end();++c) *c=sym_real("v"); }; fl(A); fl(A2); fl(T); fl(T2); auto D=dense(A),D2=dense(A2),E=dense(T),E2=dense(T2); double s=sym_real("s"); A*=s; T*=s; for(auto&x:D.a) x*=s; for(auto&x:E.a) x*=s; A+=A2; T-=T2; for(int i=0;i<4;i++){ D.a[i]+=D2.a[i]; E.a[i]-=E2.a[i]; } eqm(dense(A),D,"BDMatrix"); eqm(dense(T),E,"BTDMatrix"); SYM_EQ(A.frobenius_norm2(),fro2(D),"BD norm"); SYM_EQ(T.frobenius_norm2(),fro2(E),"BTD norm"); A=s; T=s; for(int i=0;i<2;i++){ SYM_EQ(A[i][i],s,"BD scalar"); for(int j=0;j<2;j++) SYM_EQ(T[i][j],s,"BTD scalar"); } sym_reach("done"); }
