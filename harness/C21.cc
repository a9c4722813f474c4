// C21: Krylov solvers return the solution and the true residual
// BOUNDS: all regular (symmetric positive definite for gradient and CG methods, symmetric for MINRES) systems of dimension 1 and 2, all right-hand sides and starting values, all diagonal positive preconditioners (BiCGSTAB, GMRes: dimension 2 without preconditioner); exact arithmetic; at most n iterations, requested reduction 0
// ASSUME: the starting defect is not zero
#include "flat.h"
#include "solv.h"
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
typedef BlockVector<FieldVector<double,1>> V; typedef BCRSMatrix<FieldMatrix<double,1,1>> M;
template<int n> struct Sys { M A; DM<double> D=DM<double>(n,n); V x=V(n),b=V(n); DV<double> b0; std::array<double,n> w;
  Sys(bool sym,bool spd,bool prec,bool zero,bool unit=false){ auto p=full<n,n>(); build(A,p); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(sym&&j<i) A[i][j]=A[j][i]; else fill(A[i][j],"a"); } D=dense(A); if constexpr(n==1){ sym_assume(spd?D(0,0)>0.0:D(0,0)!=0.0); } else { double det=D(0,0)*D(1,1)-D(0,1)*D(1,0); if(spd){ sym_assume(D(0,0)>0.0); sym_assume(det>0.0); } else sym_assume(det!=0.0); }
    for(int i=0;i<n;i++){ w[i]=1.0; if(prec){ w[i]=sym_real("w"); sym_assume(w[i]>0.0); } } if(unit){ b=0; b[0]=1; } else fillv(b,"r"); if(zero) x=0; else fillv(x,"x"); auto t=mul(D,flat<double>(x)); for(int i=0;i<n;i++) b[i][0]+=t[i]; /* b = A x0 + r, r the starting defect */ b0=flat<double>(b); } };
template<int n> struct Prec: Preconditioner<V,V> { std::array<double,n> w; Prec(std::array<double,n> a):w(a){} void pre(V&,V&) override {} void post(V&) override {} void apply(V& v,const V& d) override { for(int i=0;i<n;i++) v[i]=w[i]*d[i][0]; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
// the norm decides only about stopping: 1 unless the vector is zero
struct IndicatorSP: SeqScalarProduct<V> { double norm(const V& v) const override { for(auto& e:v) if(e[0]!=0.0) return 1.0; return 0.0; } };
template<int n> static DV<double> residual(const Sys<n>& s){ DV<double> r=mul(s.D,flat<double>(s.x)); for(int i=0;i<n;i++) r[i]=s.b0[i]-r[i]; return r; }
template<int n> static void krylov(int kind,bool spd,bool sym,bool prec,bool zero,int its,bool rhs,bool unit=false){ Sys<n> s(sym,spd,prec,zero,unit); { auto r=residual(s); bool z=true; for(int i=0;i<n;i++) if(r[i]!=0.0) z=false; sym_assume(!z); } Prec<n> P(s.w); MatrixAdapter<M,V,V> op(s.A); SeqScalarProduct<V> sq; IndicatorSP si; bool real=kind==MINRES||kind==GMRES||kind==FGMRES; auto sol=make<V>(kind,op,real?(ScalarProduct<V>&)sq:si,P,0.0,its,kind==GMRES||kind==FGMRES?its:its+1); InverseOperatorResult r;
  try{ sol->apply(s.x,s.b,r); } catch(SolverAbort&){ SYM_ASSERT(kind==BICG||kind==GMRES||kind==FGMRES,"only methods with breakdowns abort"); sym_reach("abort"); return; }
  eqm(dense(s.A),s.D,"matrix unchanged"); auto t=residual(s); if(rhs) for(int i=0;i<n;i++) SYM_EQ(s.b[i][0],t[i],"right-hand side holds the residual"); if(r.iterations==n||(kind==BICG&&r.converged)){ for(int i=0;i<n;i++) SYM_EQ(t[i],0.0,"exact solution after n iterations"); SYM_ASSERT(r.converged,"converged"); sym_reach("exact"); } else { SYM_ASSERT(r.converged||its<n,"early end only with convergence"); double q=0; for(int i=0;i<n;i++) q+=t[i]*t[i]*(kind==GMRES?s.w[i]*s.w[i]:1.0); SYM_ASSERT(real?q<1.0001e-60:q==0.0,"true residual below the bound"); } }
#define K(NAME,KIND,SPD,SYM,RHS) SYM_HARNESS(NAME##1,SYM_REAL,"exact"){ krylov<1>(KIND,SPD,SYM,true,false,1,RHS); } SYM_HARNESS(NAME##2,SYM_REAL,"exact"){ krylov<2>(KIND,SPD,SYM,true,true,2,RHS); } SYM_HARNESS(NAME##2x,SYM_REAL,"exact"){ krylov<2>(KIND,SPD,SYM,false,false,2,RHS); }
SYM_HARNESS(gradient1,SYM_REAL,"exact"){ krylov<1>(GRAD,true,true,true,false,1,true); }
K(cg,CG,true,true,true)
K(gpcg,GPCG,true,true,true)
K(rfcg,RFCG,true,true,true)
K(cfcg,CFCG,true,true,true)
SYM_HARNESS(bicgstab1,SYM_REAL,"exact"){ krylov<1>(BICG,false,false,true,false,1,true); }
SYM_HARNESS(bicgstab2,SYM_REAL,"exact"){ krylov<2>(BICG,false,false,false,false,2,true,true); }
// methods that compute the norm of the defect by recurrence: the claimed norm is the true one and minimal over the Krylov space
template<int n> static void residual_methods(int kind,bool prec,int maxit,int restart,bool unit){ Sys<n> s(kind==MINRES,false,prec,false,unit);  auto r0=residual(s); Prec<n> P(s.w); MatrixAdapter<M,V,V> op(s.A); SeqScalarProduct<V> sp; auto sol=make<V>(kind,op,sp,P,0.0,maxit,restart); InverseOperatorResult r; auto nrm=[&](const DV<double>& t){ double q=0; for(int i=0;i<n;i++) q+=t[i]*t[i]*(kind==GMRES?s.w[i]*s.w[i]:kind==MINRES?s.w[i]:1.0); return q; }; double q0=nrm(r0); sym_assume(q0>1e-50);
  try{ sol->apply(s.x,s.b,r); } catch(SolverAbort&){ SYM_ASSERT(kind!=MINRES||n==1,"documented breakdown"); SYM_ASSERT(!r.converged,"aborted solve is not converged"); sym_reach("abort"); return; }
  auto t=residual(s); double q=nrm(t); SYM_EQ(r.reduction*r.reduction*q0,q,"claimed norm is the true one");
  if(r.iterations==1&&n==2&&!prec){ DV<double> u=kind==MINRES||true?r0:r0; auto Au=mul(s.D,u); double d=0; for(int i=0;i<n;i++) d+=Au[i]*t[i]; SYM_EQ(d,0.0,"defect is minimal along the first direction"); }
  if(r.iterations==n&&restart>=n&&maxit>=n){ for(int i=0;i<n;i++) SYM_EQ(t[i],0.0,"exact solution after n iterations"); sym_reach("exact"); } sym_reach("returned"); }
SYM_HARNESS(minres1,SYM_REAL,"exact"){ residual_methods<1>(MINRES,true,1,1,false); }
SYM_HARNESS(minres2_1,SYM_REAL,"returned"){ residual_methods<2>(MINRES,false,1,2,true); }
SYM_HARNESS(minres2,SYM_REAL,"exact"){ residual_methods<2>(MINRES,false,2,2,true); }
SYM_HARNESS(gmres1,SYM_REAL,"abort"){ residual_methods<1>(GMRES,true,1,1,false); }
SYM_HARNESS(gmres2,SYM_REAL,"returned"){ residual_methods<2>(GMRES,false,1,2,true); }
SYM_HARNESS(fgmres2,SYM_REAL,"returned"){ residual_methods<2>(FGMRES,false,1,2,true); }
// dimension 3 in the basis of eigenvectors (the methods without preconditioner commute with rotations and scalings, two eigenvalues are fixed); short memories suffice in exact arithmetic
static void dim3(int kind,int memory){ M A; auto p=[]{ Pat<3,3> q{}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) q[i][j]=i==j; return q; }(); build(A,p); V x(3),b(3); std::array<double,3> a; for(int i=0;i<3;i++){ if(i<2) a[i]=i+1; else { a[i]=sym_real("a"); sym_assume(a[i]>0.0); } A[i][i]=a[i]; if(i==0) b[i]=1; else b[i]=sym_real("r"); x[i]=i-1; } for(int i=0;i<3;i++) sym_assume(b[i][0]!=0.0); sym_assume(a[0]<a[1]); sym_assume(a[1]<a[2]); DV<double> b0(3); for(int i=0;i<3;i++){ b[i][0]+=a[i]*(i-1); b0[i]=b[i][0]; } Prec<3> P({1.0,1.0,1.0}); MatrixAdapter<M,V,V> op(A); IndicatorSP sp; auto sol=make<V>(kind,op,sp,P,0.0,4,memory); InverseOperatorResult r; sol->apply(x,b,r); SYM_EQ(r.iterations,3,"three iterations"); SYM_ASSERT(r.converged,"converged"); for(int i=0;i<3;i++) SYM_EQ(a[i]*x[i][0],b0[i],"exact solution"); sym_reach("exact"); }
SYM_HARNESS(cg3,SYM_REAL,"exact"){ dim3(CG,0); }
SYM_HARNESS(gpcg3,SYM_REAL,"exact"){ dim3(GPCG,2); }
SYM_HARNESS(gpcg3l,SYM_REAL,"exact"){ dim3(GPCG,5); }
SYM_HARNESS(rfcg3,SYM_REAL,"exact"){ dim3(RFCG,1); }
SYM_HARNESS(rfcg3l,SYM_REAL,"exact"){ dim3(RFCG,4); }
SYM_HARNESS(cfcg3,SYM_REAL,"exact"){ dim3(CFCG,1); }
SYM_HARNESS(cfcg3l,SYM_REAL,"exact"){ dim3(CFCG,4); }
// one step of the loop and gradient methods
static void onestep(int kind){ Sys<2> s(true,true,true,false); auto x0=flat<double>(s.x); auto r0=residual(s); sym_assume(r0[0]!=0.0); Prec<2> P(s.w); MatrixAdapter<M,V,V> op(s.A); IndicatorSP sp; auto sol=make<V>(kind,op,sp,P,0.0,1,1); InverseOperatorResult r; sol->apply(s.x,s.b,r); auto t=residual(s); SYM_EQ(r.iterations,1,"one iteration"); double p[2]={s.w[0]*r0[0],s.w[1]*r0[1]}; double l=1.0; if(kind==GRAD){ double n=p[0]*r0[0]+p[1]*r0[1],d=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) d+=p[i]*s.D(i,j)*p[j]; l=n/d; } for(int i=0;i<2;i++){ SYM_EQ(s.x[i][0],x0[i]+l*p[i],"step along the preconditioned defect"); SYM_EQ(s.b[i][0],t[i],"right-hand side holds the residual"); } sym_reach("step"); }
SYM_HARNESS(loop_step,SYM_REAL,"step"){ onestep(LOOP); }
SYM_HARNESS(gradient_step,SYM_REAL,"step"){ onestep(GRAD); }
