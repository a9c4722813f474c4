// C21: complex systems
// BOUNDS: Hermitian positive definite (CG methods) and general (GMRes) complex systems of dimension 2 with unit starting defect in the first component (the methods commute with unitary changes of basis and scalings); BiCGSTAB: dimension 1, all values
#include "flat.h"
#include "solv.h"
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
typedef std::complex<double> C; typedef BlockVector<FieldVector<C,1>> V; typedef BCRSMatrix<FieldMatrix<C,1,1>> M;
struct IndicatorSP: SeqScalarProduct<V> { double norm(const V& v) const override { for(auto& e:v) if(e[0].real()!=0.0||e[0].imag()!=0.0) return 1.0; return 0.0; } };
struct Id: Preconditioner<V,V> { void pre(V&,V&) override {} void post(V&) override {} void apply(V& v,const V& d) override { v=d; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
enum { HPD,HERM,GEN };
static void run(int kind,int cls,int its,bool recur){ M A; auto p=full<2,2>(); build(A,p); C a[2][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++){ if(cls<=HERM&&i==j) a[i][j]=C(sym_real("d"),0.0); else if(cls<=HERM&&j<i) a[i][j]=std::conj(a[j][i]);  else { double re=sym_real("a"),im=sym_real("a"); a[i][j]=C(re,im); } A[i][j]=a[i][j]; }
  if(cls<=HERM){ double det=a[0][0].real()*a[1][1].real()-a[0][1].real()*a[0][1].real()-a[0][1].imag()*a[0][1].imag(); if(cls==HPD){ sym_assume(a[0][0].real()>0.0); sym_assume(det>0.0); } else sym_assume(det!=0.0); } else { C det=a[0][0]*a[1][1]-a[0][1]*a[1][0]; bool z=false; if(det.real()==0.0) if(det.imag()==0.0) z=true; sym_assume(!z); }
  V x(2),b(2); x=C(0); b=C(0); b[0]=C(1); MatrixAdapter<M,V,V> op(A); SeqScalarProduct<V> sq; IndicatorSP si; Id P; auto sol=make<V>(kind,op,recur?(ScalarProduct<V>&)sq:si,P,0.0,its,its); InverseOperatorResult r; try{ sol->apply(x,b,r); } catch(SolverAbort&){ SYM_ASSERT(kind==BICG||kind==GMRES||kind==FGMRES,"only methods with breakdowns abort"); sym_reach("abort"); return; }
  C t[2]; double q=0; for(int i=0;i<2;i++){ t[i]=C(i==0?1.0:0.0,0.0); for(int j=0;j<2;j++) t[i]-=a[i][j]*x[j][0]; q+=t[i].real()*t[i].real()+t[i].imag()*t[i].imag(); }
  if(recur) SYM_EQ(r.reduction*r.reduction,q,"claimed norm is the true one"); else for(int i=0;i<2;i++){ SYM_EQ(b[i][0],t[i],"right-hand side holds the residual"); SYM_ASSERT(r.converged,"converged"); }
  if(!recur||its==2){ if(r.iterations==2||!recur) SYM_EQ(q,0.0,"exact solution after n iterations"); } else { C d=0; for(int i=0;i<2;i++) d+=std::conj(a[i][0])*t[i]; SYM_EQ(d,C(0),"defect is minimal along the first direction"); } sym_reach("returned"); }
SYM_HARNESS(cg,SYM_REAL,"returned"){ run(CG,HPD,2,false); }
SYM_HARNESS(gpcg,SYM_REAL,"returned"){ run(GPCG,HPD,2,false); }
SYM_HARNESS(rfcg,SYM_REAL,"returned"){ run(RFCG,HPD,2,false); }
SYM_HARNESS(cfcg,SYM_REAL,"returned"){ run(CFCG,HPD,2,false); }
SYM_HARNESS(gmres,SYM_REAL,"returned"){ run(GMRES,GEN,1,true); }
SYM_HARNESS(fgmres,SYM_REAL,"returned"){ run(FGMRES,GEN,1,true); }
SYM_HARNESS(bicgstab,SYM_REAL,"returned"){ M A; auto p=full<1,1>(); build(A,p); C a,r0,x0; fill(a,"a"); fill(r0,"r"); fill(x0,"x"); { bool z=true; if(a.real()!=0.0) z=false; else if(a.imag()!=0.0) z=false; sym_assume(!z); z=true; if(r0.real()!=0.0) z=false; else if(r0.imag()!=0.0) z=false; sym_assume(!z); } A[0][0]=a; V x(1),b(1); x[0]=x0; b[0]=a*x0+r0; C b0=b[0][0]; MatrixAdapter<M,V,V> op(A); IndicatorSP sp; Id P; auto s=make<V>(BICG,op,sp,P,0.0,1,1); InverseOperatorResult r; try{ s->apply(x,b,r); } catch(SolverAbort&){ sym_reach("abort"); return; } C t=b0-a*x[0][0]; SYM_EQ(t,C(0),"exact solution"); SYM_EQ(b[0][0],C(0),"right-hand side holds the residual"); SYM_ASSERT(r.converged,"converged"); sym_reach("returned"); }
