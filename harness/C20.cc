// C20: iterative solvers report convergence honestly
// BOUNDS: every solver, at most 4 (BiCGSTAB, MINRES, GMRes: 2; thorough one or two more) iterations, cycle lengths / kept directions 1..3 (0..3 for the flexible CG methods), all real values of every measured norm (>= 0) and scalar product, all reductions; operator, preconditioner and scalar product are stand-ins that return arbitrary values
// ASSUME: scalar products that the positive definite methods require to be positive are positive
#include "solv.h"
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
// vector without content that remembers whether it is known to be zero
struct MV { typedef double field_type; bool zero=false; double dot(const MV&) const { return 0; } double two_norm() const { return 0; } MV& operator=(double v){ zero=v==0.0; return *this; } MV& operator+=(const MV& o){ zero=zero&&o.zero; return *this; } MV& operator-=(const MV& o){ zero=zero&&o.zero; return *this; } MV& operator*=(double){ return *this; } MV& axpy(double,const MV&){ zero=false; return *this; } };
namespace Dune { template<> struct FieldTraits<MV>{ typedef double field_type; typedef double real_type; }; std::ostream& operator<<(std::ostream& s,const MV&){ return s; } }
struct Log { std::vector<double> n,d; int pre=0,post=0,app=0,calls=0; };
struct Op: LinearOperator<MV,MV> { Log& l; Op(Log& a):l(a){} void apply(const MV&,MV& y) const override { y.zero=false; } void applyscaleadd(double,const MV&,MV& y) const override { y.zero=false; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct Pr: Preconditioner<MV,MV> { Log& l; Pr(Log& a):l(a){} void pre(MV&,MV&) override { SYM_ASSERT(l.pre==0&&l.app==0&&l.post==0,"pre once and first"); l.pre++; } void apply(MV& v,const MV&) override { SYM_ASSERT(l.pre==1&&l.post==0,"apply between pre and post"); SYM_ASSERT(v.zero,"correction cleared before the preconditioner is applied"); l.app++; v.zero=false; } void post(MV&) override { l.post++; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct Sp: ScalarProduct<MV> { Log& l; bool pos; Sp(Log& a,bool p):l(a),pos(p){} double dot(const MV&,const MV&) const override { double d=sym_real("dot"); l.d.push_back(d); if(pos) sym_assume(d>0.0); return d; } double norm(const MV&) const override { double d=sym_real("norm"); sym_assume(d>=0.0); l.n.push_back(d); return d; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
static bool done(double d,double d0,double red){ if(d<d0*red) return true; return d<1e-30; }
static void judge(int kind){ Log l; Op A(l); Pr P(l); bool est=kind==MINRES||kind==GMRES||kind==FGMRES; Sp sp(l,kind!=BICG&&kind!=LOOP&&!est); int lim=est||kind==BICG?2:4; if(sym_tier()) lim+=est||kind==BICG?1:2; int maxit=sym_concrete_l(sym_int("maxit",0,lim)); int lo=kind==RFCG||kind==CFCG?0:1; int restart=kind>=GMRES?sym_concrete_l(sym_int("restart",lo,3)):1; double red=sym_real("reduction"); auto s=make<MV>(kind,A,sp,P,red,maxit,restart); MV x,b; InverseOperatorResult r; r.converged=sym_bool("stale flag"); r.iterations=77; r.reduction=5;
  bool thrown=false; try{ s->apply(x,b,r); } catch(SolverAbort&){ thrown=true; }
  SYM_ASSERT(l.pre==1&&l.post<=1,"pre and post called once"); double d0=kind==MINRES?std::sqrt(l.d[0]):l.n[0]; SYM_ASSERT(r.iterations>=0&&r.iterations<=maxit,"iteration count within the limit");
  if(thrown){ SYM_ASSERT(kind==BICG||est,"only methods with breakdowns abort on finite numbers"); SYM_ASSERT(!r.converged,"aborted solve is not converged"); sym_reach("abort"); return; }
  SYM_ASSERT(l.post==1,"post called");
  if(!est){ double d=l.n.back(); for(std::size_t k=0;k+1<l.n.size();k++) SYM_ASSERT(!done(l.n[k],d0,red),"stops at the first norm that meets the criterion"); bool c=done(d,d0,red); SYM_ASSERT(r.converged==c,"converged iff the last norm meets the criterion"); int steps=(int)l.n.size()-1; SYM_ASSERT(r.iterations==(kind==BICG?steps/2:steps),"number of iterations"); if(!c) SYM_ASSERT(r.iterations==maxit,"stops only when converged or at the limit"); if(d0!=0.0) SYM_ASSERT(r.reduction*d0==d,"reported reduction"); sym_reach(c?"converged":"limit"); }
  else { if(d0!=0.0){ bool c=r.converged; if(c) SYM_ASSERT(r.reduction<red||r.reduction*d0<1e-30,"converged only below the criterion"); else { SYM_ASSERT(!(r.reduction<red)&&!(r.reduction*d0<1e-30),"not converged only above the criterion"); SYM_ASSERT(r.iterations==maxit,"stops only when converged or at the limit"); } sym_reach(c?"converged":"limit"); } else { SYM_ASSERT(r.converged&&r.iterations==0,"zero defect"); } } }
SYM_HARNESS(loop,SYM_REAL,"converged,limit"){ judge(LOOP); }
SYM_HARNESS(gradient,SYM_REAL,"converged,limit"){ judge(GRAD); }
SYM_HARNESS(cg,SYM_REAL,"converged,limit"){ judge(CG); }
SYM_HARNESS(bicgstab,SYM_REAL,"converged,limit,abort"){ judge(BICG); }
SYM_HARNESS(minres,SYM_REAL,"converged,limit"){ judge(MINRES); }
SYM_HARNESS(gmres,SYM_REAL,"converged,limit,abort"){ judge(GMRES); }
SYM_HARNESS(fgmres,SYM_REAL,"converged,limit,abort"){ judge(FGMRES); }
SYM_HARNESS(gpcg,SYM_REAL,"converged,limit"){ judge(GPCG); }
SYM_HARNESS(rfcg,SYM_REAL,"converged,limit"){ judge(RFCG); }
SYM_HARNESS(cfcg,SYM_REAL,"converged,limit"){ judge(CFCG); }
// cycles of length one: the second cycle starts from the recomputed defect, and the claimed norm follows from it
static void restarts(int kind){ Log l; Op A(l); Pr P(l); Sp sp(l,true); int maxit=sym_concrete_l(sym_int("maxit",2,sym_tier()?3:2)); auto s=make<MV>(kind,A,sp,P,0.0,maxit,1); MV x,b; InverseOperatorResult r; try{ s->apply(x,b,r); } catch(SolverAbort&){ sym_reach("abort"); return; } int c=r.iterations; if(c<1){ sym_reach("solved"); return; } SYM_EQ((int)l.n.size(),2*c,"one defect per cycle"); SYM_EQ((int)l.d.size(),c,"one orthogonalization per cycle"); double h=l.n[2*c-1],g=l.d[c-1],d=l.n[2*c-2],d0=l.n[0]; SYM_EQ(r.reduction*r.reduction*d0*d0*(h*h+g*g),d*d*h*h,"claimed norm of the last cycle"); sym_reach(c==maxit?"all":"some"); }
SYM_HARNESS(gmres_restart,SYM_REAL,"all,solved,abort"){ restarts(GMRES); }
SYM_HARNESS(fgmres_restart,SYM_REAL,"all,solved,abort"){ restarts(FGMRES); }
