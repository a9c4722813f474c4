// C22: solvers abort on invalid numbers and handle trivial systems
// BOUNDS: every solver, 1..2 (measured norms: 3) iterations, cycle length 1..2; one invalid number at every position of the sequence of measured norms (not-a-number or infinite) and inner products (not-a-number); all other measured values arbitrary; trivial systems: all regular 2x2 matrices and solutions
// ASSUME: finite inner products are positive (not for BiCGSTAB and the loop)
#include "flat.h"
#include "solv.h"
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
// vector without content that remembers whether it holds an invalid number
struct MV { typedef double field_type; bool nan=false; static bool bad(double a){ return std::isnan(a); } double dot(const MV&) const { return 0; } double two_norm() const { return 0; } MV& operator=(double v){ nan=bad(v); return *this; } MV& operator+=(const MV& o){ nan=nan||o.nan; return *this; } MV& operator-=(const MV& o){ nan=nan||o.nan; return *this; } MV& operator*=(double a){ if(bad(a)) nan=true; return *this; } MV& axpy(double a,const MV& o){ if(bad(a)||o.nan) nan=true; return *this; } };
namespace Dune { template<> struct FieldTraits<MV>{ typedef double field_type; typedef double real_type; }; std::ostream& operator<<(std::ostream& s,const MV&){ return s; } }
struct Log { bool inside=false; int norms=0,dots=0,at=-1,kind=0; bool hit=false,ended=false; double first=-1; };
struct Op: LinearOperator<MV,MV> { void apply(const MV& x,MV& y) const override { y.nan=x.nan; } void applyscaleadd(double a,const MV& x,MV& y) const override { y.axpy(a,x); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct Pr: Preconditioner<MV,MV> { void pre(MV&,MV&) override {} void apply(MV& v,const MV& d) override { v.nan=d.nan; } void post(MV&) override {} SolverCategory::Category category() const override { return SolverCategory::sequential; } };
struct Sp: ScalarProduct<MV> { Log& l; bool pos; Sp(Log& a,bool p):l(a),pos(p){} double dot(const MV& x,const MV& y) const override { int k=l.dots++; if(x.nan||y.nan) return std::numeric_limits<double>::quiet_NaN(); if(l.kind==2&&k==l.at){ l.hit=true; return std::numeric_limits<double>::quiet_NaN(); } double d=sym_real("dot"); if(pos) sym_assume(d>0.0); return d; }
  double norm(const MV& x) const override { SYM_ASSERT(!l.ended||l.inside,"no further step after an invalid norm"); int k=l.norms++; if(x.nan){ l.ended=true; return std::numeric_limits<double>::quiet_NaN(); } if(l.kind<2&&k==l.at){ l.hit=l.ended=true; return l.kind?std::numeric_limits<double>::infinity():std::numeric_limits<double>::quiet_NaN(); } double d=sym_real("norm"); sym_assume(d>=0.0); if(k==0) l.first=d; return d; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
static void invalid(int kind){ bool est=kind==MINRES||kind==GMRES||kind==FGMRES; Log l; l.kind=sym_concrete_l(sym_int("kind",kind==MINRES?2:0,kind==LOOP?1:2)); l.at=sym_concrete_l(sym_int("position",0,est||kind==BICG?5:6)); l.inside=kind==GMRES||kind==FGMRES; Op A; Pr P; Sp sp(l,kind!=BICG&&kind!=LOOP); int maxit=sym_concrete_l(sym_int("maxit",1,est||kind==BICG?2:3)); int restart=kind>=GMRES?sym_concrete_l(sym_int("restart",1,2)):1; auto s=make<MV>(kind,A,sp,P,1e-3,maxit,restart); MV x,b; InverseOperatorResult r; r.converged=sym_bool("stale flag");
  bool thrown=false; try{ s->apply(x,b,r); } catch(SolverAbort&){ thrown=true; }
  if(thrown){ SYM_ASSERT(!r.converged,"aborted solve is not converged"); if(l.hit) sym_reach("invalid"); return; } SYM_ASSERT(!l.ended,"invalid norm aborts"); SYM_ASSERT(!x.nan,"no invalid iterate is returned"); sym_reach("valid"); }
#define K(n,k) SYM_HARNESS(n,SYM_REAL,"invalid,valid"){ invalid(k); }
K(loop,LOOP) K(gradient,GRAD) K(cg,CG) K(bicgstab,BICG) K(minres,MINRES) K(gmres,GMRES) K(fgmres,FGMRES) K(gpcg,GPCG) K(rfcg,RFCG) K(cfcg,CFCG)
// the starting value solves the system
typedef BlockVector<FieldVector<double,1>> V; typedef BCRSMatrix<FieldMatrix<double,1,1>> M;
struct Id: Preconditioner<V,V> { int n=0; void pre(V&,V&) override { n+=1; } void apply(V& v,const V& d) override { v=d; } void post(V&) override { n+=10; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
SYM_HARNESS(trivial,SYM_REAL,"trivial"){ int kind=sym_concrete_l(sym_int("solver",0,NSOL-1)); int maxit=sym_concrete_l(sym_int("maxit",0,2)); M A; auto p=pattern<2,2>(false); build(A,p); fillvals(A,p); V x(2),b(2); fillv(x,"x"); auto fx=flat<double>(x),fb=mul(dense(A),fx); for(int i=0;i<2;i++) b[i]=fb[i]; Id P; MatrixAdapter<M,V,V> op(A); SeqScalarProduct<V> sp; auto s=make<V>(kind,op,sp,P,sym_bool("no reduction")?0.0:1e-8,maxit,2); InverseOperatorResult r; r.converged=false; s->apply(x,b,r); SYM_ASSERT(r.converged,"converged"); SYM_EQ(r.iterations,0,"no iteration"); SYM_ASSERT(!std::isnan(r.reduction)&&!std::isinf(r.reduction),"reduction is a number"); SYM_ASSERT(!std::isnan(r.conv_rate)&&!std::isinf(r.conv_rate),"rate is a number"); eqv(flat<double>(x),fx,"solution unchanged"); SYM_EQ(P.n,11,"preconditioner finished"); sym_reach("trivial"); }
