// C23: the reduction of a single call only affects that call, solvers can be reused
// BOUNDS: every solver, two calls (thorough: three) with at most two iterations each, every call with a reduction of its own or the configured one, the first call may meet an invalid number; all real values of reductions, measured norms and scalar products; reuse and warm starts: all 2x2 systems and starting values, measured quantities arbitrary but the same for both solvers
// ASSUME: scalar products that the positive definite methods require to be positive are positive
#include "flat.h"
#include "solv.h"
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
struct MV { typedef double field_type; double dot(const MV&) const { return 0; } double two_norm() const { return 0; } MV& operator=(double){ return *this; } MV& operator+=(const MV&){ return *this; } MV& operator-=(const MV&){ return *this; } MV& operator*=(double){ return *this; } MV& axpy(double,const MV&){ return *this; } };
namespace Dune { template<> struct FieldTraits<MV>{ typedef double field_type; typedef double real_type; }; std::ostream& operator<<(std::ostream& s,const MV&){ return s; } }
constexpr auto SEQ=SolverCategory::sequential;
struct Op: LinearOperator<MV,MV> { void apply(const MV&,MV&) const override {} void applyscaleadd(double,const MV&,MV&) const override {} SolverCategory::Category category() const override { return SEQ; } };
struct Pr: Preconditioner<MV,MV> { void pre(MV&,MV&) override {} void apply(MV&,const MV&) override {} void post(MV&) override {} SolverCategory::Category category() const override { return SEQ; } };
struct Log { std::vector<double> n,d; int bad=-1; };
struct Sp: ScalarProduct<MV> { Log& l; bool pos,est; Sp(Log& a,bool p,bool e):l(a),pos(p),est(e){} double dot(const MV&,const MV&) const override { if(est&&l.bad==(int)l.d.size()){ l.d.push_back(0); return std::numeric_limits<double>::quiet_NaN(); } double d=sym_real("dot"); l.d.push_back(d); if(pos) sym_assume(d>0.0); return d; } double norm(const MV&) const override { if(!est&&l.bad==(int)l.n.size()){ l.n.push_back(0); return std::numeric_limits<double>::quiet_NaN(); } double d=sym_real("norm"); sym_assume(d>=0.0); l.n.push_back(d); return d; } SolverCategory::Category category() const override { return SEQ; } };
static bool done(double d,double d0,double red){ if(d<d0*red) return true; return d<1e-30; }
static void calls(int kind){ Log l; Op A; Pr P; bool est=kind==MINRES||kind==GMRES||kind==FGMRES; Sp sp(l,kind!=BICG&&kind!=LOOP&&!est,est); int lim=est||kind==BICG?1:2; double red=sym_real("configured reduction"); auto s=make<MV>(kind,A,sp,P,red,lim,2); int n=2+sym_tier(); bool anyown=false;
  for(int c=0;c<n;c++){ l.n.clear(); l.d.clear(); l.bad=c==0?sym_concrete_l(sym_int("invalid number at",-1,lim)):-1; bool own=sym_concrete_l(sym_int("own reduction",0,1)); if(c==n-1&&own&&!anyown) sym_cut(); anyown=anyown||own; double q=red; MV x,b; InverseOperatorResult r; r.converged=false; bool thrown=false; InverseOperator<MV,MV>& S=*s;
    try { if(own){ q=sym_real("own"); S.apply(x,b,q,r); } else S.apply(x,b,r); } catch(SolverAbort&){ thrown=true; }
    if(thrown){ SYM_ASSERT(!r.converged,"aborted"); if(c==0&&own) sym_reach("aborted own"); continue; }
    double d0=kind==MINRES?std::sqrt(l.d[0]):l.n[0]; if(!est){ double d=l.n.back(); for(std::size_t k=0;k+1<l.n.size();k++) SYM_ASSERT(!done(l.n[k],d0,q),"goes on until the requested reduction"); SYM_ASSERT(r.converged==done(d,d0,q),"converged iff the requested reduction is reached"); }
    else if(d0!=0.0){ SYM_ASSERT(r.converged==(r.reduction<q||r.reduction*d0<1e-30),"converged iff the requested reduction is reached"); SYM_ASSERT(r.converged||r.iterations==lim,"goes on until the requested reduction"); }
    if(c>0&&anyown) sym_reach(own?"own":"configured"); } }
#define K(n,k) SYM_HARNESS(n,SYM_REAL,"own,configured,aborted own"){ calls(k); }
K(loop,LOOP) K(gradient,GRAD) K(cg,CG) K(bicgstab,BICG) K(minres,MINRES) K(gmres,GMRES) K(fgmres,FGMRES) K(gpcg,GPCG) K(rfcg,RFCG) K(cfcg,CFCG)
// reuse of the solver object and warm starts
typedef BlockVector<FieldVector<double,1>> V; typedef BCRSMatrix<FieldMatrix<double,1,1>> M;
struct Rich: Preconditioner<V,V> { double w; void pre(V&,V&) override {} void apply(V& v,const V& d) override { for(std::size_t i=0;i<v.size();i++) v[i]=w*d[i]; } void post(V&) override {} SolverCategory::Category category() const override { return SEQ; } };
// gives the same answers to both solvers
struct Tape: ScalarProduct<V> { mutable std::vector<double> d; mutable std::size_t k=0; bool pos; bool replay=false; double get() const { if(!replay){ double x=sym_real("measured"); if(pos) sym_assume(x>0.0); d.push_back(x); } SYM_ASSERT(k<d.size(),"same number of measurements"); if(k>=d.size()) sym_cut(); return d[k++]; } double dot(const V&,const V&) const override { return get(); } double norm(const V&) const override { double x=get(); if(!replay) sym_assume(x>=0.0); return x; } SolverCategory::Category category() const override { return SEQ; } };
struct Run { bool thrown=false; InverseOperatorResult r; V x,b; };
static Run solve(IterativeSolver<V,V>& s,V x,V b){ Run u; u.x=x; u.b=b; u.r.converged=false; try{ s.apply(u.x,u.b,u.r); } catch(SolverAbort&){ u.thrown=true; } return u; }
static void same(const Run& a,const Run& b,const DV<double>& off,bool rhs=true){ SYM_ASSERT(a.thrown==b.thrown,"same outcome"); if(a.thrown||b.thrown){ sym_reach("abort"); return; } SYM_EQ(a.r.iterations,b.r.iterations,"same iterations"); SYM_ASSERT(a.r.converged==b.r.converged,"same convergence"); SYM_EQ(a.r.reduction,b.r.reduction,"same reduction"); auto fa=flat<double>(a.x),fb=flat<double>(b.x); for(int i=0;i<2;i++) SYM_EQ(fa[i],fb[i]+off[i],"same solution"); if(rhs) eqv(flat<double>(a.b),flat<double>(b.b),"same right-hand side"); sym_reach("same"); }
static void reuse(int kind){ M A; auto p=full<2,2>(); build(A,p); fillvals(A,p); MatrixAdapter<M,V,V> op(A); Rich P; P.w=sym_real("w"); Tape t; bool est=kind==MINRES||kind==GMRES||kind==FGMRES; t.pos=!est; int maxit=est||kind==BICG?1:2; if(kind==MINRES) P.w=1; auto s=make<V>(kind,op,t,P,1e-3,maxit,2); V x(2),b(2),z(2); z=0; fillv(x,"x"); fillv(b,"b");
  int mode=sym_concrete_l(sym_int("warm start",0,1)); DV<double> off(2,0.0); Run u;
  if(!mode){ V x1(2),b1(2); fillv(x1,"x1"); fillv(b1,"b1"); Tape f; f.pos=t.pos; solve(*s,x1,b1); t.d.clear(); t.k=0; u=solve(*s,x,b); f.d=t.d; f.replay=true; auto s2=make<V>(kind,op,f,P,1e-3,maxit,2); Run v=solve(*s2,x,b); SYM_ASSERT(f.k==f.d.size()||v.thrown,"same number of measurements"); same(u,v,off); }
  else { u=solve(*s,x,b); t.k=0; t.replay=true; V d=b; A.mmv(x,d); Run v=solve(*s,z,d); off=flat<double>(x); SYM_ASSERT(t.k==t.d.size()||v.thrown,"same number of measurements"); same(u,v,off,kind!=FGMRES); } }
#define R(n,k,l) SYM_HARNESS(reuse_##n,SYM_REAL,l){ reuse(k); }
R(loop,LOOP,"same") R(gradient,GRAD,"same") R(cg,CG,"same") R(bicgstab,BICG,"same") R(minres,MINRES,"same") R(gmres,GMRES,"same") R(fgmres,FGMRES,"same") R(gpcg,GPCG,"same") R(rfcg,RFCG,"same") R(cfcg,CFCG,"same")
