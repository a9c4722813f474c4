// C35: failures of the vector iterations, sequences of algorithms on one object
// BOUNDS: diagonal 2x2 matrices with entries out of {0,1,2,NaN}, start vectors out of {0,1}^2 and NaN, at most 3 iterations, IEEE arithmetic; sequences of two algorithms on one object with the iteration matrix requested at any point
#include "solv.h"
#include <iomanip>
#include <iostream>
#include "flat.h"
#include <dune/istl/eigenvalue/poweriteration.hh>
using namespace Dune; using namespace H;
typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> V; typedef PowerIteration_Algorithms<M,V> Alg;
static double pick(const char* n,bool nan){ double t[]={0,1,2,std::numeric_limits<double>::quiet_NaN()}; return t[sym_concrete_l(sym_int(n,0,nan?3:2))]; }
// solves with the diagonal of the iteration operator
struct Diag: InverseOperator<V,V> { Alg& g; Diag(Alg& a):g(a){} void apply(V& x,V& b,InverseOperatorResult&) override { V e(x),r(x); for(int i=0;i<2;i++){ e=0.0; e[i]=1.0; g.getIterationOperator().apply(e,r); x[i]=b[i]/r[i]; } } void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
SYM_HARNESS(failures,SYM_FP,"pair,fails"){ auto w=full<2,2>(); M A; build(A,w); A=0.0; double a=pick("a",true),c=pick("c",false); A[0][0]=a; A[1][1]=c; V x(2); x[0]=pick("x",true); x[1]=pick("x",false); int lim=3; Alg g(A,lim); Diag s(g); double l=0,eps=1e-6; int what=sym_concrete_l(sym_int("algorithm",0,7)); bool ext; bool ok=true; l=what%2?0.5:0.0; try{ switch(what){ case 0: g.applyPowerIteration(eps,x,l); break; case 1: g.applyInverseIteration(eps,s,x,l); break; case 2: g.applyInverseIteration<Diag,true>(0.25,eps,s,x,l); break; case 3: g.applyInverseIteration(0.25,eps,s,x,l); break; case 4: g.applyRayleighQuotientIteration(eps,s,x,l); break; case 5: g.applyRayleighQuotientIteration<Diag,true>(eps,s,x,l); break; case 6: g.applyTLIMEIteration(0.25,0.5,eps,s,0.5,1,ext,x,l); break; default: g.applyTLIMEIteration<Diag,true>(0.25,0.5,eps,s,0.5,1,ext,x,l); } } catch(ISTLError&){ ok=false; }
  if(!ok){ sym_reach("fails"); return; } double n=x[0]*x[0]+x[1]*x[1],r=a*x[0]-l*x[0],t=c*x[1]-l*x[1]; SYM_ASSERT(n>1-1e-9&&n<1+1e-9,"unit vector"); SYM_ASSERT(r*r+t*t<=1.001e-12,"residual"); SYM_ASSERT(g.getIterationCount()>=1&&(int)g.getIterationCount()<=lim,"iteration count"); sym_reach("pair"); }
// direct solver stand-in that works on the matrix it was told last
struct Direct: InverseOperator<V,V> { const M* A; int set=0; double d0=0,d1=0; Alg& g; const M& orig; const double* want=nullptr; Direct(Alg& a,const M& o):A(nullptr),g(a),orig(o){ setMatrix(g.getIterationMatrix()); } void setMatrix(const M& m,bool=true){ A=&m; d0=m[0][0]; d1=m[1][1]; set++; }
  void apply(V& x,V& b,InverseOperatorResult&) override { SYM_EQ(d0,orig[0][0]-*want,"matrix the solver was given"); SYM_EQ(d1,orig[1][1]-*want,"matrix the solver was given"); SYM_EQ((*A)[0][1],orig[0][1],"offdiagonal entry"); V e(x),r(x); e=0.0; e[0]=1.0; g.getIterationOperator().apply(e,r); SYM_EQ(r[0],orig[0][0]-*want,"operator"); x[0]=3; x[1]=4; }
  void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
namespace Dune { template<> struct IsDirectSolver<Direct>: std::true_type {}; }
SYM_HARNESS(sequence,SYM_REAL,"done"){ auto w=full<2,2>(); M A; build(A,w); fillvals(A,w); sym_assume(A[0][1]==A[1][0]); Alg g(A,1); double eps=1e100; std::unique_ptr<Direct> s; bool none=false; try{ g.getIterationCount(); } catch(ISTLError&){ none=true; } SYM_ASSERT(none,"no iterations before the first run");
  struct Any: InverseOperator<V,V> { void apply(V& x,V&,InverseOperatorResult&) override { x[0]=1.0; x[1]=0.0; } void apply(V& x,V& b,double,InverseOperatorResult& r) override { apply(x,b,r); } SolverCategory::Category category() const override { return SolverCategory::sequential; } } any;
  int steps=sym_tier()?3:2; for(int k=0;k<steps;k++){ double mu=sym_real("shift"),l=0; V x(2); x[0]=1.0; x[1]=0.0; bool direct=s||decided(sym_bool("direct")); if(direct&&!s) s=std::make_unique<Direct>(g,A); try{ if(!direct) g.applyInverseIteration<Any,true>(mu,eps,any,x,l); else if(decided(sym_bool("rqi"))){ l=mu; s->want=&l; g.applyRayleighQuotientIteration<Direct,true>(eps,*s,x,l); } else { s->want=&mu; g.applyInverseIteration<Direct,true>(mu,eps,*s,x,l); } SYM_EQ((int)g.getIterationCount(),1,"iterations of the last run"); } catch(ISTLError&){} const M& I=g.getIterationMatrix(); V e(2),r(2); for(int j=0;j<2;j++){ e=0.0; e[j]=1.0; g.getIterationOperator().apply(e,r); for(int i=0;i<2;i++) SYM_EQ(r[i],I[i][j],"iteration matrix equals the iteration operator"); V y(2); y[0]=sym_real("y"); y[1]=sym_real("y"); auto o=flat<double>(y); double al=sym_real("alpha"); g.getIterationOperator().applyscaleadd(al,e,y); for(int i=0;i<2;i++) SYM_EQ(y[i],o[i]+al*I[i][j],"iteration operator, scaled"); } } sym_reach("done"); }
