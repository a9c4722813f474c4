// C35: vector iterations for eigenvalues return unit vectors with the requested residual or fail
// BOUNDS: symmetric 2x2 matrices (two 1x1 blocks, one 2x2 block), start vectors and tolerances with all real values, at most 2 iterations; linear solvers are stand-ins: one that returns any vector at all (modes that avoid the linear solver crime), one that returns any exact solution; shifts, radii and switching parameters of TLIME arbitrary
// ASSUME: the solver returns nonzero vectors of norm between 2^-10 and 2^10, start vectors are nonzero
#include "solv.h"
#include <iomanip>
#include <iostream>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
#include "mat.h"
using namespace Dune; using namespace H;
template<int k> using Mt=BCRSMatrix<FieldMatrix<double,k,k>>; template<int k> using Vc=BlockVector<FieldVector<double,k>>;
template<int k> double& at(Vc<k>& v,int i){ return v[i/k][i%k]; } template<int k> double at(const Vc<k>& v,int i){ return v[i/k][i%k]; }
template<int k> double at(const Mt<k>& A,int i,int j){ return A[i/k][j/k][i%k][j%k]; }
template<int k> using Alg=PowerIteration_Algorithms<Mt<k>,Vc<k>>;
// stand-in solver; direct ones are told about the iteration matrix
template<int k,bool direct> struct Solver: InverseOperator<Vc<k>,Vc<k>> { Alg<k>& alg; const Mt<k>& A; const Mt<k>* S=nullptr; bool exact,fix=false; const double* mu; int calls=0; std::vector<std::array<double,2>> sol; std::array<double,4> seen{};
  Solver(Alg<k>& g,const Mt<k>& m,bool e,const double* s):alg(g),A(m),exact(e),mu(s){ if constexpr(direct) setMatrix(alg.getIterationMatrix()); }
  void setMatrix(const Mt<k>& M,bool=true){ S=&M; for(int i=0;i<2;i++) for(int j=0;j<2;j++) seen[2*i+j]=at<k>(M,i,j); }
  void apply(Vc<k>& x,Vc<k>& b,InverseOperatorResult&) override { calls++;
    if constexpr(direct){ for(int i=0;i<2;i++) for(int j=0;j<2;j++) SYM_EQ(seen[2*i+j],at<k>(A,i,j)-(i==j?*mu:0.0),"matrix the solver was given is A - mu I"); }
    else { Vc<k> e(x),r(x); for(int j=0;j<2;j++){ e=0.0; at<k>(e,j)=1.0; alg.getIterationOperator().apply(e,r); for(int i=0;i<2;i++) SYM_EQ(at<k>(r,i),at<k>(A,i,j)-(i==j?*mu:0.0),"iteration operator is A - mu I"); } }
    double p,q; if(exact){ if((int)sol.size()<calls){ double u=at<k>(A,0,0)-*mu,v=at<k>(A,0,1),w=at<k>(A,1,0),z=at<k>(A,1,1)-*mu,d=u*z-v*w,b0=at<k>(b,0),b1=at<k>(b,1); sym_assume(d>1.0/1024||d<-1.0/1024); sol.push_back({(b0*z-v*b1)/d,(u*b1-w*b0)/d}); } p=sol[calls-1][0]; q=sol[calls-1][1]; SYM_EQ(at<k>(A,0,0)*p-*mu*p+at<k>(A,0,1)*q,at<k>(b,0),"right hand side"); SYM_EQ(at<k>(A,1,0)*p+at<k>(A,1,1)*q-*mu*q,at<k>(b,1),"right hand side"); }
    else if(fix&&calls>1){ p=sym_exact_d(3.0); q=sym_exact_d(4.0); }
    else { p=sym_real("y"),q=sym_real("y"); double s=p*p+q*q; sym_assume(s>1.0/1024&&s<1024.0); }
    at<k>(x,0)=p; at<k>(x,1)=q; at<k>(b,0)=sym_real("b"); at<k>(b,1)=sym_real("b"); }
  void apply(Vc<k>& x,Vc<k>& b,double,InverseOperatorResult& r) override { apply(x,b,r); }
  SolverCategory::Category category() const override { return SolverCategory::sequential; } };
namespace Dune { template<int k> struct IsDirectSolver<Solver<k,true>>: std::true_type {}; }
template<int k> Mt<k> mtx(double a,double b,double c){ int n=2/k; Mt<k> A(n,n,n*n,Mt<k>::random); for(int i=0;i<n;i++) A.setrowsize(i,n); A.endrowsizes(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) A.addindex(i,j); A.endindices(); double d[2][2]={{a,b},{b,c}}; for(int i=0;i<2;i++) for(int j=0;j<2;j++) A[i/k][j/k][i%k][j%k]=d[i][j]; return A; }
template<int k> struct Prob { double a=sym_real("a"),b,c; Mt<k> A{mtx<k>(a,b,c)}; Vc<k> x; double eps=sym_real("epsilon");
  Prob(bool diag=false,bool few=false):b(diag?0.0:sym_real("b")),c(few?sym_exact_d(4.0):sym_real("c")),x(2/k){ double p=sym_real("x"),q=sym_real("x"); sym_assume(p*p+q*q>1.0/1024); at<k>(x,0)=p; at<k>(x,1)=q; sym_assume(eps>0.0&&eps<1024.0); }
  // the returned pair, checked through r = A x - lambda x
  void pair(double l){ double p=at<k>(x,0),q=at<k>(x,1); SYM_EQ(p*p+q*q,1.0,"unit vector"); double r=a*p+b*q-l*p,s=b*p+c*q-l*q; SYM_ASSERT(std::sqrt(r*r+s*s)<=eps,"residual within the tolerance"); } };
// starts with a vector whose exact solution is known: x = (A - mu I) y for arbitrary y, which the algorithm scales to unit length
template<int k,class S> void start(Prob<k>& P,S& s,double mu,bool fixed=false){ double p=fixed?sym_exact_d(3.0):sym_real("y"),q=fixed?sym_exact_d(4.0):sym_real("y"); sym_assume(p*p+q*q>1.0/1024); double u=P.a*p+P.b*q-mu*p,v=P.b*p+P.c*q-mu*q; double n=u*u+v*v; sym_assume(n>1.0/1024); at<k>(P.x,0)=u; at<k>(P.x,1)=v; n=std::sqrt(n); s.sol.push_back({p/n,q/n}); }
template<class F> bool runs(F f){ try{ f(); return true; } catch(ISTLError&){ return false; } }
template<int k,class S> void finish(Prob<k>& P,Alg<k>& g,bool ok,double l,int lim,S* s=nullptr){ if(ok){ int c=g.getIterationCount(); SYM_ASSERT(c>=1&&c<=lim,"number of iterations"); if(s) SYM_EQ(s->calls,c,"one solve per iteration"); P.pair(l); sym_reach("pair"); } else { if(s) SYM_EQ(s->calls,lim,"fails after the configured number of iterations"); sym_reach("fails"); } }
template<int k> void power(){ Prob<k> P; int lim=sym_concrete_l(sym_int("iterations",0,sym_tier()?2:1)); Alg<k> g(P.A,lim); double l=sym_real("lambda"); double p=at<k>(P.x,0),q=at<k>(P.x,1); double u=P.a*p+P.b*q,v=P.b*p+P.c*q; sym_assume(u*u+v*v>1.0/1024); bool ok=runs([&]{ g.applyPowerIteration(P.eps,P.x,l); }); finish<k,Solver<k,false>>(P,g,ok,l,lim); }
template<int k,bool dir,bool avoid> void inverse(bool shift){ using S=Solver<k,dir>; Prob<k> P; int lim=sym_concrete_l(sym_int("iterations",0,avoid||sym_tier()?2:1)); Alg<k> g(P.A,lim); double l=sym_real("lambda"),mu=shift?sym_real("shift"):0.0; S s(g,P.A,!avoid,&mu); if(!avoid) start<k>(P,s,mu); bool ok=runs([&]{ if(shift) g.template applyInverseIteration<S,avoid>(mu,P.eps,s,P.x,l); else g.template applyInverseIteration<S,avoid>(P.eps,s,P.x,l); }); finish<k>(P,g,ok,l,lim,&s); }
template<int k,bool dir,bool avoid> void rqi(){ using S=Solver<k,dir>; Prob<k> P; int lim=sym_concrete_l(sym_int("iterations",0,avoid||sym_tier()?2:1)); Alg<k> g(P.A,lim); double l=sym_real("lambda"); S s(g,P.A,!avoid,&l); if(!avoid) start<k>(P,s,l); bool ok=runs([&]{ g.template applyRayleighQuotientIteration<S,avoid>(P.eps,s,P.x,l); }); finish<k>(P,g,ok,l,lim,&s); }
SYM_HARNESS(power1,SYM_REAL,"pair,fails"){ power<1>(); }
SYM_HARNESS(power2,SYM_REAL,"pair,fails"){ power<2>(); }
SYM_HARNESS(inverse_avoid,SYM_REAL,"pair,fails"){ inverse<1,false,true>(false); }
SYM_HARNESS(shift_avoid,SYM_REAL,"pair,fails"){ inverse<2,true,true>(true); }
SYM_HARNESS(inverse_exact,SYM_REAL,"pair,fails"){ inverse<2,true,false>(false); }
SYM_HARNESS(shift_exact,SYM_REAL,"pair,fails"){ inverse<1,false,false>(true); }
SYM_HARNESS(rqi_avoid,SYM_REAL,"pair,fails"){ rqi<1,false,true>(); }
SYM_HARNESS(rqi_avoid_direct,SYM_REAL,"pair,fails"){ rqi<1,true,true>(); }
SYM_HARNESS(rqi_exact,SYM_REAL,"pair,fails"){ rqi<1,false,false>(); }
// every solve uses the shift gamma or the current Rayleigh quotient; an eigenvalue is announced only with a vector that proves it
template<int k,bool dir> struct Tlime: Solver<k,dir> { using B=Solver<k,dir>; const double& gamma; const double& l; std::vector<double> q; double m=0; Tlime(Alg<k>& g,const Mt<k>& A,bool e,const double& ga,const double& la):B(g,A,e,&m),gamma(ga),l(la){} 
  void apply(Vc<k>& x,Vc<k>& b,InverseOperatorResult& r) override { double s; if constexpr(dir) s=at<k>(this->A,0,0)-this->seen[0]; else { Vc<k> e(x),t(x); e=0.0; at<k>(e,0)=1.0; this->alg.getIterationOperator().apply(e,t); s=at<k>(this->A,0,0)-at<k>(t,0); } SYM_ASSERT(s==gamma||s==l,"shift is gamma or the Rayleigh quotient"); if(this->calls==0) SYM_EQ(s,gamma,"first shift"); m=s; B::apply(x,b,r); double u=at<k>(x,0),v=at<k>(x,1),a0=at<k>(this->A,0,0)-gamma,a1=at<k>(this->A,0,1),a2=at<k>(this->A,1,1)-gamma; double f=a0*u+a1*v,g=a1*u+a2*v; q.push_back(std::sqrt(f*f+g*g)/std::sqrt(u*u+v*v)); } };
namespace Dune { template<int k> struct IsDirectSolver<Tlime<k,true>>: std::true_type {}; }
template<int k,bool dir,bool avoid> void tlime(int lim,bool diag,int mlim=2,int mlo=0,bool few=false){ using S=Tlime<k,dir>; Prob<k> P(diag,few); Alg<k> g(P.A,lim); double l=sym_real("lambda"),gamma=few?sym_exact_d(1.0):sym_real("gamma"),eta=sym_real("eta"),delta=few?sym_exact_d(0.5):sym_real("delta"); std::size_t m=sym_concrete_l(sym_int("m",mlo,mlim)); bool ext=false; S s(g,P.A,!avoid,gamma,l); s.m=gamma; s.fix=few; if(!avoid) start<k>(P,s,gamma,diag); bool ok=runs([&]{ g.template applyTLIMEIteration<S,avoid>(gamma,eta,P.eps,s,delta,m,ext,P.x,l); }); if(ok&&!ext){ bool f=false; for(double q:s.q) if(q<eta) f=true; SYM_ASSERT(f,"eigenvalue in the interval proved by some iterate"); sym_reach("inside"); } finish<k>(P,g,ok,l,lim,&s); }
SYM_HARNESS(tlime_avoid,SYM_REAL,"pair,fails,inside"){ if(sym_tier()) tlime<1,false,true>(2,false); else tlime<1,false,true>(2,true,0,0,true); }
SYM_HARNESS(tlime_avoid_direct,SYM_REAL,"pair,fails,inside"){ tlime<2,true,true>(1,false); }
SYM_HARNESS(tlime_exact,SYM_REAL,"pair,fails,inside"){ tlime<1,true,false>(1,!sym_tier()); }
SYM_HARNESS(tlime_exact2,SYM_REAL,"pair,fails,inside"){ tlime<2,false,false>(2,true,0,0,!sym_tier()); }
