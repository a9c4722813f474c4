// C19: preconditioners apply their documented operator and keep the defect
// BOUNDS: every pattern with diagonal of 2x2 matrices with 2x2 blocks and of 3x3 matrices with 1x1 blocks and numbers (more than one step: 2x2); all values; 0..2 (scalar 2x2: 0..3) steps; all relaxation factors (for ILU and DILU: 1 or more than 1e-10 away from 1); fill levels 0..2; resorted or not; construction from parameters, from a matrix or an operator with a parameter tree (present and absent keys)
// ASSUME: the required pivots are nonsingular; ILDL: symmetric diagonal blocks
#include "ref.h"
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
enum { P_JAC,P_SOR,P_BSOR,P_GS,P_SSOR,P_ILU,P_DILU,P_ILDL,P_RICH,NP };
template<class B,class V,int n> static void run(int kind,int steps){
  const int k=BS<B>::n; typedef BCRSMatrix<B> M; typedef BlockVector<V> X; typedef MatrixAdapter<M,X,X> Op; auto w=pattern<n,n>(true); if(kind==P_RICH) w=full<n,n>(); M A; build(A,w); fillvals(A,w);
  if(kind==P_ILDL) for(int i=0;i<n;i++) if constexpr(!std::is_same_v<B,double>) for(int p=0;p<k;p++) for(int q=0;q<p;q++) A[i][i][q][p]=A[i][i][p][q];
  auto D=dense(A); auto pw=vec(w); int how=sym_concrete_l(sym_int("construction",0,3)); // parameters, tree of a matrix, tree of an operator, empty tree
  double om=1.0; int lev=0; bool resort=false; if(kind==P_ILU){ lev=sym_concrete_l(sym_int("level",0,2)); resort=sym_concrete_l(sym_bool("resort")); }
  ParameterTree pt; auto op=std::make_shared<const Op>(A); std::shared_ptr<const AssembledLinearOperator<M,X,X>> aop=op;
  if(how==0){ om=sym_real("w"); if(kind==P_ILU||kind==P_DILU) sym_assume(om==1.0||om>1.0+1e-10||om<1.0-1e-10); }
  else if(how<3){ om=0.75; pt["relaxation"]="0.75"; pt["iterations"]=std::to_string(steps); pt["n"]=std::to_string(lev); pt["resort"]=resort?"true":"false"; }
  else { steps=1; lev=0; resort=false; }
  std::shared_ptr<Preconditioner<X,X>> P; typedef SeqSOR<M,X,X> S; std::shared_ptr<S> sor;
  auto mk=[&]<class Q>(std::type_identity<Q>)->std::shared_ptr<Q>{ if(how==0) return std::make_shared<Q>(A,steps,om); if(how==1) return std::make_shared<Q>(A,pt); return std::make_shared<Q>(aop,pt); };
  auto mk1=[&]<class Q>(std::type_identity<Q>)->std::shared_ptr<Q>{ if(how==0) return std::make_shared<Q>(A,om); if(how==1) return std::make_shared<Q>(A,pt); return std::make_shared<Q>(aop,pt); };
  // reference first: it assumes the pivots
  X d(n); fillv(d,"d"); auto fd=flat<double>(d); DV<double> want(n*k,0.0);
  switch(kind){ case P_JAC: case P_SOR: case P_BSOR: case P_GS: case P_SSOR: { auto Di=diaginv(D,k); for(int s=0;s<steps;s++) if(kind==P_SSOR){ relax(SORF,D,k,Di,want,fd,om); relax(SORB,D,k,Di,want,fd,om); } else relax(kind==P_JAC?(int)H::JAC:kind==P_BSOR?(int)H::SORB:(int)H::SORF,D,k,Di,want,fd,om); break; }
    case P_ILU: want=scl(om,ilu(D,vec(fillpat(w,lev)),k).solve(fd)); break; case P_DILU: want=scl(om,dilu(D,pw,k).solve(fd)); break; case P_ILDL: want=scl(om,ldl(D,pw,k).solve(fd)); break; default: want=scl(om,fd); }
  switch(kind){ case P_JAC: P=mk(std::type_identity<SeqJac<M,X,X>>()); break; case P_SOR: case P_BSOR: P=sor=mk(std::type_identity<S>()); break; case P_GS: P=mk(std::type_identity<SeqGS<M,X,X>>()); break; case P_SSOR: P=mk(std::type_identity<SeqSSOR<M,X,X>>()); break;
    case P_ILU: { typedef SeqILU<M,X,X> Q; if(how==0){ if(lev==0&&sym_bool("short form")) P=std::make_shared<Q>(A,om,resort); else P=std::make_shared<Q>(A,lev,om,resort); } else if(how==1) P=std::make_shared<Q>(A,pt); else P=std::make_shared<Q>(aop,pt); break; }
    case P_DILU: P=mk1(std::type_identity<SeqDILU<M,X,X>>()); break; case P_ILDL: P=mk1(std::type_identity<SeqILDL<M,X,X>>()); break;
    default: if(how==0) P=std::make_shared<Richardson<X,X>>(om); else P=std::make_shared<Richardson<X,X>>(pt); }
  SYM_ASSERT(P->category()==SolverCategory::sequential,"category");
  X x(n),b(n); fillv(x,"x"); fillv(b,"b"); auto fx=flat<double>(x),fb=flat<double>(b); P->pre(x,b); eqv(flat<double>(x),fx,"pre keeps the solution"); eqv(flat<double>(b),fb,"pre keeps the right-hand side");
  X v(n); for(int t=0;t<2;t++){ v=0; if(kind==P_BSOR) sor->template apply<false>(v,d); else if(kind==P_SOR&&t) sor->template apply<true>(v,d); else P->apply(v,d); eqv(flat<double>(v),want,t?"same result again":"documented operator"); eqv(flat<double>(d),fd,"defect unchanged"); }
  P->post(x); eqv(flat<double>(x),fx,"post keeps the solution"); eqm(dense(A),D,"matrix unchanged"); sym_reach(how==0?"parameters":how==1?"tree":how==2?"operator":"defaults"); }
#define ALL "parameters,tree,operator,defaults"
typedef FieldMatrix<double,1,1> B1; typedef FieldVector<double,1> V1; typedef FieldMatrix<double,2,2> B2; typedef FieldVector<double,2> V2;
SYM_HARNESS(scalar3,SYM_REAL,ALL){ run<B1,V1,3>(sym_concrete_l(sym_int("kind",0,NP-1)),1); }
SYM_HARNESS(numbers3,SYM_REAL,ALL){ run<double,double,3>(sym_concrete_l(sym_int("kind",0,NP-1)),1); }
SYM_HARNESS(scalar2,SYM_REAL,ALL){ run<B1,V1,2>(sym_concrete_l(sym_int("kind",0,P_SSOR)),sym_concrete_l(sym_int("steps",0,3))); }
SYM_HARNESS(scalar3_steps,SYM_REAL,ALL){ int k=sym_concrete_l(sym_int("kind",0,sym_tier()?P_SSOR:P_GS)); run<B1,V1,3>(k,2); }
SYM_HARNESS(dense2,SYM_REAL,ALL){ run<B2,V2,2>(sym_concrete_l(sym_int("kind",0,NP-1)),1); }
// a solver used as preconditioner: the defect is passed as a copy
struct Inv : InverseOperator<BlockVector<V2>,BlockVector<V2>> { typedef BlockVector<V2> X; double* s; int c=0; SolverCategory::Category cat=SolverCategory::sequential; void apply(X& x,X& b,InverseOperatorResult& r) override { c++; r.clear(); for(std::size_t i=0;i<x.size();i++) for(int j=0;j<2;j++){ x[i][j]=s[2*i+j]*b[i][j]; b[i][j]=0; } } void apply(X& x,X& b,double,InverseOperatorResult& r) override { sym_fail("no reduction was requested"); } SolverCategory::Category category() const override { return cat; } };
SYM_HARNESS(inverse_operator,SYM_REAL,"done,refused"){ typedef BlockVector<V2> X; Inv I; double s[4]; for(auto&e:s) e=sym_real("s"); I.s=s; X v(2),d(2),x(2),b(2); fillv(d,"d"); fillv(x,"x"); fillv(b,"b"); auto fd=flat<double>(d),fx=flat<double>(x),fb=flat<double>(b); if(sym_bool("checked category")){ I.cat=sym_bool("sequential")?SolverCategory::sequential:SolverCategory::overlapping; bool ok=true; try { InverseOperator2Preconditioner<Inv,SolverCategory::sequential> P(I); } catch(InvalidStateException&){ ok=false; } SYM_ASSERT(ok==(I.cat==SolverCategory::sequential),"category"); if(!ok){ sym_reach("refused"); return; } }
  InverseOperator2Preconditioner<Inv> P(I); SYM_ASSERT(P.category()==I.cat,"category"); P.pre(x,b); for(int t=0;t<2;t++){ v=0; P.apply(v,d); auto fv=flat<double>(v); for(int i=0;i<4;i++) SYM_EQ(fv[i],s[i]*fd[i],"applies the solver"); eqv(flat<double>(d),fd,"defect unchanged"); } P.post(x); eqv(flat<double>(x),fx,"solution unchanged"); eqv(flat<double>(b),fb,"right-hand side unchanged"); SYM_EQ(I.c,2,"one solve per application"); sym_reach("done"); }
// missing diagonal entries: the factorizations always refuse
SYM_HARNESS(missing,SYM_REAL,"refused"){ const int n=3; auto w=pattern<n,n>(false); bool ok=true; for(int i=0;i<n;i++) ok=ok&&w[i][i]; sym_assume(!ok); typedef BCRSMatrix<B1> M; typedef BlockVector<V1> X; M A; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=i==j?8.0:-1.0; bool got=false; int k=sym_concrete_l(sym_int("kind",0,3)); try { if(k==0) SeqILU<M,X,X> P(A,1.0); if(k==1) SeqILU<M,X,X> P(A,1.0,true); if(k==2) SeqDILU<M,X,X> P(A,1.0); if(k==3) SeqILDL<M,X,X> P(A,1.0); } catch(ISTLError&){ got=true; } SYM_ASSERT(got,"missing diagonal is refused"); sym_reach("refused"); }
