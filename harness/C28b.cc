// C28: two-level method, FastAMG, K-cycle, hierarchies
// BOUNDS: chains of 4-6 unknowns, two and three levels, pre and post smoothing 0..2 (two-level method), V and W cycles, symmetric matrices for FastAMG (1x1 and 2x2 blocks); hierarchies of up to 4 levels in every order of insertion
#include "flat.h"
#include "ref.h"
#include <bitset>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include "amgref.h"
typedef Setup<F1> T1; typedef T1::M M1; typedef T1::X X1; typedef T1::Op Op1;
template<class M,int n> static void chain(M& A){ auto w=band<n,n>(); build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) number(A[i][j],i,j); }
// two-level method with a coarse solver of our own
struct Policy { typedef Op1 Operator; typedef Coarse<M1,X1> CoarseLevelSolver; std::vector<Coarse<M1,X1>*>* made; template<class P> CoarseLevelSolver* createCoarseLevelSolver(P& p){ auto c=new Coarse<M1,X1>; c->set(p.getCoarseLevelOperator()->getmat()); made->push_back(c); return c; } };
template<class S> static void twolevel(int maxsteps=2){ constexpr int n=4; M1 A; chain<M1,n>(A); for(int i=0;i<n;i++){ fill(A[i][i],"a"); sym_assume(A[i][i][0][0]!=0.0); } Op1 op(A); double damp=sym_real("damp"),rel=sym_real("relax"); T1::Crit crit; params(crit,2,damp); int pre=sym_concrete_l(sym_int("pre",0,maxsteps)),post=sym_concrete_l(sym_int("post",0,maxsteps));
  auto sm=std::make_shared<S>(A,1,rel); Amg::AggregationLevelTransferPolicy<Op1,T1::Crit> transfer(crit); std::vector<Coarse<M1,X1>*> made; Policy policy{&made}; Amg::TwoLevelMethod<Op1,Policy,S> tl(op,sm,transfer,policy,pre,post); SYM_EQ((long)made.size(),1L,"one coarse solver");
  T1::Hier h(std::make_shared<Op1>(op)); h.build<NegateSet<Amg::SequentialInformation::OwnerSet>>(crit); eqm(dense(*made[0]->A),dense(h.matrices().coarsest()->getmat()),"coarse matrix"); Ref<F1,S> ref(h,*made[0],rel); ref.pre=pre; ref.post=post; ref.damp=damp;
  X1 x(n),b(n),d(n),v(n); x=0; v=0; fillv(b,"b"); fillv(d,"d"); tl.pre(x,b); tl.apply(v,d); X1 e=ref.cycle(0,d); same(v,e,"two-level cycle"); v=0; tl.apply(v,b); same(v,ref.cycle(0,b),"second application"); { Amg::TwoLevelMethod<Op1,Policy,S> copy(tl); v=0; copy.apply(v,d); same(v,e,"copy"); } v=0; tl.apply(v,d); same(v,e,"after the copy is gone"); tl.post(x); SYM_ASSERT(tl.category()==SolverCategory::sequential,"category"); sym_reach("done"); }
SYM_HARNESS(twolevel_jacobi,SYM_REAL,"done"){ twolevel<SeqJac<M1,X1,X1>>(); }
SYM_HARNESS(twolevel_ssor,SYM_REAL,"done"){ typedef SeqSSOR<M1,X1,X1> S; twolevel<S>(1); }
// the coarse solver is one cycle of an AMG
SYM_HARNESS(onestep,SYM_REAL,"done"){ constexpr int n=8; typedef SeqJac<M1,X1,X1> S; M1 A; chain<M1,n>(A); Op1 op(A); T1::Crit crit; params(crit,2,1.5); typedef Amg::OneStepAMGCoarseSolverPolicy<Op1,S,T1::Crit> Policy; Policy::SmootherArgs args; args.iterations=1; args.relaxationFactor=0.5; Policy policy(args,crit); auto sm=std::make_shared<S>(A,1,0.5); Amg::AggregationLevelTransferPolicy<Op1,T1::Crit> transfer(crit);
  typedef Amg::TwoLevelMethod<Op1,Policy,S> TL; TL tl(op,sm,transfer,policy); X1 x(n),b(n),d(n),v(n),v2(n),v3(n); x=0; b=1; double t=sym_real("t"); sym_assume(t>1||t<-1); for(int i=0;i<n;i++) d[i]=t*(1+i%3); v=0; tl.pre(x,b); TL early(tl); tl.apply(v,d); v2=0; tl.apply(v2,d); same(v2,v,"repeated"); TL late(tl); v3=0; late.apply(v3,d); same(v3,v,"copy after use"); v3=0; early.apply(v3,d); same(v3,v,"copy before use"); v2=0; tl.apply(v2,d); same(v2,v,"original after copies"); sym_reach("done"); }
// FastAMG
template<class B,int n> static void fast(int levels,int gmax){ typedef Setup<B> T; typedef typename T::M M; typedef typename T::X X; M A; chain<M,n>(A); typename T::Op op(A); typename T::Crit crit; double damp=levels>2||BS<B>::n>1?1.5:sym_real("damp"); params(crit,levels,damp); int gamma=sym_concrete_l(sym_int("gamma",1,gmax)); crit.setNoPreSmoothSteps(1); crit.setNoPostSmoothSteps(1); crit.setGamma(gamma); typename T::Hier h(std::make_shared<typename T::Op>(op)); h.template build<NegateSet<Amg::SequentialInformation::OwnerSet>>(crit); SYM_EQ((long)h.levels(),(long)levels,"levels");
  for(int i=0;i<n;i++){ if constexpr(BS<B>::n==1){ if(i==0||levels==2){ fill(A[i][i],"a"); sym_assume(A[i][i][0][0]!=0.0); } } else { for(int p=0;p<BS<B>::n;p++) for(int q=0;q<p;q++) A[i][i][p][q]=A[i][i][q][p]; if(i==0){ fill(A[0][1],"a"); for(auto& r:A[0][1]) for(auto& e:r) sym_assume(e!=0.0); } } if(i+1<n) for(int p=0;p<BS<B>::n;p++) for(int q=0;q<BS<B>::n;q++) A[i+1][i][q][p]=A[i][i+1][p][q]; } h.recalculateGalerkin(NegateSet<Amg::SequentialInformation::OwnerSet>());
  Coarse<M,X> cs; cs.set(h.matrices().coarsest()->getmat()); typedef Amg::FastAMG<typename T::Op,X> AMG; typedef SeqSOR<M,X,X> S; AMG amg(h,cs,crit); Ref<B,S> ref(h,cs,1.0); ref.gamma=gamma; ref.damp=damp; X x(n),b(n),d(n),v(n); x=0; fillv(b,"b"); fillv(d,"d"); X b0(b); amg.pre(x,b); same(b,b0,"right hand side kept"); v=0; amg.apply(v,d); X e=ref.cycle(0,d); same(v,e,"cycle"); v=0; amg.apply(v,b); same(v,ref.cycle(0,b),"second application"); { AMG copy(amg); X y(n),c(b); y=0; copy.pre(y,c); v=0; copy.apply(v,d); same(v,e,"copy"); copy.post(y); } v=0; amg.apply(v,d); same(v,e,"third application"); cs.ok=false; bool thrown=false; v=0; try{ amg.apply(v,d); }catch(MathError&){ thrown=true; } SYM_ASSERT(thrown,"failed coarse solve"); cs.ok=true; v=0; amg.apply(v,d); same(v,e,"after a failure"); amg.post(x); if(gamma==2) sym_reach("W"); sym_reach("done"); }
SYM_HARNESS(fast_two,SYM_REAL,"done"){ fast<F1,4>(2,1); }
SYM_HARNESS(fast_three,SYM_REAL,"done,W"){ fast<F1,6>(3,2); }
SYM_HARNESS(fast_blocks,SYM_REAL,"done"){ fast<F2,3>(2,1); }
// K cycle: two Richardson steps as Krylov method give the W cycle
static double expectRed; static int expectIt;
template<class X> struct Steps2 : InverseOperator<X,X> { LinearOperator<X,X>& A; Preconditioner<X,X>& P; static inline int live=0; ~Steps2(){ live--; } Steps2(LinearOperator<X,X>& a,ScalarProduct<X>& sp,Preconditioner<X,X>& p,double red,int maxit,int verbose):A(a),P(p){ SYM_ASSERT(red==expectRed,"reduction on the levels"); SYM_EQ((long)maxit,(long)expectIt,"steps on the levels"); SYM_EQ((long)verbose,0L,"verbosity"); (void)sp; live++; }
  void apply(X& x,X& b,InverseOperatorResult& res) override { P.pre(x,b); A.applyscaleadd(-1.0,x,b); for(int i=0;i<2;i++){ X c(x); c=0; P.apply(c,b); x+=c; A.applyscaleadd(-1.0,c,b); } P.post(x); res.converged=true; } void apply(X& x,X& b,double,InverseOperatorResult& res) override { apply(x,b,res); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<int n> static void kcycle(int levels){ typedef SeqJac<M1,X1,X1> S; typedef Amg::KAMG<Op1,X1,S,Amg::SequentialInformation,Steps2<X1>> K; M1 A; chain<M1,n>(A); Op1 op(A); T1::Crit crit; double damp=1.5; params(crit,levels,damp); int pre=sym_concrete_l(sym_int("pre",0,1)),post=sym_concrete_l(sym_int("post",0,1)); crit.setNoPreSmoothSteps(pre); crit.setNoPostSmoothSteps(post); T1::Hier h(std::make_shared<Op1>(op)); h.build<NegateSet<Amg::SequentialInformation::OwnerSet>>(crit); SYM_EQ((long)h.levels(),(long)levels,"levels"); fill(A[0][0],"a"); sym_assume(A[0][0][0][0]!=0.0); h.recalculateGalerkin(NegateSet<Amg::SequentialInformation::OwnerSet>());
  Coarse<M1,X1> cs; cs.set(h.matrices().coarsest()->getmat()); K::SmootherArgs args; args.iterations=1; args.relaxationFactor=0.5; expectRed=0.25; expectIt=5; K amg(h,cs,args,crit,5,0.25); SYM_EQ((long)amg.maxlevels(),(long)levels,"levels"); Ref<F1,S> ref(h,cs,0.5); ref.pre=pre; ref.post=post; ref.damp=damp; ref.gamma=2; X1 x(n),b(n),d(n),v(n); fillv(b,"b"); fillv(d,"d"); X1 e=ref.cycle(0,d); for(int round=0;round<2;round++){ x=0; X1 c(b); amg.pre(x,c); v=0; amg.apply(v,d); same(v,e,"K cycle"); v=0; amg.apply(v,b); same(v,ref.cycle(0,b),"second application"); amg.post(x); SYM_EQ((long)Steps2<X1>::live,0L,"solvers of the levels released"); } sym_reach("done"); }
SYM_HARNESS(kcycle_two,SYM_REAL,"done"){ kcycle<4>(2); }
SYM_HARNESS(kcycle_three,SYM_REAL,"done"){ kcycle<6>(3); }
SYM_HARNESS(kcycle_more,SYM_REAL,"done"){ if(sym_tier()) kcycle<8>(4); else kcycle<7>(3); }
SYM_HARNESS(kcycle_one,SYM_REAL,"done"){ kcycle<2>(1); }
// accessor of the two grid method
SYM_HARNESS(twogrid,SYM_REAL,"done"){ typedef Amg::AMG<Op1,X1,SeqJac<M1,X1,X1>> AMG; M1 A; chain<M1,4>(A); Op1 op(A); T1::Crit crit; params(crit,2,1.0); T1::Hier h(std::make_shared<Op1>(op)); h.build<NegateSet<Amg::SequentialInformation::OwnerSet>>(crit); auto cs=std::make_shared<Coarse<M1,X1>>(); cs->set(h.matrices().coarsest()->getmat()); AMG amg(h,*cs,AMG::SmootherArgs(),crit); Amg::KAmgTwoGrid<AMG> tg(amg,cs); SYM_ASSERT(tg.coarseSolver()==cs.get(),"coarse solver"); SYM_ASSERT(tg.category()==SolverCategory::sequential,"category"); sym_reach("done"); }
