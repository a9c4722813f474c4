// C28: multigrid cycles
// BOUNDS: matrices on chains of 4-6 unknowns plus optional extra couplings (all combinations), two and three levels, pre and post smoothing 0..2, V and W cycles, additive variant, Jacobi, SOR, SSOR, Gauss-Seidel and ILU smoothers, arbitrary damping; all matrix values with nonzero pivots, right hand sides, relaxation factors and (diagonal) coarse solvers; repeated application and renewed setup; one restriction: values of the three level cycles are partly fixed in the quick tier
// ASSUME: the smoother classes themselves do what C16, C17 and C19 establish (the reference calls them); unknowns are strongly connected by the criterion that counts every entry
#include "flat.h"
#include "ref.h"
#include <bitset>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include "amgref.h"
template<class B,template<class,class,class,int> class SM,int n> static void cycle(int levels,bool choices,int diag,int free,int maxpre=2,int maxpost=2){ typedef Setup<B> T; typedef typename T::M M; typedef typename T::X X; typedef SM<M,X,X,1> S; typedef Amg::AMG<typename T::Op,X,S> AMG;
  Pat<n,n> w=band<n,n>(); if(choices){ w[0][2]=w[2][0]=decided(sym_bool("w")); w[1][3]=w[3][1]=decided(sym_bool("w")); }
  M A; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) number(A[i][j],i,j);
  typename T::Op op(A); bool few=levels>2||BS<B>::n>1; double damp=few?1.5:sym_real("damp"); double rel=few?0.5:sym_real("relax"); typename T::Crit crit; params(crit,levels,damp);
  int pre=sym_concrete_l(sym_int("pre",0,maxpre)),post=sym_concrete_l(sym_int("post",0,maxpost)),gamma=levels>2?sym_concrete_l(sym_int("gamma",1,2)):1; bool additive=pre==1&&post==1&&gamma==1&&decided(sym_bool("additive")); crit.setNoPreSmoothSteps(pre); crit.setNoPostSmoothSteps(post); crit.setGamma(gamma); crit.setAdditive(additive);
  typename T::Hier h(std::make_shared<typename T::Op>(op)); h.template build<NegateSet<Amg::SequentialInformation::OwnerSet>>(crit); SYM_ASSERT(h.isBuilt(),"built"); SYM_EQ((long)h.levels(),(long)levels,"levels"); galerkin<B>(h,"Galerkin matrices");
  int kd=0,ko=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]&&(i==j?kd++<diag:ko++<free)){ fill(A[i][j],"a"); for(auto& r:A[i][j]) for(auto& e:r) sym_assume(e!=0.0); } h.recalculateGalerkin(NegateSet<Amg::SequentialInformation::OwnerSet>()); galerkin<B>(h,"recalculated Galerkin matrices");
  Coarse<M,X> cs; cs.set(h.matrices().coarsest()->getmat()); typename AMG::SmootherArgs args; args.iterations=1; args.relaxationFactor=rel; { AMG amg(h,cs,args,crit);
  SYM_EQ((long)amg.levels(),(long)levels,"levels of the preconditioner"); SYM_ASSERT(amg.category()==SolverCategory::sequential,"category");
  Ref<B,S> ref(h,cs,rel); ref.gamma=gamma; ref.pre=pre; ref.post=post; ref.damp=damp; ref.additive=additive;
  X x(n),b(n),d(n),v(n); x=0; fillv(b,"b"); fillv(d,"d"); X b0(b); auto D0=dense(A); amg.pre(x,b); same(b,b0,"right hand side kept"); v=0; amg.apply(v,d); X e=ref.cycle(0,d); same(v,e,"cycle"); if(additive) sym_reach("additive"); if(gamma==2) sym_reach("W");
  X v2(n); v2=0; amg.apply(v2,b); same(v2,ref.cycle(0,b),"second application"); X v3(n); v3=0; amg.apply(v3,d); same(v3,e,"independent of earlier applications"); amg.post(x);
  { AMG copy(amg); X y(n),c(b); y=0; copy.pre(y,c); X v4(n); v4=0; copy.apply(v4,d); same(v4,e,"copy"); copy.post(y); }
  eqm(dense(A),D0,"matrix unchanged"); } }
template<class M,class X,class Y,int l> using Jac=SeqJac<M,X,Y,l>; template<class M,class X,class Y,int l> using Sor=SeqSOR<M,X,Y,l>; template<class M,class X,class Y,int l> using Ssor=SeqSSOR<M,X,Y,l>; template<class M,class X,class Y,int l> using Gs=SeqGS<M,X,Y,l>; template<class M,class X,class Y,int l> using Ilu=SeqILU<M,X,Y,l>;
SYM_HARNESS(jacobi,SYM_REAL,"additive"){ cycle<F1,Jac,4>(2,true,99,99); }
SYM_HARNESS(sor,SYM_REAL,"additive"){ cycle<F1,Sor,4>(2,false,99,sym_tier()?99:2); }
SYM_HARNESS(ssor,SYM_REAL,"additive"){ cycle<F1,Ssor,3>(2,false,99,99,1,1); }
SYM_HARNESS(gs,SYM_REAL,"additive"){ cycle<F1,Gs,4>(2,false,99,sym_tier()?99:2); }
SYM_HARNESS(ilu,SYM_REAL,"additive"){ cycle<F1,Ilu,3>(2,false,1,1,1,1); }
SYM_HARNESS(threelevels,SYM_REAL,"W"){ cycle<F1,Jac,6>(3,false,1,1,1,1); }
SYM_HARNESS(threelevels_sor,SYM_REAL,"W"){ cycle<F1,Sor,6>(3,false,1,0,1,1); }
SYM_HARNESS(blocks,SYM_REAL,"additive"){ cycle<F2,Jac,3>(2,false,sym_tier()?1:0,1,1,1); }
