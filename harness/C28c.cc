// C28: setup of multigrid, special cases, hierarchies
// BOUNDS: chains of 2-6 unknowns with any set of rows without couplings; one to three levels; built-in and own coarse solvers; hierarchies of up to 4 members added on either side
#include "flat.h"
#include "ref.h"
#include <bitset>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include "amgref.h"
extern "C" int rand(){ static unsigned s=1; s=s*1103515245u+12345u; return (s>>1)&0x7fffffff; }
typedef Setup<F1> T1; typedef T1::M M1; typedef T1::X X1; typedef T1::Op Op1; typedef SeqJac<M1,X1,X1> J1; typedef Amg::AMG<Op1,X1,J1> AMG1; typedef NegateSet<Amg::SequentialInformation::OwnerSet> Neg;
template<class M,int n> static void chain(M& A){ auto w=band<n,n>(); build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) number(A[i][j],i,j); }
// rows without couplings: x is set there in advance, they are left out on coarser levels
SYM_HARNESS(borders,SYM_REAL,"border"){ constexpr int n=5; M1 A; chain<M1,n>(A); bool z[n]; int k=0; for(int i=0;i<n;i++){ z[i]=decided(sym_bool("border")); if(z[i]){ k++; for(int j=0;j<n;j++) if(i!=j&&A.exists(i,j)) A[i][j]=0; } } if(n-k<2) return; Op1 op(A); T1::Crit crit; params(crit,2,1.5); T1::Hier h(std::make_shared<Op1>(op)); h.build<Neg>(crit); if(h.levels()<2){ return; }
  for(int i=0;i<n;i++){ fill(A[i][i],"a"); sym_assume(A[i][i][0][0]!=0.0); SYM_ASSERT((**h.aggregatesMaps().begin())[i]!=Amg::AggregatesMap<std::size_t>::ISOLATED||z[i],"only border rows are left out"); } h.recalculateGalerkin(Neg()); galerkin<F1>(h,"Galerkin matrices"); Coarse<M1,X1> cs; cs.set(h.matrices().coarsest()->getmat()); AMG1::SmootherArgs args; args.iterations=1; args.relaxationFactor=0.5; AMG1 amg(h,cs,args,crit); Ref<F1,J1> ref(h,cs,0.5); ref.damp=1.5;
  X1 x(n),b(n),d(n),v(n); fillv(x,"x"); fillv(b,"b"); fillv(d,"d"); X1 x0(x),b0(b); amg.pre(x,b); same(b,b0,"right hand side kept"); for(int i=0;i<n;i++) if(z[i]) SYM_EQ(x[i][0]*A[i][i][0][0],b[i][0],"row without couplings solved"); else SYM_EQ(x[i][0],x0[i][0],"other unknowns untouched"); v=0; amg.apply(v,d); same(v,ref.cycle(0,d),"cycle"); amg.post(x); if(k) sym_reach("border"); }
// pre without hierarchy: the scan only
SYM_HARNESS(dirichlet,SYM_REAL,"some,all"){ constexpr int n=2; auto w=pattern<n,n>(); M1 A; build(A,w); fillvals(A,w); for(int i=0;i<n;i++) if(w[i][i]) sym_assume(A[i][i][0][0]!=0.0); Op1 op(A); T1::Crit crit; params(crit,1,1.6); T1::Hier h(std::make_shared<Op1>(op)); h.build<Neg>(crit); SYM_EQ((long)h.levels(),1L,"one level"); Coarse<M1,X1> cs; cs.set(A); AMG1 amg(h,cs,AMG1::SmootherArgs(),crit); X1 x(n),b(n); fillv(x,"x"); fillv(b,"b"); X1 x0(x); amg.pre(x,b); int c=0; for(int i=0;i<n;i++){ bool dir=w[i][i]; for(int j=0;j<n;j++) if(j!=i&&w[i][j]&&A[i][j][0][0]!=0.0) dir=false; if(dir){ c++; SYM_EQ(x[i][0]*A[i][i][0][0],b[i][0],"row without couplings solved"); } else SYM_EQ(x[i][0],x0[i][0],"other unknowns untouched"); } X1 v(n),d(n),u(n); fillv(d,"d"); X1 keep(d); v=0; u=0; amg.apply(v,d); same(d,keep,"defect is const"); InverseOperatorResult r; cs.apply(u,keep,r); same(v,u,"one level is the coarse solver"); amg.post(x); if(c==n) sym_reach("all"); else if(c) sym_reach("some"); }
// a coarse solver that fails is reported, also later ones are judged on their own
template<bool additive> static void failing(){ constexpr int n=4; M1 A; chain<M1,n>(A); Op1 op(A); T1::Crit crit; params(crit,2,1.5); crit.setAdditive(additive); T1::Hier h(std::make_shared<Op1>(op)); h.build<Neg>(crit); Coarse<M1,X1> cs; cs.set(h.matrices().coarsest()->getmat()); AMG1::SmootherArgs args; AMG1 amg(h,cs,args,crit); X1 x(n),b(n),d(n),v(n); x=0; b=1; fillv(d,"d"); amg.pre(x,b); int s=sym_concrete_l(sym_int("failing",0,7)); X1 good(n); good=0; amg.apply(good,d); for(int k=0;k<3;k++){ cs.ok=!((s>>k)&1); bool thrown=false; v=0; try{ amg.apply(v,d); }catch(MathError&){ thrown=true; } SYM_ASSERT(thrown!=cs.ok,"failure reported"); if(cs.ok) same(v,good,"same result"); } AMG1 copy(amg); cs.ok=true; copy.pre(x,b); v=0; copy.apply(v,d); same(v,good,"copy"); copy.post(x); amg.post(x); sym_reach("done"); }
SYM_HARNESS(failing_multiplicative,SYM_REAL,"done"){ failing<false>(); }
SYM_HARNESS(failing_additive,SYM_REAL,"done"){ failing<true>(); }
// the built-in coarse solver, exact for one unknown; rebuilding the values only
template<int n> static void builtin(int levels,bool additive){ M1 A; chain<M1,n>(A); Op1 op(A); T1::Crit crit; params(crit,levels,1.5); crit.setAdditive(additive); AMG1::SmootherArgs args; args.iterations=1; args.relaxationFactor=0.5; AMG1 amg(op,crit,args); SYM_EQ((long)amg.levels(),(long)levels,"levels"); SYM_EQ((long)amg.maxlevels(),(long)levels,"maximum number of levels"); T1::Hier h(std::make_shared<Op1>(op)); h.build<Neg>(crit); SYM_EQ((long)h.matrices().coarsest()->getmat().N(),1L,"one coarse unknown");
  for(int i=0;i<n;i++) if(i==0||i==1) fill(A[i][i],"a"); for(int i=0;i<2;i++) sym_assume(A[i][i][0][0]!=0.0); h.recalculateGalerkin(Neg()); amg.recalculateHierarchy(); struct Exact : Coarse<M1,X1> { const M1* C; void apply(X1& x,X1& b,InverseOperatorResult& r) override { double a=(*C)[0][0][0][0],c=b[0][0]; sym_assume(a>1e-3||a<-1e-3); sym_assume(c>1e-3||c<-1e-3); x[0][0]=c/a; r.converged=true; } } cs; cs.C=&h.matrices().coarsest()->getmat(); Ref<F1,J1> ref(h,cs,0.5); ref.damp=1.5; ref.additive=additive; X1 x(n),b(n),d(n),v(n); x=0; b=1; fillv(d,"d"); X1 e=ref.cycle(0,d); amg.pre(x,b); v=0; amg.apply(v,d); same(v,e,"cycle"); v=0; amg.apply(v,d); same(v,e,"second application"); amg.post(x); sym_reach("done"); }
SYM_HARNESS(builtin_two,SYM_REAL,"done"){ builtin<2>(2,false); }
SYM_HARNESS(builtin_three,SYM_REAL,"done"){ builtin<4>(3,false); }
SYM_HARNESS(builtin_additive,SYM_REAL,"done"){ builtin<4>(3,true); }
template<int n> static void builtinfast(int levels){ M1 A; chain<M1,n>(A); for(int i=0;i+1<n;i++) A[i+1][i]=A[i][i+1]; auto op=std::make_shared<Op1>(A); T1::Crit crit; params(crit,levels,1.5); crit.setNoPreSmoothSteps(1); crit.setNoPostSmoothSteps(1); bool two=decided(sym_bool("steps")); Amg::Parameters par(crit); if(two) par.setNoPreSmoothSteps(2); typedef Amg::FastAMG<Op1,X1> AMG; typedef SeqSOR<M1,X1,X1> S; AMG amg(op,crit,par); SYM_EQ((long)amg.levels(),(long)levels,"levels"); SYM_EQ((long)amg.maxlevels(),(long)levels,"maximum number of levels"); T1::Hier h(op); h.build<Neg>(crit); SYM_EQ((long)h.matrices().coarsest()->getmat().N(),1L,"one coarse unknown");
  for(int i=0;i<2;i++){ fill(A[i][i],"a"); sym_assume(A[i][i][0][0]!=0.0); } h.recalculateGalerkin(Neg()); amg.recalculateHierarchy(); struct Exact : Coarse<M1,X1> { const M1* C; void apply(X1& x,X1& b,InverseOperatorResult& r) override { double a=(*C)[0][0][0][0],c=b[0][0]; sym_assume(a>1e-3||a<-1e-3); sym_assume(c>1e-3||c<-1e-3); x[0][0]=c/a; r.converged=true; } } cs; cs.C=&h.matrices().coarsest()->getmat(); Ref<F1,S> ref(h,cs,1.0); ref.damp=1.5; X1 x(n),b(n),d(n),v(n); x=0; b=1; fillv(d,"d"); X1 e=ref.cycle(0,d); amg.pre(x,b); v=0; amg.apply(v,d); same(v,e,"cycle"); v=0; amg.apply(v,d); same(v,e,"second application"); amg.post(x); sym_reach("done"); }
SYM_HARNESS(builtin_fast,SYM_REAL,"done"){ builtinfast<2>(2); }
SYM_HARNESS(builtin_fast3,SYM_REAL,"done"){ builtinfast<4>(3); }
// numbers of the coarsest aggregates
SYM_HARNESS(coarsest,SYM_REAL,"one,two,three"){ int n=sym_concrete_l(sym_int("n",1,6)),levels=sym_concrete_l(sym_int("levels",1,3)); M1 A; A.setBuildMode(M1::row_wise); A.setSize(n,n); { int i=0; for(auto it=A.createbegin();it!=A.createend();++it,++i) for(int j=i>0?i-1:0;j<=i+1&&j<n;j++) it.insert(j); } for(auto r=A.begin();r!=A.end();++r) for(auto c=r->begin();c!=r->end();++c) *c=r.index()==c.index()?2.0:-1.0; int cut=sym_concrete_l(sym_int("border",-1,5)); if(cut>=0&&cut<n) for(auto c=A[cut].begin();c!=A[cut].end();++c) if((int)c.index()!=cut) *c=0.0;
  Op1 op(A); T1::Crit crit; params(crit,levels,1.6); crit.setMinCoarsenRate(1.0); T1::Hier h(std::make_shared<Op1>(op)); h.build<Neg>(crit); SYM_ASSERT(h.isBuilt(),"built"); std::vector<long> cl(n); for(int i=0;i<n;i++) cl[i]=i; auto m=h.matrices().finest(); for(auto a:h.aggregatesMaps()){ if(m==h.matrices().coarsest()) break; ++m; for(int i=0;i<n;i++) if(cl[i]>=0) cl[i]=(*a)[cl[i]]<Amg::AggregatesMap<std::size_t>::ISOLATED?(long)(*a)[cl[i]]:-1; }
  std::vector<std::size_t> data; h.getCoarsestAggregatesOnFinest(data); SYM_EQ((long)data.size(),(long)n,"one number for each unknown"); long N=h.matrices().coarsest()->getmat().N(); for(int i=0;i<n;i++) if(cl[i]>=0){ SYM_ASSERT(data[i]<(std::size_t)N,"number in range"); for(int j=0;j<i;j++) if(cl[j]>=0) SYM_ASSERT((data[i]==data[j])==(cl[i]==cl[j]),"same number for the same coarse unknown"); } sym_reach(h.levels()==1?"one":h.levels()==2?"two":"three"); }
SYM_HARNESS(unbuilt,SYM_REAL,"done"){ M1 A; chain<M1,2>(A); alignas(T1::Hier) unsigned char raw[sizeof(T1::Hier)]; for(auto& c:raw) c=1; auto h=new(raw) T1::Hier(std::make_shared<Op1>(A)); SYM_ASSERT(!h->isBuilt(),"not built yet"); std::destroy_at(h); sym_reach("done"); }
// the hierarchy container
struct Member { int v; Member(int x):v(x){ count++; } Member(const Member& o):v(o.v){ count++; } ~Member(){ count--; } static int count; }; int Member::count=0;
namespace Dune { namespace Amg { template<> struct ConstructionTraits<Member> { typedef int Arguments; static std::shared_ptr<Member> construct(int& a){ return std::make_shared<Member>(a); } }; } }
typedef Amg::Hierarchy<Member> HM;
template<class H> static void levels(H& h,const std::vector<int>& e,const char* l){ sym_assert_eq_l((long)h.levels(),(long)e.size(),l); if(e.empty()) return; auto it=h.finest(); for(std::size_t i=0;i<e.size();i++){ sym_assert_eq_l((long)it->v,(long)e[i],l); sym_assert_b((it==h.coarsest())==(i+1==e.size()),l); ++it; } it=h.coarsest(); for(std::size_t i=e.size();i-->0;){ sym_assert_eq_l((long)it->v,(long)e[i],l); sym_assert_b((it==h.finest())==(i==0),l); --it; } }
SYM_HARNESS(container,SYM_REAL,"done"){ std::vector<int> e; { int k=sym_concrete_l(sym_int("start",0,1)); std::unique_ptr<HM> h; auto first=std::make_shared<Member>(100); if(k){ h=std::make_unique<HM>(first); e.push_back(100); } else h=std::make_unique<HM>(); int n=sym_concrete_l(sym_int("n",0,3)); for(int i=0;i<n;i++){ int a=i; if(decided(sym_bool("finer"))){ h->addFiner(a); e.insert(e.begin(),a); } else { h->addCoarser(a); e.push_back(a); } } levels(*h,e,"levels"); levels(static_cast<const HM&>(*h),e,"const levels"); bool red=!e.empty()&&decided(sym_bool("redistributed")); if(red){ int a=77; h->addRedistributedOnCoarsest(a); SYM_ASSERT(h->coarsest().isRedistributed(),"redistributed"); SYM_EQ((long)h->coarsest().getRedistributed().v,77L,"redistributed member"); if(e.size()>1) SYM_ASSERT(!h->finest().isRedistributed(),"other levels"); }
  HM c(*h); levels(c,e,"copy"); if(red){ SYM_ASSERT(c.coarsest().isRedistributed(),"redistributed copy"); c.coarsest().getRedistributed().v=78; SYM_EQ((long)h->coarsest().getRedistributed().v,77L,"deep copy"); c.coarsest().deleteRedistributed(); SYM_ASSERT(!c.coarsest().isRedistributed()&&h->coarsest().isRedistributed(),"deleted"); } if(!e.empty()){ c.finest()->v+=1000; c.coarsest()->v+=5000; } levels(*h,e,"original untouched"); int a=9; std::vector<int> f(e); if(!e.empty()){ f[0]+=1000; f.back()+=5000; } c.addCoarser(a); f.push_back(9); h.reset(); levels(c,f,"copy survives"); if(k) SYM_EQ((long)first->v,100L,"member given"); } SYM_EQ((long)Member::count,0L,"no member leaks"); sym_reach("done"); }
