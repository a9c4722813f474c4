// multigrid built from a configuration against the same multigrid built by hand
#pragma once
#define MOCK_UMFPACK
#include "direct.h"
#include <dune/common/parametertree.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/solverfactory.hh>
template<class F> static bool thrown(F f){ try { f(); } catch(Dune::Exception&){ return true; } return false; }
template<int k> struct T { typedef BCRSMatrix<FieldMatrix<double,k,k>> M; typedef BlockVector<FieldVector<double,k>> X; typedef MatrixAdapter<M,X,X> Op; typedef Preconditioner<X,X> P; };
// anisotropic grid problem with couplings that the strength measures judge differently
template<class M> static void grid(M& A,int g){ int n=g*g; A.setBuildMode(M::row_wise); A.setSize(n,n); for(auto r=A.createbegin();r!=A.createend();++r){ int i=r.index(),x=i%g,y=i/g; if(y>0) r.insert(i-g); if(x>0) r.insert(i-1); r.insert(i); if(x+1<g) r.insert(i+1); if(y+1<g) r.insert(i+g); }
  for(auto r=A.begin();r!=A.end();++r) for(auto c=r->begin();c!=r->end();++c){ int i=r.index(),j=c.index(); auto& b=*c; b=0; int k=b.N(); for(int p=0;p<k;p++){ double h=p==0?-1.0:-0.25,v=p==0?-0.25:-1.0; b[p][p]=i==j?(p==0?4.0:3.0):(std::abs(i-j)==1?h:v)*(i<j?1.0:(i+j)%3==0?0.5:1.0); if(i!=j&&(i*5+j)%11==0) b[p][p]*=0.125; if(k>1&&i!=j&&(i+j)%5==0) b[p][1-p]=0.75; } } }
struct Conf { std::map<std::string,std::string> kv; bool has(const char* k) const { return kv.count(k); } std::string s(const char* k,const char* d) const { auto it=kv.find(k); return it==kv.end()?d:it->second; } double d(const char* k,double x) const { auto it=kv.find(k); return it==kv.end()?x:std::stod(it->second); } };
struct Seen { long levels,maxlevels; std::vector<std::size_t> agg; std::vector<mock::Call<double>> calls; DV<double> v; };
template<int k,class A> static Seen look(A& a,const typename T<k>::M& m,mock::Script& sc,double t,double u){ typedef typename T<k>::X X; Seen r; r.levels=a.levels(); r.maxlevels=a.maxlevels(); r.agg.resize(m.N()); a.getCoarsestAggregateNumbers(r.agg); sc.at=0; mock::script()=&sc; mock::calls<double>().clear(); X v(m.N()),d(m.N()),x(m.N()),b(m.N()); int q=0; for(auto& e:d) for(auto& f:e){ f=double((q*7)%5)-1.5; if(q==1) f=t; if(q==10) f=u; q++; } x=0; b=1.0; v=0; Preconditioner<X,X>& p=a; SYM_ASSERT(p.category()==SolverCategory::sequential,"category"); p.pre(x,b); p.apply(v,d); p.post(x); mock::script()=nullptr; r.calls=mock::calls<double>(); r.v=flat<double>(v); return r; }
// criterion described by the documented keys
template<class C> static void configure(C& c,const Conf& f){ if(f.has("maxLevel")) c.setMaxLevel(f.d("maxLevel",0)); if(f.has("minCoarseningRate")) c.setMinCoarsenRate(f.d("minCoarseningRate",0)); if(f.has("coarsenTarget")) c.setCoarsenTarget(f.d("coarsenTarget",0)); auto m=f.s("accumulationMode",""); if(m=="none") c.setAccumulate(Amg::noAccu); if(m=="atOnce") c.setAccumulate(Amg::atOnceAccu); if(m=="successive") c.setAccumulate(Amg::successiveAccu); if(f.has("prolongationDampingFactor")) c.setProlongationDampingFactor(f.d("prolongationDampingFactor",0));
  auto a=f.s("defaultAggregationSizeMode",""); std::size_t dim=f.d("defaultAggregationDimension",0),dist=f.d("maxAggregateDistance",2); if(a=="isotropic") c.setDefaultValuesIsotropic(dim,dist); if(a=="anisotropic") c.setDefaultValuesAnisotropic(dim,dist); if(f.has("maxAggregateDistance")) c.setMaxDistance(f.d("maxAggregateDistance",0)); if(f.has("minAggregateSize")) c.setMinAggregateSize(f.d("minAggregateSize",0)); if(f.has("maxAggregateSize")) c.setMaxAggregateSize(f.d("maxAggregateSize",0)); if(f.has("maxAggregateConnectivity")) c.setMaxConnectivity(f.d("maxAggregateConnectivity",0));
  if(f.has("alpha")) c.setAlpha(f.d("alpha",0)); if(f.has("beta")) c.setBeta(f.d("beta",0)); if(f.has("gamma")) c.setGamma(f.d("gamma",0)); if(f.has("additive")) c.setAdditive(f.s("additive","")=="true"); if(f.has("preSteps")) c.setNoPreSmoothSteps(f.d("preSteps",0)); if(f.has("postSteps")) c.setNoPostSmoothSteps(f.d("postSteps",0)); c.setDebugLevel(0); }
template<int k,class S,class N,bool sym> static Seen direct(typename T<k>::M& m,const Conf& f,mock::Script& sc,double t,double u){ typedef typename T<k>::Op Op; typedef Amg::AMG<Op,typename T<k>::X,S> A; typedef std::conditional_t<sym,Amg::SymmetricCriterion<typename T<k>::M,N>,Amg::UnSymmetricCriterion<typename T<k>::M,N>> B; Amg::CoarsenCriterion<B> c; configure(c,f); Op op(m); typename A::SmootherArgs a; a.iterations=f.d("smootherIterations",1); a.relaxationFactor=f.d("smootherRelaxation",1); A amg(op,c,a); return look<k>(amg,m,sc,t,u); }
template<int k,class S,bool plain> static Seen expected(typename T<k>::M& m,const Conf& f,mock::Script& sc,double t,double u){ bool sym=f.s("criterionSymmetric","true")=="true"; if constexpr(plain) return direct<k,S,Amg::Diagonal<0>,true>(m,f,sc,t,u); else { auto n=f.s("strengthMeasure","diagonal"); auto go=[&](auto norm){ typedef decltype(norm) N; return sym?direct<k,S,N,true>(m,f,sc,t,u):direct<k,S,N,false>(m,f,sc,t,u); };
  if(n=="rowSum") return go(Amg::RowSum()); if(n=="frobenius") return go(Amg::FrobeniusNorm()); if(n=="one") return go(Amg::AlwaysOneNorm()); if constexpr(k>1) if(f.s("diagonalRowIndex","0")=="1") return go(Amg::Diagonal<1>()); return go(Amg::Diagonal<0>()); } }
static void compare(const Seen& a,const Seen& b){ SYM_EQ(a.levels,b.levels,"levels"); SYM_EQ(a.maxlevels,b.maxlevels,"possible levels"); bool eq=a.agg.size()==b.agg.size(); for(std::size_t i=0;eq&&i<a.agg.size();i++) for(std::size_t j=0;j<i;j++) if((a.agg[i]==a.agg[j])!=(b.agg[i]==b.agg[j])) eq=false; SYM_ASSERT(eq,"aggregates"); SYM_ASSERT(a.calls.size()==b.calls.size(),"coarse solves"); if(a.calls.size()!=b.calls.size()) return; for(std::size_t i=0;i<a.calls.size();i++){ SYM_ASSERT(a.calls[i].A.n==b.calls[i].A.n,"coarse size"); if(a.calls[i].A.n!=b.calls[i].A.n) return; eqm(a.calls[i].A,b.calls[i].A,"coarse matrix"); eqv(a.calls[i].b,b.calls[i].b,"coarse right hand side"); } eqv(a.v,b.v,"cycle"); }
template<int k,template<class,class,class,int> class S,bool factory=false> static void one(const Conf& f,const char* name,bool bad){ typedef typename T<k>::M M; typedef typename T<k>::X X; typedef typename T<k>::Op Op; typedef S<M,X,X,1> Sm; M m; grid(m,4); auto op=std::make_shared<Op>(m); double t=sym_real("t"),u=sym_real("u"); mock::Script sc; ParameterTree c; c["type"]="amg"; for(auto& e:f.kv) c[e.first]=e.second; if(name) c["smoother"]=name; std::shared_ptr<Preconditioner<X,X>> p; bool th=thrown([&]{ if constexpr(factory){ initSolverFactories<Op>(); p=getPreconditionerFromFactory(op,c); } else p=std::make_shared<Amg::AMG<Op,X,Sm>>(std::shared_ptr<const Op>(op),c); }); SYM_ASSERT(th==bad,"refused if and only if malformed"); if(th){ sym_reach("refused"); return; } auto q=dynamic_cast<Amg::AMG<Op,X,Sm>*>(p.get()); SYM_ASSERT(q!=nullptr,"type"); if(!q) return; Seen a=look<k>(*q,m,sc,t,u); Seen b=expected<k,Sm,factory>(m,f,sc,t,u); compare(a,b); if(b.levels>1) sym_reach("levels"); }
static const std::vector<std::pair<const char*,std::vector<const char*>>> keys={ {"maxLevel",{"1","2"}}, {"coarsenTarget",{"1","6","1000"}}, {"minCoarseningRate",{"1.2","2.5","1"}}, {"accumulationMode",{"none","atOnce","successive"}}, {"prolongationDampingFactor",{"1","1.25"}}, {"alpha",{"0.1","0.875"}}, {"beta",{"0.5","0.01"}}, {"gamma",{"1","2"}}, {"additive",{"true","false"}}, {"preSteps",{"0","2","1"}}, {"postSteps",{"0","2","1"}}, {"criterionSymmetric",{"true","false"}}, {"strengthMeasure",{"diagonal","rowSum","frobenius","one"}}, {"minAggregateSize",{"1","2"}}, {"maxAggregateSize",{"2","5"}}, {"maxAggregateDistance",{"1","3"}}, {"maxAggregateConnectivity",{"1","3"}}, {"smootherIterations",{"1","2"}}, {"smootherRelaxation",{"0.5","1"}}, {"mode",{"isotropic","anisotropic"}}, {"diagonalRowIndex",{"0","1"}} };
static void put(Conf& f,int k,int v){ const char* key=keys[k].first; if(!std::strcmp(key,"mode")){ f.kv["defaultAggregationSizeMode"]=keys[k].second[v]; f.kv["defaultAggregationDimension"]=v?"1":"2"; } else f.kv[key]=keys[k].second[v]; }
