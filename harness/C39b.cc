// C39: the parallel multigrid cycle
// BOUNDS: 2 processes with 4 unknowns and 3 processes with 3, every ownership, every symmetric sparsity pattern that contains a path, two local numberings, two and three levels; damped block Jacobi smoothing 0..2 times before and after, V and W cycles and the additive variant, coarsest level distributed or accumulated on the first process; all right hand sides, starting values, relaxation and prolongation factors and (diagonal) coarse solvers; fixed matrix entries
// ASSUME: the owner of an unknown holds its complete row and the neighbours as copies
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
#include "mpiworld.h"
#include "flat.h"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/paamg/amg.hh>
#include "par.h"
using namespace Dune; using namespace H;
typedef FieldMatrix<double,1,1> B; typedef BCRSMatrix<B> M; typedef BlockVector<FieldVector<double,1>> X; typedef OverlappingSchwarzOperator<M,X,X,Comm> Op; typedef Amg::MatrixHierarchy<Op,Comm,std::allocator<X>> Hier; typedef Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::FirstDiagonal>> Crit; typedef NegateSet<Comm::OwnerSet> Flags;
typedef BlockPreconditioner<X,X,Comm,SeqJac<M,X,X>> Sm; typedef Amg::AMG<Op,X,Sm,Comm> AMG;
static const std::size_t ISO=Amg::AggregatesMap<std::size_t>::ISOLATED;
struct Coarse : InverseOperator<X,X> { std::vector<double> c; int calls=0; bool fail=false; void apply(X& x,X& b,InverseOperatorResult& res) override { SYM_EQ(x.size(),c.size(),"size of the coarse problem"); SYM_EQ(b.size(),c.size(),"size of the coarse problem"); for(std::size_t i=0;i<c.size();i++) x[i]+=c[i]*b[i]; for(auto& t:b) t*=3.0; res.converged=!fail; calls++; } void apply(X& x,X& b,double,InverseOperatorResult& r) override { apply(x,b,r); } SolverCategory::Category category() const override { return SolverCategory::overlapping; } };
// one level in global numbers
struct Glob { std::map<int,std::map<int,double>> A; std::map<int,int> agg; };
typedef std::map<int,double> GV;
struct Ref { std::vector<Glob>& L; GV c; double w,damp; int pre,post,gamma; 
  GV resid(int l,const GV& u,GV r){ for(auto& i:L[l].A) for(auto& j:i.second) r[i.first]-=j.second*u.at(j.first); return r; }
  GV zero(int l){ GV z; for(auto& i:L[l].A) z[i.first]=0.0; return z; }
  void jac(int l,GV& u,const GV& b){ GV r=resid(l,u,b); for(auto& i:L[l].A) u[i.first]+=w*(r[i.first]/i.second[i.first]); }
  GV restr(int l,const GV& r){ GV z=zero(l+1); for(auto& i:r) if(L[l].agg[i.first]>=0) z[L[l].agg[i.first]]+=i.second; return z; }
  GV coarse(const GV& b){ GV z; for(auto& i:b) z[i.first]=c.at(i.first)*i.second; return z; }
  GV cycle(int l,const GV& b){ if(l+1==(int)L.size()) return coarse(b); GV u=zero(l); for(int k=0;k<pre;k++) jac(l,u,b); GV cb=restr(l,resid(l,u,b)),cu=zero(l+1); int g=l+2==(int)L.size()?1:gamma; for(int k=0;k<g;k++){ GV r=resid(l+1,cu,cb); GV e=cycle(l+1,r); for(auto& i:e) cu[i.first]+=i.second; } for(auto& i:u) if(L[l].agg[i.first]>=0) i.second+=damp*cu[L[l].agg[i.first]]; for(int k=0;k<post;k++) jac(l,u,b); return u; }
  GV additive(int l,const GV& b){ if(l+1==(int)L.size()) return coarse(b); GV u=zero(l); jac(l,u,b); GV cu=additive(l+1,restr(l,b)); for(auto& i:u) if(L[l].agg[i.first]>=0) i.second+=cu[L[l].agg[i.first]]; return u; } };
static void cycle(int P,int G,int levels,bool acc,bool add,int maxsteps,int gamma){
  std::vector<int> own(G); for(auto& o:own) o=sym_concrete_l(sym_int("owner",0,P-1)); std::vector<bool> w(G*G,false); for(int i=0;i<G;i++) for(int j=i;j<G;j++) w[i*G+j]=w[j*G+i]=i==j||j==i+1||decided(sym_bool("w"));
  std::vector<double> A(G*G,0.0); for(int i=0;i<G;i++) for(int j=i;j<G;j++) if(w[i*G+j]) A[i*G+j]=A[j*G+i]=i==j?4+i:-1-0.125*(i*G+j);
  Dist d(P,0); d.G=G; d.a.assign(P,std::vector<int>(G,N)); d.loc.assign(P,std::vector<int>(G,-1)); for(int p=0;p<P;p++) for(int g=0;g<G;g++){ bool nbr=false; for(int h=0;h<G;h++) nbr|=own[h]==p&&w[g*G+h]; d.a[p][g]=own[g]==p?O:nbr?C:N; } d.number(decided(sym_bool("reversed numbering")));
  int pre=add?1:sym_concrete_l(sym_int("pre",0,maxsteps)),post=add?1:sym_concrete_l(sym_int("post",0,maxsteps)); double omega=sym_real("omega"),damp=sym_real("damp"),junk=sym_real("junk"); bool skip=decided(sym_bool("skip isolated"));
  auto glob=[&](int p,int l){ for(int g=0;g<G;g++) if(d.loc[p][g]==l) return g; return -1; };
  std::map<int,double> c,x0,b0; for(int g=0;g<G;g++){ c[10*g+3]=sym_real("c"); x0[10*g+3]=sym_real("x"); b0[10*g+3]=sym_real("b"); }
  std::vector<Glob> L(levels); std::vector<GV> vown(P),xpre(P); std::vector<int> nl(P); int top=0; std::vector<GV> cown(P); std::vector<int> calls(P,0),thrown(P,0);
  MW::run(P,[&](int r){ auto cm=std::make_shared<Comm>(MPI_COMM_WORLD); d.setup(*cm,r);
    int m=d.n(r); auto mat=std::make_shared<M>(); mat->setBuildMode(M::row_wise); mat->setSize(m,m,m*m); int l=0; for(auto it=mat->createbegin();it!=mat->createend();++it,++l) for(int q=0;q<m;q++) if(w[glob(r,l)*G+glob(r,q)]) it.insert(q);
    for(l=0;l<m;l++) for(auto j=(*mat)[l].begin();j!=(*mat)[l].end();++j) *j=d.a[r][glob(r,l)]==O?A[glob(r,l)*G+glob(r,j.index())]:(int)j.index()==l?1.0:0.0;
    auto op=std::make_shared<Op>(*mat,*cm); Hier h(op,cm); Crit crit(levels-1,1); crit.setDebugLevel(0); crit.setMinAggregateSize(2); crit.setMaxAggregateSize(2); crit.setAlpha(0.001); crit.setBeta(0.0001); crit.setMinCoarsenRate(0.1); crit.setSkipIsolated(skip); crit.setAccumulate(acc?Amg::atOnceAccu:Amg::noAccu); crit.setProlongationDampingFactor(damp);
    h.template build<Flags>(crit); nl[r]=h.levels(); if((int)h.levels()>top) top=h.levels();
    // the levels in global numbers
    Coarse cs; auto mi=h.matrices().finest(); auto pi=h.parallelInformation().finest(); auto ag=h.aggregatesMaps().begin(); std::vector<std::vector<int>> gid(h.levels()); std::vector<std::vector<std::size_t>> ags(h.levels()); std::vector<std::vector<int>> at(h.levels());
    for(int k=0;k<(int)h.levels();k++,++mi,++pi,++ag){ auto num=[&](const Comm& cc,int n,std::vector<int>& a){ std::vector<int> g(n,-1); a.assign(n,O); for(auto& e:cc.indexSet()){ g[(std::size_t)e.local()]=e.global(); a[(std::size_t)e.local()]=e.local().attribute(); } return g; };
      const M& Q=mi->getmat(); std::vector<int> a,g=num(*pi,Q.N(),a); for(int i=0;i<(int)Q.N();i++) if(a[i]==O){ auto& row=L[k].A[g[i]]; for(auto j=Q[i].begin();j!=Q[i].end();++j) row[g[j.index()]]=(*j)[0][0]; }
      std::vector<int> wa=a,wg=g; if(mi.isRedistributed()) wg=num(pi.getRedistributed(),mi.getRedistributed().getmat().N(),wa); gid[k]=wg; at[k]=wa; ags[k].clear(); 
      if(k>0) for(int i=0;i<(int)gid[k-1].size();i++) if(at[k-1][i]==O) L[k-1].agg[gid[k-1][i]]=ags[k-1][i]==ISO?-1:g[ags[k-1][i]];
      if(k+1<(int)h.levels()) ags[k].assign((*ag)->begin(),(*ag)->end()); else for(int q:wg) cs.c.push_back(c.at(q)); }
    typename Amg::SmootherTraits<Sm>::Arguments sa; sa.iterations=1; sa.relaxationFactor=omega; Amg::Parameters par; par.setDebugLevel(0); par.setNoPreSmoothSteps(pre); par.setNoPostSmoothSteps(post); par.setGamma(gamma); par.setAdditive(add);
    AMG amg(h,cs,sa,par); SYM_ASSERT(amg.category()==SolverCategory::overlapping,"category"); SYM_ASSERT(amg.levels()==h.levels()&&amg.maxlevels()==h.maxlevels(),"levels");
    X x(m),b(m),v(m); for(l=0;l<m;l++){ int g=glob(r,l); bool o=d.a[r][g]==O; if(o) x[l]=x0[10*g+3]; else x[l]=junk; if(o) b[l]=b0[10*g+3]; else b[l]=junk; v[l]=0.0; }
    amg.pre(x,b); for(l=0;l<m;l++) xpre[r][10*glob(r,l)+3]=x[l]; X dd(m); for(l=0;l<m;l++){ int g=glob(r,l); if(d.a[r][g]==O) dd[l]=b0[10*g+3]; else dd[l]=0.0; }
    for(int twice=0;twice<2;twice++){ v=0.0; amg.apply(v,dd); for(l=0;l<m;l++){ double z=v[l]; auto f=vown[r].emplace(10*glob(r,l)+3,z); if(twice) SYM_EQ(f.first->second,z,"the second application gives the same"); } } amg.post(x); calls[r]=cs.calls; },false);
  L.resize(top); Ref ref{L,c,omega,damp,pre,post,gamma}; GV e=add?ref.additive(0,b0):ref.cycle(0,b0);
  for(int p=0;p<P;p++){ for(auto& q:vown[p]) SYM_EQ(q.second,e.at(q.first),"the cycle of the global problem"); for(auto& q:xpre[p]){ auto& row=L[0].A.at(q.first); bool dir=true; for(auto& j:row) dir&=j.first==q.first||j.second==0.0; if(dir) SYM_EQ(q.second,b0.at(q.first)/row.at(q.first),"unknowns without couplings are solved"); else SYM_EQ(q.second,x0.at(q.first),"the starting value becomes consistent"); } }
  if(top>1) sym_reach("coarse level"); }
SYM_HARNESS(cyclev,SYM_REAL,"coarse level"){ cycle(2,sym_tier()?4:3,2,false,false,sym_tier()?2:1,1); }
SYM_HARNESS(cyclev4,SYM_REAL,"coarse level"){ cycle(2,4,2,false,false,0,1); }
SYM_HARNESS(cyclew,SYM_REAL,"coarse level"){ cycle(2,4,3,false,false,sym_tier()?1:0,2); }
SYM_HARNESS(cycleacc,SYM_REAL,"coarse level"){ cycle(2,sym_tier()?4:3,2,true,false,1,1); }
SYM_HARNESS(cycleacc3,SYM_REAL,"coarse level"){ cycle(3,3,2,true,false,1,1); }
SYM_HARNESS(cycleadd,SYM_REAL,"coarse level"){ cycle(2,4,3,false,true,1,1); }
