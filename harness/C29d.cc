// C29: subdomains of the Schwarz smoother of the multigrid levels
// BOUNDS: 3 unknowns with every symmetric pattern and 4 unknowns with those that contain a path (thorough: all), every numbering of connected aggregates with isolated unknowns, no overlap, overlap by neighbouring unknowns, by pairs and by neighbouring aggregates, with and without aggregates, arguments that were used for another level before; the smoother made from them: 3 unknowns in fixed matrices, all relaxation factors, iterates and right hand sides
// ASSUME: aggregates are connected and numbered consecutively
#include "schwarz.h"
#include <dune/istl/paamg/smoother.hh>
#include <dune/istl/paamg/aggregates.hh>
typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> X; typedef SeqOverlappingSchwarz<M,X,MultiplicativeSchwarzMode,DynamicMatrixSubdomainSolver<M,X,X>> S; typedef Amg::ConstructionTraits<S>::Arguments CA; typedef Amg::SmootherTraits<S>::Arguments SA; typedef Amg::AggregatesMap<std::size_t> Map; typedef std::multiset<std::set<int>> Sets;
typedef std::vector<std::vector<bool>> W;
static void make(M& A,int n,const W& w){ A.setBuildMode(M::row_wise); A.setSize(n,n); for(auto it=A.createbegin();it!=A.createend();++it) for(int j=0;j<n;j++) if(w[it.index()][j]) it.insert(j); A=1.0; }
static W pat(int n,bool path){ W w(n,std::vector<bool>(n,false)); for(int i=0;i<n;i++) for(int j=i;j<n;j++) w[i][j]=w[j][i]=i==j||(path&&j==i+1)||decided(sym_bool("w")); return w; }
// aggregate numbers, -1 for isolated unknowns; connected, every number below the largest occurs
static std::vector<int> maps(int n,const W& w){ std::vector<int> a(n); for(auto& t:a) t=sym_concrete_l(sym_int("aggregate",-1,n-1)); int top=-1; for(int t:a) top=std::max(top,t);
  for(int k=0;k<=top;k++){ std::set<int> s,r; for(int i=0;i<n;i++) if(a[i]==k) s.insert(i); if(s.empty()) sym_cut(); r.insert(*s.begin()); for(int c=0;c<n;c++) for(int i:s) for(int j:s) if(w[i][j]&&r.count(i)) r.insert(j); if(r!=s) sym_cut(); } return a; }
static Sets got(CA& c){ Sets s; for(auto& d:c.getSubDomains()){ std::set<int> t; for(auto i:d) t.insert((int)i); s.insert(t); } return s; }
static Sets want(int n,const W& w,const std::vector<int>& a,int ov){ Sets s; if(ov==SA::pairwise){ for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(w[i][j]) s.insert({j,i}); return s; }
  std::vector<std::set<int>> all; for(int k=0;k<n;k++){ std::set<int> t; for(int i=0;i<n;i++) if(a[i]==k) t.insert(i); if(!t.empty()) all.push_back(t); } for(int i=0;i<n;i++) if(a[i]<0) all.push_back({i});
  for(auto t:all){ std::set<int> u(t); for(int i:t) for(int j=0;j<n;j++) if(w[i][j]&&!t.count(j)){ if(ov==SA::vertex&&a[j]>=0) u.insert(j); if(ov==SA::aggregate){ u.insert(j); if(a[j]>=0) for(int k=0;k<n;k++) if(a[k]==a[j]) u.insert(k); } } s.insert(u); } return s; }
static void domains(int n,bool path,int ov){ auto w=pat(n,path); M A; make(A,n,w); SA sa((SA::Overlap)ov); CA c; c.setArgs(sa);
  if(decided(sym_bool("used before"))){ W f(n+1,std::vector<bool>(n+1,false)); for(int i=0;i<=n;i++) f[i][i]=f[0][i]=f[i][0]=true; M F; make(F,n+1,f); Map m(n+1); for(int i=0;i<=n;i++) m[i]=i==n?Map::ISOLATED:(std::size_t)(n-1-i); c.setMatrix(F,m); }
  if(ov==SA::pairwise||(ov!=SA::aggregate&&decided(sym_bool("unknowns"))) ){ std::vector<int> a(n); for(int i=0;i<n;i++) a[i]=i; c.setMatrix(A); SYM_ASSERT(got(c)==want(n,w,a,ov),"subdomains without aggregates"); sym_reach("unknowns"); if(ov!=SA::pairwise) return; }
  auto a=maps(n,w); Map m(n); for(int i=0;i<n;i++) m[i]=a[i]<0?Map::ISOLATED:(std::size_t)a[i]; c.setMatrix(A,m); SYM_ASSERT(got(c)==want(n,w,a,ov),"subdomains"); SYM_ASSERT(&c.getMatrix()==&A,"matrix"); sym_reach("aggregates"); }
SYM_HARNESS(sub_none,SYM_REAL,"unknowns,aggregates"){ domains(3,false,SA::none); }
SYM_HARNESS(sub_vertex,SYM_REAL,"unknowns,aggregates"){ domains(3,false,SA::vertex); }
SYM_HARNESS(sub_pairs,SYM_REAL,"unknowns,aggregates"){ domains(3,false,SA::pairwise); }
SYM_HARNESS(sub_aggregates,SYM_REAL,"aggregates"){ domains(3,false,SA::aggregate); }
SYM_HARNESS(sub_vertex4,SYM_REAL,"unknowns,aggregates"){ domains(4,!sym_tier(),SA::vertex); }
SYM_HARNESS(sub_aggregates4,SYM_REAL,"aggregates"){ domains(4,!sym_tier(),SA::aggregate); }
// the smoother: sweeps over the subdomains in their order, backwards after the coarse grid correction
SYM_HARNESS(sub_smoother,SYM_REAL,"done"){ auto w=pat(3,true); auto a=maps(3,w); M A; make(A,3,w); double D[3][3]={{4,-1,0.5},{-2,5,1},{1,-0.5,3}}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(w[i][j]) A[i][j]=D[i][j]=sym_exact_d(D[i][j]);
  int ov=decided(sym_bool("overlap"))?SA::vertex:SA::none; SA sa((SA::Overlap)ov,true); sa.relaxationFactor=sym_real("relax"); CA c; c.setArgs(sa); Map m(3); for(int i=0;i<3;i++) m[i]=a[i]<0?Map::ISOLATED:(std::size_t)a[i]; c.setMatrix(A,m); auto s=Amg::ConstructionTraits<S>::construct(c);
  std::vector<std::vector<int>> dom; for(auto& d:c.getSubDomains()) dom.push_back(std::vector<int>(d.begin(),d.end())); 
  X x(3),d(3); fillv(x,"x"); fillv(d,"d"); double v[3]; for(int i=0;i<3;i++) v[i]=x[i]; bool post=decided(sym_bool("post")); X e(d); if(post) Amg::SmootherApplier<S>::postSmooth(*s,x,e); else Amg::SmootherApplier<S>::preSmooth(*s,x,e);
  for(std::size_t k=0;k<dom.size();k++){ auto& I=dom[post?dom.size()-1-k:k]; int n=I.size(); std::vector<std::vector<double>> L(n,std::vector<double>(n)); std::vector<double> r(n); for(int i=0;i<n;i++){ r[i]=d[I[i]]; for(int j=0;j<3;j++) if(w[I[i]][j]) r[i]-=D[I[i]][j]*v[j]; for(int j=0;j<n;j++) L[i][j]=w[I[i]][I[j]]?D[I[i]][I[j]]:0.0; }
    for(int i=0;i<n;i++) for(int t=i+1;t<n;t++){ double f=L[t][i]/L[i][i]; for(int j=i;j<n;j++) L[t][j]-=f*L[i][j]; r[t]-=f*r[i]; } for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) r[i]-=L[i][j]*r[j]; r[i]/=L[i][i]; } for(int i=0;i<n;i++) v[I[i]]+=sa.relaxationFactor*r[i]; }
  for(int i=0;i<3;i++) SYM_EQ((double)x[i],v[i],"sweep"); sym_reach("done"); }
SYM_HARNESS(sub_empty,SYM_REAL,"done"){ M A; make(A,0,W()); for(int ov:{SA::vertex,SA::aggregate,SA::pairwise,SA::none}){ SA sa((SA::Overlap)ov); CA c; c.setArgs(sa); Map m(0); c.setMatrix(A,m); SYM_ASSERT(c.getSubDomains().empty(),"no subdomains"); } sym_reach("done"); }
