// C24: aggregation
// BOUNDS: graphs with up to 3 (quick) or 4 (thorough) vertices, all structurally symmetric patterns (also all unsymmetric ones with 3 vertices in the thorough tier), every combination of strong-connection marks of the directed edges, isolated flags and zero off-diagonal rows, all aggregate sizes 1..4, distances 0..2, connectivities 1..3, skipping isolated vertices or not, finest or coarser level; also the real symmetric and unsymmetric criteria with all values on 3x3 patterns; aggregate searches on every map of 3 vertices
// ASSUME: symmetric patterns in the quick tier
#include "flat.h"
#include <bitset>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/parameters.hh>
using namespace Dune; using namespace H; using namespace Dune::Amg;
typedef FieldMatrix<double,1,1> F1; typedef BCRSMatrix<F1> M; typedef MatrixGraph<const M> G0; typedef Amg::PropertiesGraph<G0,VertexProperties,EdgeProperties,IdentityMap,IdentityMap> P; typedef AggregatesMap<std::size_t> Map;
template<int n> static Pat<n,n> symm(){ Pat<n,n> p; for(int i=0;i<n;i++){ p[i][i]=true; for(int j=0;j<i;j++) p[i][j]=p[j][i]=decided(sym_bool("w")); } return p; }
// a criterion that marks what it is told to mark
static bool fd[4][4],ff[4][4],fi[4]; static bool isoF(int i){ return fi[i]; }
struct Told : Amg::Parameters { typedef BCRSMatrix<F1> Matrix; typedef Matrix::row_type Row; typedef Matrix::ConstColIterator ColIter; int row=-1; void init(const Matrix*){} void initRow(const Row&,int i){ row=i; } void examine(const ColIter&){} bool isIsolated(){ return isoF(row); } template<class G> void examine(G&,const typename G::EdgeIterator& e,const ColIter& c){ SYM_ASSERT(c.index()==e.target(),"matrix entry of the edge"); if(fd[row][e.target()]) e.properties().setDepends(); if(ff[row][e.target()]) e.properties().setInfluences(); } };
template<int n> static int root(std::array<int,n>& u,int i){ while(u[i]!=i) i=u[i]; return i; }
template<int n,class C> static void check(const M& A,const Pat<n,n>& w,const C& c,bool finest,bool marked){
  G0 g(A); P p(g); Map map(n); SYM_EQ((long)map.noVertices(),(long)n,"number of vertices"); for(int i=0;i<n;i++) SYM_ASSERT(map[i]==Map::UNAGGREGATED,"initially unaggregated");
  auto D=dense(A); auto [all,iso,one,skipped]=map.buildAggregates(A,p,c,finest); eqm(dense(A),D,"matrix unchanged");
  bool I[n],X[n]; for(int i=0;i<n;i++){ I[i]=p.getVertexProperties(i).isolated(); X[i]=p.getVertexProperties(i).excludedBorder(); }
  long next=0,sk=0,is=0; bool own[n]; for(int i=0;i<n;i++){ std::size_t a=map[i]; SYM_ASSERT(a!=Map::UNAGGREGATED,"every vertex is treated"); if(a==Map::ISOLATED){ sk++; sym_reach("skipped"); SYM_ASSERT(X[i]||(I[i]&&c.skipIsolated()),"only isolated or excluded vertices are skipped"); } else { SYM_ASSERT(a<=(std::size_t)next,"aggregate numbers are consecutive"); SYM_ASSERT(!(I[i]&&c.skipIsolated()),"isolated vertices are skipped"); own[i]=(a==(std::size_t)next); if(own[i]){ next++; if(I[i]) is++; } } }
  SYM_EQ((long)all,next,"number of aggregates"); SYM_EQ((long)skipped,sk,"number of skipped vertices"); SYM_EQ((long)iso,is,"number of isolated aggregates"); SYM_ASSERT(one>=0&&one<=all,"number of one vertex aggregates");
  // connected, strongly if not isolated
  std::array<int,n> u,s; for(int i=0;i<n;i++) u[i]=s[i]=i; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j&&w[i][j]&&map[i]==map[j]&&map[i]!=Map::ISOLATED){ int a=root<n>(u,i),b=root<n>(u,j); u[std::max(a,b)]=std::min(a,b); auto& e=p.getEdgeProperties(i,j); if(e.depends()||e.influences()){ a=root<n>(s,i); b=root<n>(s,j); s[std::max(a,b)]=std::min(a,b); } }
  for(int i=0;i<n;i++) if(map[i]!=Map::ISOLATED) for(int j=0;j<i;j++) if(map[j]==map[i]){ sym_reach("shared"); SYM_ASSERT(root<n>(u,i)==root<n>(u,j),"aggregates are connected"); int f=0; while(map[f]!=map[i]) f++; if(!I[f]){ SYM_ASSERT(!I[i],"isolated vertices stay apart"); SYM_ASSERT(root<n>(s,i)==root<n>(s,j),"aggregates are strongly connected"); } }
  for(auto v=p.begin();v!=p.end();++v) SYM_ASSERT(!v.properties().visited(),"visited flags are reset"); (void)marked; }
template<class C> static void params(C& c,int k){ c.setMinAggregateSize(2); c.setMaxAggregateSize(3); if(k==0) return; c.setMinAggregateSize(sym_concrete_l(sym_int("min",k==2?0:1,k==2?4:3))); c.setMaxAggregateSize(sym_concrete_l(sym_int("max",1,k==2?4:3))); if(k==2){ c.setMaxDistance(sym_concrete_l(sym_int("dist",0,2))); c.setMaxConnectivity(sym_concrete_l(sym_int("con",1,3))); } }
template<int n> static M matrix(const Pat<n,n>& w,int borders){ M A; build(A,w); bool z[n]; for(int i=0;i<n;i++) z[i]=i<borders&&decided(sym_bool("border")); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=i==j?1:z[i]?0:-1; return A; }
// lazily: a flag that is never read is never decided
template<int n> static void flags(bool both){ for(int i=0;i<n;i++){ fi[i]=sym_bool("isolated"); for(int j=0;j<n;j++) if(i!=j){ fd[i][j]=sym_bool("dep"); ff[i][j]=both?sym_bool("inf"):false; } } if(!both) for(int i=0;i<n;i++) for(int j=0;j<n;j++) ff[i][j]=fd[j][i]; }
SYM_HARNESS(two,SYM_REAL,"skipped,shared"){ constexpr int n=2; auto w=symm<n>(); M A=matrix<n>(w,n); flags<n>(true); Told c; params(c,2); c.setSkipIsolated(sym_bool("skip")); check<n>(A,w,c,decided(sym_bool("finest")),true); }
SYM_HARNESS(three,SYM_REAL,"skipped,shared"){ constexpr int n=3; auto w=symm<n>(); M A=matrix<n>(w,sym_tier()?n:1); flags<n>(sym_tier()); Told c; params(c,1); c.setSkipIsolated(sym_bool("skip")); check<n>(A,w,c,true,true); }
SYM_HARNESS(three_marks,SYM_REAL,"skipped,shared"){ constexpr int n=3; Pat<n,n> w=sym_tier()?symm<n>():full<n,n>(); M A=matrix<n>(w,1); flags<n>(true); Told c; params(c,0); c.setSkipIsolated(true); check<n>(A,w,c,true,true); }
SYM_HARNESS(three_isolated,SYM_REAL,"shared"){ constexpr int n=3; auto w=symm<n>(); M A=matrix<n>(w,0); flags<n>(false); Told c; params(c,2); c.setSkipIsolated(false); check<n>(A,w,c,false,true); }
SYM_HARNESS(four,SYM_REAL,"shared"){ constexpr int n=4; auto w=sym_tier()?symm<n>():full<n,n>(); if(!sym_tier()){ w[0][3]=w[3][0]=false; w[0][2]=w[2][0]=decided(sym_bool("w")); } M A=matrix<n>(w,0); flags<n>(false); for(int i=sym_tier()?n:1;i<n;i++) fi[i]=false; Told c; params(c,0); c.setSkipIsolated(true); check<n>(A,w,c,false,true); }
SYM_HARNESS(unsymmetric,SYM_REAL,"shared"){ constexpr int n=3; auto w=sym_tier()?pattern<n,n>(true):full<n,n>(); if(!sym_tier()){ w[0][2]=decided(sym_bool("w")); w[2][0]=decided(sym_bool("w")); w[1][0]=decided(sym_bool("w")); } M A=matrix<n>(w,0); flags<n>(false); for(int i=0;i<n;i++) for(int j=0;j<n;j++) ff[i][j]=w[j][i]&&fd[j][i]; Told c; params(c,0); c.setSkipIsolated(sym_bool("skip")); check<n>(A,w,c,false,true); }
// the criteria used in practice
template<class Dep> static void real(bool one){ constexpr int n=3; Pat<n,n> w=band<n,n>(); M A; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]){ if(i==j) A[i][j]=2; else if(i<=j||sym_tier()){ double x=sym_real("a"); sym_assume(x>=-1&&x<=1); A[i][j]=x; } else A[i][j]=decided(sym_bool("sym"))?A[j][i]:F1(-1); } AggregationCriterion<Dep> c; params(c,one?1:0); c.setSkipIsolated(decided(sym_bool("skip"))); if(one) c.setBeta(0); check<n>(A,w,c,true,false); }
SYM_HARNESS(symmetric,SYM_REAL,"skipped,shared"){ real<SymmetricDependency<M,FirstDiagonal>>(false); }
SYM_HARNESS(unsym,SYM_REAL,"skipped,shared"){ real<Dependency<M,FirstDiagonal>>(false); }
SYM_HARNESS(alwaysone,SYM_REAL,"skipped,shared"){ real<SymmetricDependency<M,AlwaysOneNorm>>(true); }
SYM_HARNESS(unsym_nobeta,SYM_REAL,"skipped,shared"){ real<Dependency<M,FirstDiagonal>>(true); }
// breadth first search over an aggregate
SYM_HARNESS(search,SYM_REAL,"done"){ constexpr int n=3; auto w=sym_tier()?pattern<n,n>(true):symm<n>(); M A; build(A,w); G0 g(A); P p(g); Map m(n); for(int i=0;i<n;i++){ int k=sym_concrete_l(sym_int("agg",0,2)); m[i]=k==2?Map::ISOLATED:(std::size_t)k; } int s=sym_concrete_l(sym_int("start",0,n-1)); bool reset=decided(sym_bool("reset")); auto vm=get(VertexVisitedTag(),p);
  bool r[n]={}; r[s]=true; for(int k=0;k<n;k++) for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(r[i]&&i!=j&&w[i][j]&&m[j]==m[s]) r[j]=true;
  struct Vis { bool in[n]={}; long c=0; void operator()(const P::ConstEdgeIterator& e){ in[e.target()]=true; c++; } } v,o; SLList<std::size_t> l; if(reset) m.breadthFirstSearch<false,true>(std::size_t(s),m[s],(const P&)p,l,v,o,vm); else m.breadthFirstSearch<false,false>(std::size_t(s),m[s],(const P&)p,l,v,o,vm);
  bool in[n]={}; long c=0; for(auto x:l){ SYM_ASSERT(!in[x],"visited once"); in[x]=true; c++; } long edges=0; for(int i=0;i<n;i++){ SYM_ASSERT(in[i]==r[i],"visited vertices"); SYM_ASSERT(v.in[i]==(r[i]&&i!=s),"edges into new vertices"); SYM_ASSERT((bool)get(vm,(std::size_t)i)==(!reset&&r[i]),"visited map"); bool t=false; for(int k=0;k<n;k++) if(r[k]&&k!=i&&w[k][i]&&m[i]!=m[s]){ t=true; edges++; } SYM_ASSERT(o.in[i]==t,"edges leaving the aggregate"); } SYM_EQ(v.c,c-1,"edges within the aggregate"); SYM_EQ(o.c,edges,"number of edges leaving the aggregate");
  for(int i=0;i<n;i++) put(vm,(std::size_t)i,false); Vis q; m.breadthFirstSearch<true>(std::size_t(s),m[s],(const P&)p,q,vm); for(int i=0;i<n;i++){ SYM_ASSERT(q.in[i]==(r[i]&&i!=s),"short form"); SYM_ASSERT(!get(vm,(std::size_t)i),"short form resets"); } sym_reach("done"); }
SYM_HARNESS(maps,SYM_REAL,"done"){ int n=sym_concrete_l(sym_int("n",0,2)); Map m; m.allocate(n); SYM_EQ((long)m.noVertices(),(long)n,"vertices"); for(int i=0;i<n;i++){ SYM_ASSERT(m[i]==Map::UNAGGREGATED,"unaggregated"); m[i]=i; } long k=0; for(auto it=m.begin();it!=m.end();++it,++k) SYM_ASSERT(*it==(std::size_t)k,"iteration"); SYM_EQ(k,(long)n,"entries"); m.free(); m.allocate(1); SYM_EQ((long)m.noVertices(),1l,"after freeing"); Map e; SYM_ASSERT(e.noVertices()==0&&e.begin()==e.end(),"empty map"); sym_reach("done"); }
