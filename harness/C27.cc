// C27: matrix graphs mirror the matrix
// BOUNDS: graphs of every 3x3 (quick) or 4x4 (thorough) pattern containing the diagonal, of numbers, 1x1 and 2x2 blocks; every excluded subset for subgraphs (3x3 with all patterns, empty graph included); vertex and edge properties with symbolic contents on both graph kinds; all values
// ASSUME: every diagonal entry is stored (the graphs identify edges with off-diagonal entries relative to it)
#include "flat.h"
#include <bitset>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/properties.hh>
using namespace Dune; using namespace H; using namespace Dune::Amg;
template<int n> static bool all(const Pat<n,n>&){ return true; }
// G: graph under test over the vertices with in[v], edges E
template<int n,class G> static void structure(const G& g,const Pat<n,n>& w,const bool* in,const char* l){ long nv=0; int v=-1; for(auto it=g.begin();it!=g.end();++it){ int x=*it; do { ++v; } while(v<n&&!in[v]); sym_assert_eq_l(x,v,l); nv++; int t=-1; for(auto e=it.begin();e!=it.end();++e){ do { ++t; } while(t<n&&(t==v||!w[v][t]||!in[t])); sym_assert_eq_l((long)e.target(),t,l); sym_assert_eq_l((long)e.source(),v,l); }
    do { ++t; } while(t<n&&(t==v||!w[v][t]||!in[t])); sym_assert_eq_l(t,n,l); long c=0,d=0; for(auto e=g.beginEdges(v);e!=g.endEdges(v);++e) c++; for(int j=0;j<n;j++) d+=(j!=v&&w[v][j]&&in[j]); sym_assert_eq_l(c,d,l); }
  long want=0; for(int i=0;i<n;i++) want+=in[i]; sym_assert_eq_l(nv,want,l); sym_assert_eq_l((long)g.noVertices(),want,l); }
template<class B,int n> static void matrixgraph(){ typedef BCRSMatrix<B> M; auto w=pattern<n,n>(true); M A; build(A,w,sym_concrete_l(sym_int("mode",0,1))?ROWWISE:RANDOM_GAPS); fillvals(A,w); auto D=dense(A); bool in[n]; std::fill(in,in+n,true);
  MatrixGraph<M> g(A); const MatrixGraph<M>& cg=g; const M& CA=A; MatrixGraph<const M> k(CA); structure<n>(cg,w,in,"const graph"); structure<n>(k,w,in,"graph of a const matrix"); SYM_EQ((long)g.maxVertex(),(long)(n-1),"maximal vertex"); SYM_ASSERT(&g.matrix()==&A&&&cg.matrix()==&A&&&k.matrix()==&A,"matrix");
  std::set<std::ptrdiff_t> ids; for(auto v=g.begin();v!=g.end();++v){ SYM_ASSERT(&v.weight()==&A[*v][*v],"vertex weight"); for(auto e=v.begin();e!=v.end();++e){ SYM_ASSERT(&e.weight()==&A[*v][e.target()],"edge weight"); SYM_ASSERT(ids.insert(*e).second,"edge descriptors are unique"); SYM_ASSERT(*e>=0&&(std::size_t)*e<g.noEdges(),"edge descriptor in range"); SYM_EQ((long)g.findEdge(*v,e.target()),(long)*e,"found edge"); typename MatrixGraph<M>::ConstEdgeIterator ce(e); SYM_ASSERT(*ce==*e&&ce.target()==e.target()&&ce.source()==e.source()&&&ce.weight()==&e.weight(),"converted edge iterator"); sym_reach("edge"); } }
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j&&!w[i][j]) SYM_ASSERT(g.findEdge(i,j)==std::numeric_limits<std::ptrdiff_t>::max(),"missing edge");
  struct Count { long k=0; long last=-1; void operator()(const typename MatrixGraph<M>::ConstEdgeIterator& e){ SYM_ASSERT((long)e.target()>last,"visited in order"); last=e.target(); k++; } }; for(int v=0;v<n;v++){ Count c; long d=0; for(int j=0;j<n;j++) d+=j!=v&&w[v][j]; SYM_EQ((long)visitNeighbours(cg,(std::size_t)v,c),d,"number of neighbours"); SYM_EQ(c.k,d,"visited neighbours"); }
  eqm(dense(A),D,"matrix unchanged"); }
SYM_HARNESS(graph_numbers,SYM_REAL,"edge"){ if(sym_tier()) matrixgraph<double,4>(); else matrixgraph<double,3>(); }
SYM_HARNESS(graph_blocks,SYM_REAL,"edge"){ matrixgraph<FieldMatrix<double,2,2>,3>(); }
SYM_HARNESS(subgraph,SYM_REAL,"excluded,edges"){ constexpr int n=3; typedef BCRSMatrix<double> M; auto w=pattern<n,n>(true); M A; build(A,w); MatrixGraph<M> g(A); std::vector<bool> ex(n); bool in[n]; bool any=false; for(int i=0;i<n;i++){ in[i]=!decided(sym_bool("excluded")); ex[i]=!in[i]; any|=in[i]; } typedef SubGraph<MatrixGraph<M>,std::vector<bool>> S; S s(g,ex);
  structure<n>(s,w,in,"subgraph"); long ne=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j&&w[i][j]&&in[i]&&in[j]) ne++; SYM_EQ((long)s.noEdges(),ne,"edges of the subgraph"); SYM_ASSERT(s.maxVertex()>=(std::size_t)(in[2]?2:in[1]?1:0),"maximal vertex"); auto em=s.getEdgeIndexMap(); std::set<std::size_t> ids;
  for(auto v=s.begin();v!=s.end();++v) for(auto e=v.begin();e!=v.end();++e){ SYM_ASSERT(s.findEdge(*v,e.target())==*e,"found edge"); std::size_t q=em[*e]; SYM_ASSERT(q<s.noEdges()&&ids.insert(q).second,"edge index"); sym_reach("edges"); }
  for(int i=0;i<n;i++) if(in[i]) for(int j=0;j<n;j++) if(i!=j&&(!w[i][j]||!in[j])) SYM_ASSERT(s.findEdge(i,j)==std::numeric_limits<typename S::EdgeDescriptor>::max(),"missing edge"); if(!any||ne==0) sym_reach("excluded"); else for(int i=0;i<n;i++) if(!in[i]) sym_reach("excluded"); }
// properties stay with their vertices and edges
template<int n,class G,class F> static void properties(G& p,const Pat<n,n>& w,const bool* in,F edge){ const G& c=p; bool vf[n][4]={},ef[n][n][2]={}; for(auto v=p.begin();v!=p.end();++v){ for(int b=0;b<4;b++) SYM_ASSERT(!v.properties()[b],"initial vertex property"); for(auto e=v.begin();e!=v.end();++e) SYM_ASSERT(!e.properties().depends()&&!e.properties().influences(),"initial edge property"); }
  for(int i=0;i<n;i++) if(in[i]){ for(int b=0;b<4;b++) vf[i][b]=decided(sym_bool("vflag")&&b<(i==0?4:1)); auto& q=p.getVertexProperties(i); if(vf[i][0]) q.setIsolated(); if(vf[i][1]) q.setVisited(); if(vf[i][2]) q.setFront(); if(vf[i][3]) q.setExcludedBorder(); for(int j=0;j<n;j++) if(i!=j&&w[i][j]&&in[j]){ if(i<2||sym_tier()){ ef[i][j][0]=decided(sym_bool("dep")); ef[i][j][1]=i==0?decided(sym_bool("inf")):j==2; } else ef[i][j][1]=true; auto& r=p.getEdgeProperties(i,j); if(ef[i][j][0]) r.setDepends(); if(ef[i][j][1]) r.setInfluences(); } }
  auto look=[&](auto& h,const char* l){ for(auto v=h.begin();v!=h.end();++v){ int i=*v; auto& q=v.properties(); sym_assert_b(&q==&h.getVertexProperties(i),l); sym_assert_b(q.isolated()==vf[i][0]&&q.visited()==vf[i][1]&&q.front()==vf[i][2]&&q.excludedBorder()==vf[i][3],l); for(auto e=v.begin();e!=v.end();++e){ int j=e.target(); auto& r=e.properties(); bool d=ef[i][j][0],f=ef[i][j][1]; sym_assert_b(&r==&h.getEdgeProperties(*e)&&&r==&h.getEdgeProperties(i,j),l); sym_assert_b(r.depends()==d&&r.influences()==f&&r.isStrong()==(d||f)&&r.isOneWay()==(d&&!f)&&r.isTwoWay()==(d&&f),l); } } };
  look(p,"properties"); look(c,"const properties"); for(int i=0;i<n;i++) if(in[i]){ auto& q=p.getVertexProperties(i); int k=i==0?sym_concrete_l(sym_int("reset",0,4)):0; if(k==0){ q.resetIsolated(); vf[i][0]=false; } if(k==1){ q.resetVisited(); vf[i][1]=false; } if(k==2){ q.resetFront(); vf[i][2]=false; } if(k==3){ q.resetExcludedBorder(); vf[i][3]=false; } if(k==4){ q.reset(); for(bool& b:vf[i]) b=false; }
    for(int j=0;j<n;j++) if(i!=j&&w[i][j]&&in[j]){ auto& r=p.getEdgeProperties(i,j); if(k==0){ r.resetDepends(); ef[i][j][0]=false; } if(k==1){ r.resetInfluences(); ef[i][j][1]=false; } if(k==2){ r.reset(); ef[i][j][0]=ef[i][j][1]=false; } } } look(p,"after resetting"); sym_reach("done"); }
SYM_HARNESS(properties_matrix,SYM_REAL,"done"){ constexpr int n=3; typedef BCRSMatrix<double> M; Pat<n,n> w=full<n,n>(); w[0][2]=decided(sym_bool("w")); w[1][0]=decided(sym_bool("w")); w[2][1]=false; M A; build(A,w); typedef MatrixGraph<const M> G; G g(A); typedef Amg::PropertiesGraph<G,VertexProperties,EdgeProperties,IdentityMap,IdentityMap> P; P p(g); bool in[n]={true,true,true}; structure<n>(p,w,in,"properties graph"); SYM_ASSERT(&p.graph()==&g&&p.maxVertex()==2,"graph"); properties<n>(p,w,in,0); }
SYM_HARNESS(properties_sub,SYM_REAL,"done"){ constexpr int n=3; typedef BCRSMatrix<double> M; Pat<n,n> w=full<n,n>(); w[2][1]=decided(sym_bool("w")); M A; build(A,w); typedef MatrixGraph<M> G; G g(A); std::vector<bool> ex(n); bool in[n]; int x=sym_concrete_l(sym_int("excluded",0,n)); for(int i=0;i<n;i++) ex[i]=!(in[i]=(i!=x)); typedef SubGraph<G,std::vector<bool>> S; S s(g,ex); typedef Amg::PropertiesGraph<S,VertexProperties,EdgeProperties,IdentityMap,typename S::EdgeIndexMap> P; P p(s,IdentityMap(),s.getEdgeIndexMap()); structure<n>(p,w,in,"properties graph"); properties<n>(p,w,in,0); }
SYM_HARNESS(properties_vertex,SYM_REAL,"done"){ constexpr int n=3; typedef BCRSMatrix<double> M; auto w=pattern<n,n>(true); M A; build(A,w); typedef MatrixGraph<M> G; G g(A); typedef VertexPropertiesGraph<G,VertexProperties> P; P p(g); const P& c=p; bool in[n]={true,true,true}; structure<n>(c,w,in,"vertex properties graph"); bool f[n]; for(int i=0;i<n;i++){ f[i]=decided(sym_bool("f")); if(f[i]) p.getVertexProperties(i).setVisited(); } int i=0; for(auto v=p.begin();v!=p.end();++v,++i) SYM_ASSERT(v.properties().visited()==f[i]&&!v.properties().front(),"vertex property"); i=0; for(auto v=c.begin();v!=c.end();++v,++i) SYM_ASSERT(v.properties().visited()==f[i]&&&v.properties()==&p.getVertexProperties(i),"const vertex property"); sym_reach("done"); }
// the visited map of a properties graph is the flag of the vertex
SYM_HARNESS(visitedmap,SYM_REAL,"done"){ constexpr int n=3; typedef BCRSMatrix<double> M; auto w=band<n,n>(); M A; build(A,w); typedef MatrixGraph<const M> G; G g(A); typedef Amg::PropertiesGraph<G,VertexProperties,EdgeProperties,IdentityMap,IdentityMap> P; P p(g); auto m=get(VertexVisitedTag(),p); bool f[n]; for(std::size_t i=0;i<n;i++){ f[i]=decided(sym_bool("f")); put(m,i,f[i]); } for(std::size_t i=0;i<n;i++){ SYM_ASSERT(get(m,i)==f[i]&&p.getVertexProperties(i).visited()==f[i],"visited"); SYM_ASSERT(!p.getVertexProperties(i).front()&&!p.getVertexProperties(i).isolated(),"other flags"); } sym_reach("done"); }
SYM_HARNESS(misuse,SYM_REAL,"refused,empty"){ typedef BCRSMatrix<double> M; int n=sym_concrete_l(sym_int("n",0,2)),m=sym_concrete_l(sym_int("m",0,2)); M A(n,m,M::random); for(int i=0;i<n;i++) A.setrowsize(i,0); A.endrowsizes(); A.endindices(); bool t=false; try { MatrixGraph<M> g(A); SYM_EQ((long)g.noVertices(),(long)n,"vertices"); long c=0; for(auto v=g.begin();v!=g.end();++v) c++; SYM_EQ(c,(long)n,"visited"); if(n==0){ std::vector<bool> ex; typedef SubGraph<MatrixGraph<M>,std::vector<bool>> S; alignas(S) static unsigned char mem[sizeof(S)]; for(unsigned char volatile* q=mem;q!=mem+sizeof(S);++q) *q=0xa5; S& s=*new(mem) S(g,ex); SYM_EQ((long)s.noVertices(),0L,"no vertices"); SYM_EQ((long)s.noEdges(),0L,"no edges"); SYM_ASSERT(!(s.begin()!=s.end()),"empty"); s.~S(); sym_reach("empty"); } } catch(ISTLError&){ t=true; } SYM_ASSERT(t==(n!=m),"refusal"); if(t) sym_reach("refused"); }
