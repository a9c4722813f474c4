// C36: redistributing a parallel matrix and vectors over another number of processes
// BOUNDS: 2 processes with 3 unknowns (thorough: 3 with 3), every initial ownership (also processes without unknowns), every symmetric sparsity pattern, every answer of the graph partitioner for 1 to P parts, two local numberings, index sets with and without the unknowns that no other process has; all values
// ASSUME: the owner of an unknown holds its complete row and the neighbours as copies; the partitioner answers with part numbers in range
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include -DHAVE_PARMETIS=1 -I/verif/harness/mockparmetis
#include "mpiworld.h"
#include "flat.h"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include "par.h"
using namespace Dune; using namespace H;
// what the partitioner was asked and answered
struct Part { std::vector<std::vector<int>> xadj,adj,part; std::vector<int> dist; std::vector<int> whole; int np=0; bool called=false; }; static Part* PT;
extern "C" {
int METIS_SetDefaultOptions(::idx_t* o){ for(int i=0;i<METIS_NOPTIONS;i++) o[i]=-1; return 1; }
int METIS_PartGraphRecursive(::idx_t* n,::idx_t* ncon,::idx_t* xadj,::idx_t* adj,::idx_t*,::idx_t*,::idx_t*,::idx_t* np,::real_t*,::real_t*,::idx_t* opt,::idx_t* cut,::idx_t* part){ SYM_ASSERT(*n==MW::w()->P&&*ncon==1&&opt[METIS_OPTION_NUMBERING]==0,"partitioner: one vertex for every process"); PT->np=*np; PT->called=true; SYM_EQ(xadj[0],0,"partitioner: graph");
  for(int i=0;i<*n;i++){ SYM_ASSERT(xadj[i]<=xadj[i+1],"partitioner: graph"); for(int k=xadj[i];k<xadj[i+1];k++){ int j=adj[k]; SYM_ASSERT(j>=0&&j<*n&&j!=i,"partitioner: edges to other processes"); bool back=false; for(int q=xadj[j];q<xadj[j+1];q++) back|=adj[q]==i; SYM_ASSERT(back,"partitioner: symmetric graph"); } }
  if(PT->whole.empty()) for(int i=0;i<*n;i++) PT->whole.push_back(sym_concrete_l(sym_int("part",0,*np-1))); for(int i=0;i<*n;i++) part[i]=PT->whole[i]; *cut=0; return 1; }
int ParMETIS_V3_PartKway(::idx_t* vtxdist,::idx_t* xadj,::idx_t* adj,::idx_t*,::idx_t*,::idx_t*,::idx_t* numflag,::idx_t* ncon,::idx_t* np,::real_t*,::real_t*,::idx_t*,::idx_t* cut,::idx_t* part,MPI_Comm*){ int r=MW::w()->me,P=MW::w()->P; SYM_ASSERT(*numflag==0&&*ncon==1,"partitioner: arguments"); PT->np=*np; PT->called=true; std::vector<int> d(vtxdist,vtxdist+P+1); if(PT->dist.empty()) PT->dist=d; SYM_ASSERT(PT->dist==d,"partitioner: the same distribution on all processes"); int n=d[r+1]-d[r];
  PT->xadj[r].assign(xadj,xadj+n+1); SYM_EQ(xadj[0],0,"partitioner: graph"); PT->adj[r].assign(adj,adj+xadj[n]); PT->part[r].resize(n); for(int i=0;i<n;i++) PT->part[r][i]=part[i]=sym_concrete_l(sym_int("part",0,*np-1)); *cut=0; return 1; }
}
template<class K,int n> struct T { typedef FieldMatrix<K,n,n> B; typedef BCRSMatrix<B> M; typedef FieldVector<K,n> F; typedef BlockVector<F> X; };
template<class K,int n> static void redist(int P,int G,int mode,bool holes,bool roles,int fixparts=0){
  typedef typename T<K,n>::M M; typedef typename T<K,n>::B B; typedef typename T<K,n>::X X; typedef typename T<K,n>::F F;
  // global problem and initial distribution
  std::vector<int> own(G); for(auto& o:own) o=sym_concrete_l(sym_int("owner",0,P-1)); std::vector<bool> w(G*G,false); for(int i=0;i<G;i++) for(int j=i;j<G;j++) w[i*G+j]=w[j*G+i]=i==j||decided(sym_bool("w"));
  std::vector<B> A(G*G); std::vector<F> b(G),nb(G); for(int k=0;k<G*G;k++) if(w[k]) for(int i=0;i<n;i++) for(int j=0;j<n;j++) A[k][i][j]=sym_real("a"); for(int g=0;g<G;g++) for(int i=0;i<n;i++){ b[g][i]=sym_real("b"); nb[g][i]=sym_real("nb"); }
  Dist d(P,0); d.G=G; d.a.assign(P,std::vector<int>(G,N)); d.loc.assign(P,std::vector<int>(G,-1)); for(int p=0;p<P;p++) for(int g=0;g<G;g++){ bool nbr=false; for(int h=0;h<G;h++) nbr|=own[h]==p&&w[g*G+h]; d.a[p][g]=own[g]==p?O:nbr?C:N; if(nbr&&own[g]!=p&&roles&&decided(sym_bool("overlap"))) d.a[p][g]=V; } d.number(decided(sym_bool("reversed numbering")));
  int np=fixparts?fixparts:sym_concrete_l(sym_int("parts",1,P)); Part pt; pt.xadj.resize(P); pt.adj.resize(P); pt.part.resize(P); PT=&pt; 
  auto glob=[&](int p,int l){ for(int g=0;g<G;g++) if(d.loc[p][g]==l) return g; return -1; };
  std::vector<M> L(P),NM(P); std::vector<X> xb(P),xn(P),xb2(P),xn2(P); std::vector<std::vector<double>> ch(P); std::vector<int> ret(P),nrank(P,-2),nsize(P,-2); std::vector<std::vector<std::array<int,3>>> ns(P); std::vector<std::vector<int>> gi(P); double junk=sym_real("junk");
  for(int p=0;p<P;p++){ int m=d.n(p); L[p].setBuildMode(M::row_wise); L[p].setSize(m,m,m*m); int l=0; for(auto it=L[p].createbegin();it!=L[p].createend();++it,++l) for(int q=0;q<m;q++) if(w[glob(p,l)*G+glob(p,q)]) it.insert(q);
    xb[p].resize(m); xb2[p].resize(m); for(l=0;l<m;l++){ int g=glob(p,l); for(auto j=L[p][l].begin();j!=L[p][l].end();++j){ if(d.a[p][g]==O) *j=A[g*G+glob(p,j.index())]; else *j=junk; } xb[p][l]=junk; if(d.a[p][g]==O) xb[p][l]=b[g]; xb2[p][l]=junk; } }
  auto holed=[&](int p,int g){ if(!holes||d.a[p][g]!=O) return false; for(int q=0;q<P;q++) if(q!=p&&d.a[q][g]!=N) return false; return true; };
  MW::run(P,[&](int r){ Comm c(MPI_COMM_WORLD); auto& s=c.indexSet(); s.beginResize(); for(int g=0;g<G;g++) if(d.a[r][g]!=N&&!holed(r,g)) s.add(10*g+3,typename Comm::ParallelIndexSet::LocalIndex(d.loc[r][g],(OwnerOverlapCopyAttributeSet::AttributeSet)d.a[r][g],true)); s.endResize(); c.remoteIndices().template rebuild<false>();
    std::shared_ptr<Comm> nc; RedistributeInformation<Comm> ri; SYM_ASSERT(!ri.isSetup(),"not set up yet"); bool ex;
    if(mode==0){ Amg::MatrixGraph<M> graph(L[r]); ex=graphRepartition(graph,c,np,nc,ri.getInterface()); } else if(mode==1) ex=commGraphRepartition(L[r],c,np,nc,ri.getInterface()); else { typedef Amg::MatrixGraph<M> MG; MG mg(L[r]); Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap> graph(mg); ex=graphRepartition(graph,c,np,nc,ri.getInterface()); }
    ri.setSetup(); SYM_ASSERT(ri.isSetup(),"set up"); ret[r]=ex; nrank[r]=nc->communicator().rank(); nsize[r]=nc->communicator().size(); SYM_ASSERT(nc->category()==c.category(),"category");
    gi[r].assign(d.n(r),-1); for(auto& e:c.indexSet()) gi[r][(std::size_t)e.local()]=e.global(); for(auto& e:nc->indexSet()) ns[r].push_back({(int)e.global(),(int)(std::size_t)e.local(),(int)e.local().attribute()});
    redistributeMatrix(L[r],NM[r],c,*nc,ri); std::size_t m=nc->indexSet().size();
    xn[r].resize(m); xn2[r].resize(m); for(std::size_t i=0;i<m;i++){ xn[r][i]=junk; xn2[r][i]=junk; } ri.redistribute(xb[r],xn[r]);
    ch[r].assign(m,-1.0); for(auto& t:ns[r]) if(t[2]==O) ch[r][t[1]]=t[0]; if(ex) nc->copyOwnerToAll(ch[r],ch[r]);
    // the way back
    for(auto& t:ns[r]) if(t[2]==O) for(int p=0;p<P;p++) for(int l=0;l<(int)gi[p].size();l++) if(gi[p][l]==t[0]&&d.a[p][glob(p,l)]==O) xn2[r][t[1]]=nb[glob(p,l)];
    c.communicator().barrier(); for(auto& t:ns[r]) if(t[2]==O) for(int p=0;p<P;p++) for(int l=0;l<(int)gi[p].size();l++) if(gi[p][l]==t[0]&&d.a[p][glob(p,l)]==O) xn2[r][t[1]]=nb[glob(p,l)];
    ri.redistributeBackward(xb2[r],xn2[r]); },false);
  // global numbers: the old ones stay, every unknown has one number, no two have the same
  std::vector<int> gg(G,-1); for(int p=0;p<P;p++) for(int l=0;l<d.n(p);l++){ int g=glob(p,l); SYM_ASSERT(gi[p][l]>=0,"every unknown is in the index set"); if(!holed(p,g)) SYM_EQ(gi[p][l],10*g+3,"global index kept"); if(gg[g]<0) gg[g]=gi[p][l]; SYM_EQ(gg[g],gi[p][l],"one global index"); } for(int g=0;g<G;g++) for(int h=0;h<g;h++) SYM_ASSERT(gg[g]!=gg[h],"different global indices");
  auto ofgi=[&](int k){ for(int g=0;g<G;g++) if(gg[g]==k) return g; SYM_ASSERT(false,"known global index"); return 0; };
  // every unknown has one owner; parts stay together
  std::vector<int> now(G,-1); for(int p=0;p<P;p++) for(auto& t:ns[p]) if(t[2]==O){ int g=ofgi(t[0]); SYM_ASSERT(now[g]<0,"one new owner"); now[g]=p; } for(int g=0;g<G;g++) SYM_ASSERT(now[g]>=0,"a new owner");
  std::vector<int> part(G,0); if(mode==1){ if(np>1) for(int g=0;g<G;g++) part[g]=pt.whole[own[g]]; for(int g=0;g<G;g++) SYM_EQ(now[g],part[g],"unknowns move with their process"); }
  else if(np>1){ // vertices of the partitioner are the owned unknowns in the order of local or of global indices
    bool ok=false; for(int order=0;order<2&&!ok;order++){ std::vector<int> num(G,-1),pp(G,-1); bool good=true; for(int p=0;p<P;p++){ int k=0; for(int q=0;q<(order?1000:d.n(p));q++){ int g=-1; if(order){ for(int h=0;h<G;h++) if(gg[h]==q&&own[h]==p) g=h; } else { g=glob(p,q); if(d.a[p][g]!=O) g=-1; } if(g<0) continue; num[g]=pt.dist[p]+k; pp[g]=pt.part[p][k]; k++; } good=good&&pt.dist[p+1]-pt.dist[p]==k; }
      if(good) for(int g=0;g<G;g++){ int k=num[g]-pt.dist[own[g]]; std::vector<int> e(pt.adj[own[g]].begin()+pt.xadj[own[g]][k],pt.adj[own[g]].begin()+pt.xadj[own[g]][k+1]),f; for(int h=0;h<G;h++) if(h!=g&&w[g*G+h]) f.push_back(num[h]); std::sort(e.begin(),e.end()); std::sort(f.begin(),f.end()); good=good&&e==f; }
      if(good) for(int g=0;g<G;g++) for(int h=0;h<g;h++) good=good&&(pp[g]==pp[h])==(now[g]==now[h]); ok=good; }
    SYM_ASSERT(ok,"every unknown goes where the partitioner put it"); }
  else for(int g=0;g<G;g++) SYM_EQ(now[g],0,"one part: the first process has everything");
  int exist=0; for(int p=0;p<P;p++){ bool has=false; for(int g=0;g<G;g++) has|=now[g]==p; SYM_EQ((int)ret[p],(int)has,"processes that hold data"); if(has){ SYM_EQ(nrank[p],exist,"rank in the new communicator"); exist++; } } for(int p=0;p<P;p++) if(ret[p]) SYM_EQ(nsize[p],exist,"size of the new communicator"); else SYM_ASSERT(ns[p].empty()&&NM[p].N()==0,"nothing on the other processes");
  for(int p=0;p<P;p++) if(ret[p]){ std::size_t m=ns[p].size(); SYM_ASSERT(NM[p].N()==m&&NM[p].M()==m,"size of the matrix"); std::vector<int> lg(m,-1),at(m); for(auto& t:ns[p]){ SYM_ASSERT(t[1]>=0&&t[1]<(int)m&&lg[t[1]]<0,"local numbers"); lg[t[1]]=ofgi(t[0]); at[t[1]]=t[2]; }
    for(int g=0;g<G;g++){ bool nbr=false,in=false; for(int h=0;h<G;h++) nbr|=now[h]==p&&w[g*G+h]; for(int q:lg) in|=q==g; SYM_ASSERT(in==nbr,"own unknowns and their neighbours"); }
    for(std::size_t i=0;i<m;i++){ int g=lg[i]; if(at[i]==O){ for(int x=0;x<n;x++) SYM_EQ(xn[p][i][x],b[g][x],"vector entries move to the new owner"); std::size_t cnt=0; for(std::size_t j=0;j<m;j++){ bool e=NM[p].exists(i,j); SYM_ASSERT(e==(bool)w[g*G+lg[j]],"pattern of an owned row"); if(e){ cnt++; for(int x=0;x<n;x++) for(int y=0;y<n;y++) SYM_EQ(NM[p][i][j][x][y],A[g*G+lg[j]][x][y],"entries of an owned row"); } } std::size_t all=0; for(int h=0;h<G;h++) all+=w[g*G+h]; SYM_EQ(cnt,all,"owned rows are complete"); }
      else { SYM_ASSERT(at[i]==C&&NM[p].exists(i,i),"diagonal of a copy row"); for(auto j=NM[p][i].begin();j!=NM[p][i].end();++j) for(int x=0;x<n;x++) for(int y=0;y<n;y++) SYM_EQ((*j)[x][y],(double)(j.index()==i&&x==y),"copy rows are unit rows"); for(std::size_t j=0;j<m;j++) SYM_ASSERT(NM[p].exists(i,j)==NM[p].exists(j,i),"symmetric pattern"); }
      SYM_EQ(ch[p][i],(double)gg[g],"the new communication reaches the owner"); } }
  for(int p=0;p<P;p++) for(int l=0;l<d.n(p);l++){ int g=glob(p,l); if(d.a[p][g]==O) for(int x=0;x<n;x++) SYM_EQ(xb2[p][l][x],nb[g][x],"backward redistribution"); }
  if(exist>1) sym_reach("several processes left"); if(exist<P) sym_reach("fewer processes"); }
SYM_HARNESS(graph,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(sym_tier()?3:2,3,0,false,false); }
SYM_HARNESS(graphholes,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(2,3,0,true,false); }
SYM_HARNESS(propgraph,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(2,2,2,true,false); }
SYM_HARNESS(graph3,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(3,2,0,false,false); }
SYM_HARNESS(commgraph,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(2,3,1,false,false); }
SYM_HARNESS(commgraph3,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(3,2,1,true,false); }
SYM_HARNESS(blocks,SYM_REAL,"several processes left,fewer processes"){ redist<double,2>(2,2,0,false,false); }
SYM_HARNESS(overlaps,SYM_REAL,"several processes left,fewer processes"){ redist<double,1>(2,2,0,false,true); }
