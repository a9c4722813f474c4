// C36: redistributing nonoverlapping decompositions, where the rows of shared unknowns are spread over the processes
// BOUNDS: 2 processes with 3 unknowns, every set of holders of each unknown, every symmetric pattern, every answer of the partitioner for 1 to 2 parts; all values
// ASSUME: an unknown is owned by the lowest of the processes that have it, local matrices hold complete entries
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include -DHAVE_PARMETIS=1 -I/verif/harness/mockparmetis
#include "mpiworld.h"
#include "flat.h"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/novlpschwarz.hh>
#include "par.h"
using namespace Dune; using namespace H;
typedef FieldMatrix<double,1,1> B; typedef BCRSMatrix<B> M; typedef BlockVector<FieldVector<double,1>> X;
extern "C" {
int METIS_SetDefaultOptions(idx_t*){ return 1; }
int METIS_PartGraphRecursive(::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::real_t*,::real_t*,::idx_t*,::idx_t*,::idx_t*){ abort(); }
int ParMETIS_V3_PartKway(::idx_t* vtxdist,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t*,::idx_t* np,::real_t*,::real_t*,::idx_t*,::idx_t* cut,::idx_t* part,MPI_Comm*){ int r=MW::w()->me; for(int i=0;i<vtxdist[r+1]-vtxdist[r];i++) part[i]=sym_concrete_l(sym_int("part",0,*np-1)); *cut=0; return 1; }
}
static void redist(int P,int G,int np,bool ghosts=false,bool knownLost=false){ Dist d(P,0); d.G=G; d.a.assign(P,std::vector<int>(G,N)); d.loc.assign(P,std::vector<int>(G,-1));
  for(int g=0;g<G;g++){ bool own=false; for(int p=0;p<P;p++){ int k=p==P-1&&!own?1:sym_concrete_l(sym_int("holds",0,ghosts?2:1)); if(k==1){ d.a[p][g]=own?C:O; own=true; } else if(k==2) d.a[p][g]=V; } } d.number(decided(sym_bool("reversed numbering")));
  std::vector<double> A(G*G),x(G),b(G); std::vector<bool> w(G*G,false); for(int i=0;i<G;i++) for(int j=i;j<G;j++){ bool held=false; for(int p=0;p<P;p++) held|=(d.a[p][i]==O||d.a[p][i]==C)&&(d.a[p][j]==O||d.a[p][j]==C); w[i*G+j]=w[j*G+i]=i==j||(held&&decided(sym_bool("w"))); } for(int k=0;k<G*G;k++) if(w[k]) A[k]=sym_real("a"); for(auto& e:x) e=sym_real("x"); for(auto& e:b) e=sym_real("b");
  auto glob=[&](int p,int l){ for(int g=0;g<G;g++) if(d.loc[p][g]==l) return g; return -1; }; double junk=sym_real("junk");
  std::vector<M> L(P),NM(P); std::vector<X> xb(P),xn(P),X_(P),Y_(P); std::vector<std::vector<std::array<int,3>>> ns(P); std::vector<int> ret(P);
  for(int p=0;p<P;p++){ int m=d.n(p); L[p].setBuildMode(M::row_wise); L[p].setSize(m,m,m*m); int l=0; for(auto it=L[p].createbegin();it!=L[p].createend();++it,++l) for(int q=0;q<m;q++) if(w[glob(p,l)*G+glob(p,q)]) it.insert(q); xb[p].resize(m); for(l=0;l<m;l++){ int g=glob(p,l); for(auto j=L[p][l].begin();j!=L[p][l].end();++j) *j=A[g*G+glob(p,j.index())]; xb[p][l]=d.a[p][g]==O?b[g]:junk; } }
  MW::run(P,[&](int r){ Comm c(MPI_COMM_WORLD,SolverCategory::nonoverlapping); d.setup(c,r); std::shared_ptr<Comm> nc; RedistributeInformation<Comm> ri; Amg::MatrixGraph<M> graph(L[r]); ret[r]=graphRepartition(graph,c,np,nc,ri.getInterface()); ri.setSetup(); SYM_ASSERT(nc->category()==SolverCategory::nonoverlapping,"category");
    for(auto& e:nc->indexSet()) ns[r].push_back({((int)e.global()-3)/10,(int)(std::size_t)e.local(),(int)e.local().attribute()}); redistributeMatrix(L[r],NM[r],c,*nc,ri); std::size_t m=ns[r].size(); xn[r].resize(m); X_[r].resize(m); Y_[r].resize(m); for(auto& t:ns[r]){ xn[r][t[1]]=junk; X_[r][t[1]]=x[t[0]]; } ri.redistribute(xb[r],xn[r]);
    if(ret[r]&&NM[r].N()==m){ NonoverlappingSchwarzOperator<M,X,X,Comm> op(NM[r],*nc); op.apply(X_[r],Y_[r]); } },false);
  std::vector<int> now(G,-1); for(int p=0;p<P;p++) for(auto& t:ns[p]) if(t[2]==O){ SYM_ASSERT(now[t[0]]<0,"one new owner"); now[t[0]]=p; } int ex=0; for(int g=0;g<G;g++) SYM_ASSERT(now[g]>=0,"a new owner"); for(int r:ret) ex+=r;
  for(int p=0;p<P;p++) if(ret[p]){ SYM_EQ(NM[p].N(),ns[p].size(),"size of the matrix"); for(auto& t:ns[p]) if(t[2]==O){ double e=0; for(int j=0;j<G;j++) if(w[t[0]*G+j]) e+=A[t[0]*G+j]*x[j]; bool lost=false; double le=e; for(int j=0;j<G;j++) if(w[t[0]*G+j]&&now[j]!=p){ int o=-1; for(int q=P-1;q>=0;q--) if(d.a[q][t[0]]==O) o=q; if(d.a[o][j]!=O&&d.a[o][j]!=C){ lost=true; le-=A[t[0]*G+j]*x[j]; } }
    if(!lost) SYM_EQ(Y_[p][t[1]][0],e,"the redistributed operator is the same operator"); else { double y=Y_[p][t[1]][0]; SYM_ASSERT((y==e)|(y==le),"the redistributed operator is the same operator up to couplings to other new processes that the old owner did not have"); if(knownLost) SYM_EQ(y,e,"couplings of a shared unknown to unknowns that the old owner did not have and that move to another process"); } SYM_EQ(xn[p][t[1]][0],b[t[0]],"vector entries move to the new owner"); } }
  if(ex==1) sym_reach("one process left"); if(ex>1) sym_reach("several processes left"); }
SYM_HARNESS(one,SYM_REAL,"one process left"){ redist(2,3,1); }
SYM_HARNESS(one3,SYM_REAL,"one process left"){ redist(3,2,1); }
SYM_HARNESS(oneghost,SYM_REAL,"one process left"){ redist(2,3,1,true); }
SYM_HARNESS(two,SYM_REAL,"several processes left"){ redist(2,3,2); }
SYM_HARNESS(twoghost,SYM_REAL,"several processes left"){ redist(2,2,2,true); }
// the known finding, see known_findings.json
SYM_HARNESS(twolost,SYM_REAL,"several processes left"){ redist(2,3,2,false,true); }
