// C39: parallel multigrid levels: aggregates, coarse index sets, coarse matrices, transfer
// BOUNDS: 2 processes, 4 unknowns (thorough: also 3 processes and 3 levels), every ownership, every symmetric sparsity pattern (quick: contains a path), two local numberings, fixed order or not, skipping isolated unknowns or not; all values of the matrix in a small range around different numbers off the diagonal (harness weak: any strengths)
// ASSUME: the owner of an unknown holds its complete row and the neighbours as copies or overlap; the values of the copy rows do not matter
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
#include "mpiworld.h"
#include "flat.h"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/transfer.hh>
#include <dune/istl/paamg/aggregates.hh>
#include "par.h"
using namespace Dune; using namespace H;
// blocks: the first entry decides the strength of a coupling, the others are arbitrary
typedef FieldMatrix<double,2,2> B; typedef FieldVector<double,2> F; typedef BCRSMatrix<B> M; typedef BlockVector<F> X; typedef OverlappingSchwarzOperator<M,X,X,Comm> Op; typedef Amg::MatrixHierarchy<Op,Comm> Hier; typedef Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::FirstDiagonal>> Crit; typedef NegateSet<Comm::OwnerSet> Flags;
static const std::size_t ISO=Amg::AggregatesMap<std::size_t>::ISOLATED;
// what a process knows about one level
struct Lev { int n=0; std::vector<int> gid,attr; std::vector<std::vector<std::pair<int,B>>> row; std::vector<std::size_t> agg; std::vector<double> owner,sum; X fine,coarse,x,cx; };
static double symv(bool small){ double v=sym_real("a"); if(small) sym_assume(v<=0.0625&&v>=-0.0625); return v; }
static void eqb(const B& a,const B& b,const char* l){ for(int i=0;i<2;i++) for(int j=0;j<2;j++) sym_eq_(a[i][j],b[i][j],l); }
static void level(int P,std::vector<std::vector<Lev>>& L,std::vector<std::vector<Lev>>& W,int l,bool checkRows){ auto at=[&](int k,int p)->Lev&{ return k==l?W[k][p]:L[k][p]; };
  auto id=[&](int k,int p,int i){ return at(k,p).gid[i]>=0?at(k,p).gid[i]:1000+100*p+i; };
  // one owner for every unknown, everywhere the same
  std::map<int,int> own; for(int p=0;p<P;p++) for(int i=0;i<W[l][p].n;i++) if(W[l][p].attr[i]==O){ SYM_ASSERT(!own.count(id(l,p,i)),"one owner"); own[id(l,p,i)]=p; }
  for(int p=0;p<P;p++) for(int i=0;i<W[l][p].n;i++) SYM_ASSERT(own.count(id(l,p,i))==1,"every unknown is owned by a process");
  for(int p=0;p<P;p++){ std::set<int> s; for(int i=0;i<W[l][p].n;i++) SYM_ASSERT(s.insert(id(l,p,i)).second,"no unknown twice"); }
  if(!checkRows) return;
  std::map<int,int> agg; std::map<int,F> cf; for(int p=0;p<P;p++) for(int i=0;i<W[l][p].n;i++) if(W[l][p].attr[i]==O){ auto a=W[l][p].agg[i]; if(a==ISO){ agg[id(l,p,i)]=-1; continue; } SYM_ASSERT((int)a<L[l+1][p].n,"aggregate number"); SYM_ASSERT(L[l+1][p].attr[a]==O,"aggregates belong to the process of their unknowns"); agg[id(l,p,i)]=id(l+1,p,a); cf.emplace(id(l+1,p,a),F(0)).first->second+=W[l][p].fine[i]; }
  for(int p=0;p<P;p++){ std::set<std::size_t> used; for(int i=0;i<W[l][p].n;i++){ auto a=W[l][p].agg[i]; int g=agg[id(l,p,i)]; if(g<0){ SYM_ASSERT(a==ISO,"isolated everywhere"); continue; } SYM_ASSERT((int)a<L[l+1][p].n&&id(l+1,p,a)==g,"a copy belongs to the aggregate of the original"); used.insert(a); } SYM_EQ((int)used.size(),L[l+1][p].n,"no other coarse unknowns"); }
  std::map<std::pair<int,int>,B> ref; std::set<int> rows; for(int p=0;p<P;p++) for(int i=0;i<W[l][p].n;i++) if(W[l][p].attr[i]==O&&agg[id(l,p,i)]>=0) for(auto& e:W[l][p].row[i]){ int J=agg[id(l,p,e.first)]; if(J>=0) ref.emplace(std::make_pair(agg[id(l,p,i)],J),B(0)).first->second+=e.second; }
  for(int p=0;p<P;p++) for(int i=0;i<L[l+1][p].n;i++){ auto& c=L[l+1][p]; int I=id(l+1,p,i); bool o=c.attr[i]==O,diag=o; int cnt=0; for(auto& e:c.row[i]){ auto r=ref.find({I,id(l+1,p,e.first)}); SYM_ASSERT(r!=ref.end(),"pattern of the coarse matrix"); if(o) eqb(e.second,r->second,"Galerkin product"); else if(e.first==i){ eqb(e.second,r->second,"coarse copy rows have the diagonal of the owner"); diag=true; } cnt++; } int all=0; for(auto& r:ref) all+=r.first.first==I; SYM_ASSERT(diag,"diagonal of the coarse copy rows"); if(o) SYM_EQ(cnt,all,"owned coarse rows are complete");
    SYM_EQ(c.owner[i],(double)(1000*(l+1)+I),"the coarse communication reaches the owner"); 
    if(c.attr[i]!=V) eqv1(W[l][p].coarse[i],o?cf[I]:F(0),"restriction"); }
  for(int p=0;p<P;p++) for(int i=0;i<W[l][p].n;i++){ auto& f=W[l][p]; int g=agg[id(l,p,i)]; for(int k=0;k<2;k++) SYM_EQ(f.x[i][k],f.fine[i][k]+(g<0?0.0:0.5*f.cx[f.agg[i]][k]),"prolongation"); }
}
// everything on the first process
static void accumulated(int P,std::vector<Lev>& L,std::vector<Lev>& R){ std::map<std::pair<int,int>,B> ref; std::set<int> all; for(int p=0;p<P;p++) for(int i=0;i<L[p].n;i++) if(L[p].attr[i]==O){ SYM_ASSERT(L[p].gid[i]>=0,"global index"); all.insert(L[p].gid[i]); for(auto& e:L[p].row[i]) ref[{L[p].gid[i],L[p].gid[e.first]}]=e.second; }
  for(int p=1;p<P;p++) SYM_EQ(R[p].n,0,"nothing on the other processes"); SYM_EQ(R[0].n,(int)all.size(),"all unknowns on the first process"); for(int i=0;i<R[0].n;i++){ SYM_ASSERT(R[0].gid[i]>=0&&all.erase(R[0].gid[i])==1&&R[0].attr[i]==O,"owned"); for(auto& e:R[0].row[i]){ auto f=ref.find({R[0].gid[i],R[0].gid[e.first]}); SYM_ASSERT(f!=ref.end(),"pattern of the accumulated matrix"); eqb(e.second,f->second,"entries of the accumulated matrix"); ref.erase(f); } } SYM_ASSERT(ref.empty(),"complete accumulated matrix"); }
static void hier(int P,int G,int levels,bool holes,bool roles,bool path,bool weak,bool acc=false){
  std::vector<int> own(G); for(auto& o:own) o=sym_concrete_l(sym_int("owner",0,P-1)); std::vector<bool> w(G*G,false); for(int i=0;i<G;i++) for(int j=i;j<G;j++) w[i*G+j]=w[j*G+i]=i==j||(path&&j==i+1)||decided(sym_bool("w"));
  std::vector<B> A(G*G); for(int i=0;i<G;i++) for(int j=i;j<G;j++) if(w[i*G+j]){ double v=i==j?4+i:-1-0.125*(i*G+j); if(weak&&i!=j){ v=-sym_real("a"); sym_assume(v<=-0.125&&v>=-2.0); } A[i*G+j][0][0]=A[j*G+i][0][0]=v; for(int k=0;k<(i==j?1:2);k++) for(int z=1;z<4;z++) A[k?j*G+i:i*G+j][z/2][z%2]=symv(i!=j&&!weak); }
  Dist d(P,0); d.G=G; d.a.assign(P,std::vector<int>(G,N)); d.loc.assign(P,std::vector<int>(G,-1)); for(int p=0;p<P;p++) for(int g=0;g<G;g++){ bool nbr=false; for(int h=0;h<G;h++) nbr|=own[h]==p&&w[g*G+h]; d.a[p][g]=own[g]==p?O:nbr?C:N; if(nbr&&own[g]!=p&&roles) d.a[p][g]=V; } d.number(decided(sym_bool("reversed numbering"))); bool fixed=decided(sym_bool("fixed order")),skip=decided(sym_bool("skip isolated"));
  auto glob=[&](int p,int l){ for(int g=0;g<G;g++) if(d.loc[p][g]==l) return g; return -1; };
  auto holed=[&](int p,int g){ if(!holes||d.a[p][g]!=O) return false; for(int q=0;q<P;q++) if(q!=p&&d.a[q][g]!=N) return false; return true; }; double junk=sym_real("junk"); B jb(junk); jb[0][0]=0;
  std::vector<std::vector<Lev>> L(levels,std::vector<Lev>(P)),L2(L),R(L),R2(L),W(L),W2(L); std::vector<std::vector<int>> isred(P,std::vector<int>(levels,0)); std::vector<B> A2(G*G); for(int i=0;i<G*G;i++) if(w[i]) for(int z=0;z<4;z++) A2[i][z/2][z%2]=sym_real("n"); std::vector<int> nl(P);
  MW::run(P,[&](int r){ auto c=std::make_shared<Comm>(MPI_COMM_WORLD); auto& s=c->indexSet(); s.beginResize(); for(int g=0;g<G;g++) if(d.a[r][g]!=N&&!holed(r,g)) s.add(10*g+3,Comm::ParallelIndexSet::LocalIndex(d.loc[r][g],(OwnerOverlapCopyAttributeSet::AttributeSet)d.a[r][g],true)); s.endResize(); c->remoteIndices().template rebuild<false>();
    int m=d.n(r); auto mat=std::make_shared<M>(); mat->setBuildMode(M::row_wise); mat->setSize(m,m,m*m); int l=0; for(auto it=mat->createbegin();it!=mat->createend();++it,++l) for(int q=0;q<m;q++) if(w[glob(r,l)*G+glob(r,q)]) it.insert(q);
    for(l=0;l<m;l++) for(auto j=(*mat)[l].begin();j!=(*mat)[l].end();++j) *j=d.a[r][glob(r,l)]==O?A[glob(r,l)*G+glob(r,j.index())]:(int)j.index()==l?B(1.0):jb;
    auto op=std::make_shared<Op>(*mat,*c); Hier h(op,c); Crit crit(levels-1,1); crit.setDebugLevel(0); crit.setMinAggregateSize(2); crit.setMaxAggregateSize(2); crit.setAlpha(weak?0.33:0.001); crit.setBeta(0.0001); crit.setMinCoarsenRate(0.1); crit.setUseFixedOrder(fixed); crit.setSkipIsolated(skip); crit.setAccumulate(acc?Amg::atOnceAccu:Amg::noAccu);
    h.template build<Flags>(crit); SYM_ASSERT(h.levels()<=(std::size_t)levels,"number of levels"); SYM_ASSERT(h.maxlevels()>=h.levels()&&(acc||h.maxlevels()==h.levels()),"all processes have the same levels"); SYM_EQ(h.parallelInformation().levels(),h.levels(),"levels of the parallel information");
    auto look=[&](std::vector<std::vector<Lev>>& L,std::vector<std::vector<Lev>>& R,std::vector<std::vector<Lev>>& W){ auto mi=h.matrices().finest(); auto pi=h.parallelInformation().finest(); auto ag=h.aggregatesMaps().begin();
      auto read=[&](Lev& v,const M& B,const Comm& pi){ v.n=B.N(); SYM_EQ(B.M(),B.N(),"square"); v.gid.assign(v.n,-1); v.attr.assign(v.n,O); for(auto& e:pi.indexSet()){ int li=(std::size_t)e.local(); SYM_ASSERT(li<v.n&&v.gid[li]<0,"local index"); v.gid[li]=e.global(); v.attr[li]=e.local().attribute(); } v.row.resize(v.n); for(int i=0;i<v.n;i++) for(auto j=B[i].begin();j!=B[i].end();++j) v.row[i].push_back({(int)j.index(),*j}); };
      for(int k=0;k<(int)h.levels();k++,++mi,++pi,++ag){ Lev& v=L[k][r]; read(v,mi->getmat(),*pi); bool red=mi.isRedistributed(); isred[r][k]=red; if(red) read(R[k][r],mi.getRedistributed().getmat(),pi.getRedistributed());
        if(k>0){ v.owner.assign(v.n,-1.0); for(int i=0;i<v.n;i++) if(v.attr[i]==O) v.owner[i]=1000*k+(v.gid[i]>=0?v.gid[i]:1000+100*r+i); const_cast<Comm&>(*pi).copyOwnerToAll(v.owner,v.owner); }
        Lev& w=W[k][r]; w=red?R[k][r]:v; Comm& ci=const_cast<Comm&>(red?pi.getRedistributed():*pi);
        if(k+1<(int)h.levels()){ SYM_EQ((int)(*ag)->noVertices(),w.n,"aggregates of all unknowns"); w.agg.assign((*ag)->begin(),(*ag)->end()); w.fine.resize(w.n); for(int i=0;i<w.n;i++) for(int k=0;k<2;k++) w.fine[i][k]=sym_real("f"); auto q=pi; ++q; auto n=mi; ++n; std::size_t cn=n->getmat().N(); w.coarse.resize(cn); w.cx.resize(cn); for(auto& t:w.cx) for(auto& u:t) u=sym_real("c"); w.coarse=junk; w.x=w.fine; Amg::Transfer<std::size_t,X,Comm>::restrictVector(**ag,w.coarse,w.fine,const_cast<Comm&>(*q)); X cc(w.cx); Amg::Transfer<std::size_t,X,Comm>::prolongateVector(**ag,cc,w.x,0.5,ci); } } };
    look(L,R,W); nl[r]=h.levels();
    // new values in the same matrix
    for(l=0;l<m;l++) if(d.a[r][glob(r,l)]==O) for(auto j=(*mat)[l].begin();j!=(*mat)[l].end();++j) *j=A2[glob(r,l)*G+glob(r,j.index())]; if(!weak){ h.recalculateGalerkin(Flags()); look(L2,R2,W2); }
    },false);
  for(int p=1;p<P;p++) SYM_ASSERT(nl[p]==nl[0]||(acc&&nl[p]<nl[0]&&isred[p][nl[p]-1]&&R[nl[p]-1][p].n==0),"all processes with data have the same levels");
  for(int l=0;l<nl[0];l++){ level(P,L,W,l,l+1<nl[0]); if(!weak) level(P,L2,W2,l,l+1<nl[0]); if(isred[0][l]){ accumulated(P,L[l],R[l]); accumulated(P,L2[l],R2[l]); } } for(int p=0;p<P;p++) for(int i=0;i<L2[0][p].n;i++) if(L2[0][p].attr[i]==O) for(auto& e:L2[0][p].row[i]) eqb(e.second,A2[glob(p,i)*G+glob(p,e.first)],"the finest matrix is the given one");
  bool any=false; for(int l=0;l<nl[0];l++) any|=isred[0][l]; SYM_ASSERT(any==acc,"accumulated if wanted"); if(any&&!isred[0][nl[0]-1]) sym_reach("redistributed before coarsening");
  if(nl[0]>1) sym_reach("coarse level"); }
SYM_HARNESS(pair,SYM_REAL,"coarse level"){ hier(2,3,2,false,false,false,false); }
SYM_HARNESS(four,SYM_REAL,"coarse level"){ hier(2,4,2,false,false,!sym_tier(),false); }
SYM_HARNESS(holes,SYM_REAL,"coarse level"){ hier(2,3,2,true,false,false,false); }
SYM_HARNESS(overlaps,SYM_REAL,"coarse level"){ hier(2,3,2,false,true,false,false); }
SYM_HARNESS(weak,SYM_REAL,"coarse level"){ hier(2,3,2,false,false,true,true); }
SYM_HARNESS(threelevels,SYM_REAL,"coarse level"){ hier(2,4,3,false,false,true,false); }
SYM_HARNESS(three,SYM_REAL,"coarse level"){ hier(3,3,2,false,false,true,false); }
SYM_HARNESS(accumulated4,SYM_REAL,"coarse level"){ hier(2,4,2,false,false,true,false,true); }
SYM_HARNESS(accumulated3,SYM_REAL,"coarse level,redistributed before coarsening"){ hier(3,3,2,false,false,true,false,true); }
