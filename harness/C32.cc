// C32: communication of owner/overlap/copy vectors between processes
// BOUNDS: 2 processes with 2 global indices and 3 processes with 1 (thorough: 2 with 3, 3 with 2), every assignment of an owner and of absent/overlap/copy on the other processes, local numbering in either direction, either order of running and of completing requests; all values
// ASSUME: messages between processes are delivered by a stand-in for the MPI library
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
#include "mpiworld.h"
#include "flat.h"
#include <complex>
#include <dune/istl/owneroverlapcopy.hh>
#include "par.h"
using namespace Dune; using namespace H;
typedef FieldVector<double,1> F1; typedef FieldVector<double,2> F2; typedef FieldVector<std::complex<double>,1> FC;
enum { OwnerAll, CopyAll, AddOvAll, AddCopyAll, AddCopyCopy };
static bool from(int op,int a){ return op==OwnerAll?a==O:op==CopyAll?a==C:op==AddOvAll?a==O||a==V:a==O||a==C; }
static bool to(int op,int a){ return op==AddCopyCopy?a==O||a==C:true; }
// what a rank holds at an unknown after the operation; for copies from several sources every one of them is possible
template<class B> static void ops(Dist& d,int op,bool inplace){ typedef BlockVector<B> X; std::vector<X> src(d.P),dst(d.P),out(d.P);
  for(int r=0;r<d.P;r++){ src[r].resize(d.n(r)); dst[r].resize(d.n(r)); fillv(src[r],"s"); if(inplace) dst[r]=src[r]; else fillv(dst[r],"d"); out[r]=dst[r]; } std::vector<X> keep(src);
  MW::run(d.P,[&](int r){ auto cp=d.make(r); Comm& c=*cp; X& s=inplace?out[r]:src[r]; X& o=out[r]; if(op==OwnerAll) c.copyOwnerToAll(s,o); else if(op==CopyAll) c.copyCopyToAll(s,o); else if(op==AddOvAll) c.addOwnerOverlapToAll(s,o); else if(op==AddCopyAll) c.addOwnerCopyToAll(s,o); else c.addOwnerCopyToOwnerCopy(s,o); });
  for(int r=0;r<d.P;r++){ SYM_EQ((long)out[r].size(),(long)d.n(r),"size"); for(int g=0;g<d.G;g++){ int a=d.a[r][g]; if(a==N) continue; int l=d.loc[r][g]; B e=dst[r][l]; std::vector<B> poss; for(int p=0;p<d.P;p++) if(p!=r&&d.a[p][g]!=N&&from(op,d.a[p][g])&&to(op,a)){ B v=keep[p][d.loc[p][g]]; if(op<=CopyAll) poss.push_back(v); else e+=v; }
    if(op<=CopyAll&&!poss.empty()){ if(poss.size()==1) eqv1(out[r][l],poss[0],"value of the source"); else { bool any=false; for(auto& p:poss) any|=sameb(out[r][l],p); SYM_ASSERT(any,"value of one of the sources"); } sym_reach("received"); } else eqv1(out[r][l],e,op<=CopyAll?"unknown without source unchanged":"sum over the processes"); if(!inplace) eqv1(src[r][l],keep[r][l],"source unchanged"); } } }
template<class B> static void global(Dist& d,bool trailing){ typedef BlockVector<B> X; typedef typename FieldTraits<B>::field_type K; std::vector<X> x(d.P),y(d.P),z; std::vector<K> dot(d.P); std::vector<double> norm(d.P);
  for(int r=0;r<d.P;r++){ x[r].resize(d.n(r)+trailing); y[r].resize(d.n(r)+trailing); fillv(x[r],"x"); fillv(y[r],"y"); } z=x;
  MW::run(d.P,[&](int r){ auto cp=d.make(r); Comm& c=*cp; if(d.normFirst){ norm[r]=c.norm(x[r]); c.dot(x[r],y[r],dot[r]); } else { c.dot(x[r],y[r],dot[r]); norm[r]=c.norm(x[r]); } c.project(z[r]); });
  K s(0); double n2=0; for(int r=0;r<d.P;r++) for(int l=0;l<(int)x[r].size();l++){ bool own=l>=d.n(r); for(int g=0;g<d.G;g++) if(d.a[r][g]==O&&d.loc[r][g]==l) own=true; if(!own) continue; s+=dot_(x[r][l],y[r][l]); n2+=nrm_(x[r][l]); }
  for(int r=0;r<d.P;r++){ sym_eq_(dot[r],s,"every unknown counts once in the dot product"); SYM_EQ(norm[r]*norm[r],n2,"every unknown counts once in the norm"); SYM_ASSERT(norm[r]>=0,"norm not negative"); for(int g=0;g<d.G;g++) if(d.a[r][g]!=N){ int l=d.loc[r][g]; eqv1(z[r][l],d.a[r][g]==C?B(0):x[r][l],"project"); } }
  sym_reach("received"); }
template<class B> static void all(int P,int G,bool info=false){ Dist d(P,G); d.info=info; int op=sym_concrete_l(sym_int("op",0,4)); bool ip=sym_concrete_l(sym_bool("inplace")); ops<B>(d,op,ip); }
SYM_HARNESS(two,SYM_REAL,"received"){ all<F1>(2,sym_tier()?3:2); }
SYM_HARNESS(three,SYM_REAL,"received"){ all<F1>(3,sym_tier()?2:1); }
SYM_HARNESS(blocks,SYM_REAL,"received"){ all<F2>(2,1); }
SYM_HARNESS(numbers,SYM_REAL,"received"){ all<double>(2,1); }
SYM_HARNESS(complexes,SYM_REAL,"received"){ all<FC>(2,1); }
SYM_HARNESS(products,SYM_REAL,"received"){ Dist d(2,sym_tier()?3:2); global<F1>(d,false); }
SYM_HARNESS(products3,SYM_REAL,"received"){ Dist d(3,1); global<double>(d,sym_concrete_l(sym_bool("trailing"))); }
SYM_HARNESS(productsblocks,SYM_REAL,"received"){ Dist d(2,1); global<F2>(d,false); }
SYM_HARNESS(productscomplex,SYM_REAL,"received"){ Dist d(2,1); global<FC>(d,false); }
SYM_HARNESS(gridinfo,SYM_REAL,"received"){ all<F1>(2,2,true); }
SYM_HARNESS(gridinfo3,SYM_REAL,"received"){ all<F1>(3,sym_tier()?2:1,true); }
SYM_HARNESS(gridproducts,SYM_REAL,"received"){ Dist d(2,2); d.info=true; global<F1>(d,false); }
// a remote index that is not among the local ones, an attribute that does not exist: documented exceptions
SYM_HARNESS(gridwrong,SYM_REAL,"unknown,attribute"){ int n=sym_concrete_l(sym_int("local",0,2)),at=sym_concrete_l(sym_int("attribute",0,4)); bool remote=sym_concrete_l(sym_bool("remote")); IndexInfoFromGrid<int,int> i; for(int g=0;g<n;g++) i.addLocalIndex({g,g,O}); bool thrown=false; try{ if(remote) i.addRemoteIndex({1,n,at}); else i.addLocalIndex({n,n,at}); } catch(const ISTLError&){ thrown=true; } bool valid=at==O||at==V||at==C; SYM_ASSERT(thrown!=valid,"attributes that do not exist are refused"); if(!valid) sym_reach("attribute"); SYM_EQ((long)i.localIndices().size(),(long)n+(valid&&!remote),"local indices"); SYM_EQ((long)i.remoteIndices().size(),(long)(valid&&remote),"remote indices");
  if(valid&&remote){ bool refused=false; MW::run(2,[&](int r){ if(r==0) try{ Comm c(i,MPI_COMM_WORLD); } catch(const ISTLError&){ refused=true; } },false); SYM_ASSERT(refused,"remote index that is not in the index set is refused"); sym_reach("unknown"); } i.clear(); SYM_ASSERT(i.localIndices().empty()&&i.remoteIndices().empty(),"clear"); }
