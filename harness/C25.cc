// C25: Galerkin product
// BOUNDS: fine matrices of 3 (quick) or up to 4 (thorough) rows, all patterns with full diagonal (symmetric ones for 4), every aggregate map that numbers aggregates by their first vertex, with each aggregate reachable inside itself from its first vertex, isolated vertices anywhere; 1x1 and 2x2 blocks and complex entries; all values; recomputation after changing all values
// ASSUME: aggregates are numbered by their first vertex and reachable within themselves from it (this is what C24 establishes); the diagonal is stored
#include "flat.h"
#include <bitset>
#include <complex>
#include <dune/common/enumset.hh>
#include <dune/istl/paamg/galerkin.hh>
#include <dune/istl/paamg/graphcreator.hh>
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H; using namespace Dune::Amg;
template<int n> static Pat<n,n> symm(){ Pat<n,n> p; for(int i=0;i<n;i++){ p[i][i]=true; for(int j=0;j<i;j++) p[i][j]=p[j][i]=decided(sym_bool("w")); } return p; }
template<class B,int n> static void product(const Pat<n,n>& w){ typedef BCRSMatrix<B> M; typedef MatrixGraph<const M> G0; typedef Amg::PropertiesGraph<G0,VertexProperties,EdgeProperties,IdentityMap,IdentityMap> P; typedef AggregatesMap<std::size_t> Map;
  M A; build(A,w); Map m(n); int size=0,no=0; for(int i=0;i<n;i++){ int k=sym_concrete_l(sym_int("agg",-1,size)); if(k<0){ m[i]=Map::ISOLATED; no++; } else { m[i]=k; if(k==size) size++; } }
  for(int a=0;a<size;a++){ bool r[n]={}; for(int i=0;i<n;i++) if(m[i]==(std::size_t)a){ r[i]=true; break; } for(int k=0;k<n;k++) for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(r[i]&&i!=j&&w[i][j]&&m[j]==(std::size_t)a) r[j]=true; for(int i=0;i<n;i++) if(m[i]==(std::size_t)a&&!r[i]) sym_cut(); }
  fillvals(A,w); G0 g(A); P p(g); GalerkinProduct<SequentialInformation> gp; SequentialInformation info; typedef EmptySet<int> Copy; auto vm=get(VertexVisitedTag(),p); auto keep=dense(A);
  M* C=gp.build(g,vm,info,m,(std::size_t)size,Copy()); SYM_EQ((long)C->N(),(long)size,"rows"); SYM_EQ((long)C->M(),(long)size,"columns");
  bool cw[n][n]={}; for(int a=0;a<size;a++) cw[a][a]=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]&&m[i]!=Map::ISOLATED&&m[j]!=Map::ISOLATED) cw[m[i]][m[j]]=true;
  long nz=0; for(int a=0;a<size;a++) for(int b=0;b<size;b++){ SYM_ASSERT(C->exists(a,b)==cw[a][b],"coarse pattern"); nz+=cw[a][b]; } SYM_EQ((long)C->nonzeroes(),nz,"coarse entries"); for(auto r=C->begin();r!=C->end();++r){ long last=-1; for(auto c=r->begin();c!=r->end();++c){ SYM_ASSERT((long)c.index()>last,"column order"); last=c.index(); } }
  auto verify=[&](const char* l){ constexpr int K=BS<B>::n; for(int a=0;a<size;a++) for(int b=0;b<size;b++) if(cw[a][b]){ B s(0); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]&&m[i]==(std::size_t)a&&m[j]==(std::size_t)b) s+=A[i][j]; for(int x=0;x<K;x++) for(int y=0;y<K;y++){ if constexpr(std::is_same_v<typename M::field_type,std::complex<double>>){ sym_eq_(std::real((*C)[a][b][x][y]),std::real(s[x][y]),l); sym_eq_(std::imag((*C)[a][b][x][y]),std::imag(s[x][y]),l); } else sym_eq_((*C)[a][b][x][y],s[x][y],l); } } };
  gp.calculate(A,m,*C,info,Copy()); verify("coarse values"); eqm(dense(A),keep,"fine matrix unchanged"); fillvals(A,w,"new"); gp.calculate(A,m,*C,info,Copy()); verify("recalculated values"); DirichletBoundarySetter<SequentialInformation>::set(*C,info,Copy()); verify("no boundaries"); if(size==0) sym_reach("none"); else if(no) sym_reach("isolated"); if(size>0&&size<n-no) sym_reach("merged"); delete C; }
typedef FieldMatrix<double,1,1> F1; typedef FieldMatrix<double,2,2> F2; typedef FieldMatrix<std::complex<double>,1,1> C1;
SYM_HARNESS(numbers,SYM_REAL,"none,isolated,merged"){ product<F1,3>(pattern<3,3>(true)); }
SYM_HARNESS(four,SYM_REAL,"none,isolated,merged"){ Pat<4,4> w=sym_tier()?symm<4>():band<4,4>(); if(!sym_tier()){ w[0][3]=w[3][0]=decided(sym_bool("w")); w[0][2]=w[2][0]=decided(sym_bool("w")); } product<F1,4>(w); }
SYM_HARNESS(blocks,SYM_REAL,"none,isolated,merged"){ product<F2,3>(sym_tier()?pattern<3,3>(true):symm<3>()); }
SYM_HARNESS(complex,SYM_REAL,"none,isolated,merged"){ product<C1,3>(sym_tier()?pattern<3,3>(true):symm<3>()); }
