// C26: grid transfer
// BOUNDS: 4 (quick) or 5 (thorough) fine unknowns, every map of them to at most 3 aggregates or isolated (also aggregates without members); vectors of numbers, 1- and 2-component blocks and complex blocks; all values and damping factors
#include "flat.h"
#include <complex>
#include <dune/istl/paamg/transfer.hh>
using namespace Dune; using namespace H; using namespace Dune::Amg;
template<class B> static void eqv1(const B& a,const B& b,const char* l){ if constexpr(IsNumber<B>::value) sym_eq_(a,b,l); else for(std::size_t i=0;i<a.size();i++){ if constexpr(std::is_floating_point_v<std::decay_t<decltype(a[i])>>) sym_eq_(a[i],b[i],l); else { sym_eq_(std::real(a[i]),std::real(b[i]),l); sym_eq_(std::imag(a[i]),std::imag(b[i]),l); } } }
typedef AggregatesMap<std::size_t> Map; template<class B> using T=Transfer<std::size_t,BlockVector<B>,SequentialInformation>;
template<class B,int n> static void transfer(){ typedef BlockVector<B> V; Map m(n); int size=sym_concrete_l(sym_int("size",0,3)); bool iso=false,shared=false; for(int i=0;i<n;i++){ int k=sym_concrete_l(sym_int("agg",-1,size-1)); m[i]=k<0?Map::ISOLATED:(std::size_t)k; iso|=k<0; for(int j=0;j<i;j++) shared|=k>=0&&m[j]==m[i]; }
  SequentialInformation info; V f(n),f0(n),c(size),c0(size); fillv(f,"f"); fillv(c,"c"); f0=f; c0=c;
  // restriction: sums, whatever the coarse vector held before
  V r(c); T<B>::restrictVector(m,r,f,info); for(int a=0;a<size;a++){ B s(0); for(int i=0;i<n;i++) if(m[i]==(std::size_t)a) s+=f0[i]; eqv1(r[a],s,"restriction"); } for(int i=0;i<n;i++) eqv1(f[i],f0[i],"fine vector unchanged by restriction");
  SYM_EQ((long)r.size(),(long)size,"coarse size");
  double d=sym_real("damp"); V x(f),cc(c); if(decided(sym_bool("redist"))){ V fr; T<B>::prolongateVector(m,cc,x,fr,d,info); } else T<B>::prolongateVector(m,cc,x,d,info);
  for(int i=0;i<n;i++){ B s(f0[i]); if(m[i]!=Map::ISOLATED){ B q(c0[m[i]]); q*=d; s+=q; } eqv1(x[i],s,"prolongation"); }
  if(iso) sym_reach("isolated"); if(shared) sym_reach("shared"); }
typedef FieldVector<double,2> V2; typedef FieldVector<std::complex<double>,1> VC;
SYM_HARNESS(numbers,SYM_REAL,"isolated,shared"){ if(sym_tier()) transfer<FieldVector<double,1>,5>(); else transfer<FieldVector<double,1>,4>(); }
SYM_HARNESS(doubles,SYM_REAL,"isolated,shared"){ transfer<double,3>(); }
SYM_HARNESS(blocks,SYM_REAL,"isolated,shared"){ transfer<V2,3>(); }
SYM_HARNESS(complex,SYM_REAL,"isolated,shared"){ transfer<VC,3>(); }
SYM_HARNESS(adjoint,SYM_REAL,"done"){ constexpr int n=3; typedef BlockVector<FieldVector<double,2>> V; Map m(n); int size=2; for(int i=0;i<n;i++){ int k=sym_concrete_l(sym_int("agg",-1,1)); m[i]=k<0?Map::ISOLATED:(std::size_t)k; } SequentialInformation info; V f(n),c(size),r(size),p(n); fillv(f,"f"); fillv(c,"c"); V c0(c); r=0; p=0; T<FieldVector<double,2>>::restrictVector(m,r,f,info); double d=sym_real("d"); T<FieldVector<double,2>>::prolongateVector(m,c,p,d,info); SYM_EQ((double)(p*f),d*(double)(c0*r),"prolongation is the adjoint of restriction"); sym_reach("done"); }
