// C17: incomplete LU factorizations satisfy their defining equations
// BOUNDS: every pattern with diagonal of 3x3 matrices (numbers, 1x1 blocks; real, thorough also complex), of 2x2 (thorough: tridiagonal and full 3x3) matrices with 2x2 blocks; all values, all right-hand sides; fill levels 0..3; patterns of levels 0..4 for all 4x4 matrices and of levels 2, 3 (thorough: 4) for the 5x5 matrices with arbitrary lower triangle of the leading 4x4 block and arbitrary last column, and their transposes (concrete values); both storage variants, storage used twice; every 3x3 pattern with a missing diagonal entry
// BOUND-THOROUGH: 4x4 matrices with all patterns that have at most one missing position per row
// ASSUME: the pivots are nonsingular (harnesses of this file)
#include "ref.h"
#include <dune/istl/ilu.hh>
using namespace Dune; using namespace H;
template<class B,class V,int n> static void judge(const Pat<n,n>& w,int level,int mode){ typedef typename BS<B>::K K; typedef BCRSMatrix<B> M; M A; build(A,w,mode); fillvals(A,w); auto D=dense(A); M F; Pat<n,n> p=w; auto R=ilu(D,vec(p=fillpat(w,level)),BS<B>::n);
  if(level==0&&sym_bool("direct")){ F=A; ILU::blockILU0Decomposition(F); } else { F.setBuildMode(M::row_wise); F.setSize(n,n); ILU::blockILUDecomposition(A,level,F); eqm(dense(A),D,"matrix unchanged"); sym_reach("levels"); }
  samePattern(F,p,"pattern of the factorization"); BlockVector<V> v(n),d(n); fillv(v,"old"); fillv(d,"d"); auto fd=flat<K>(d); auto want=R.solve(fd); int kind=sym_concrete_l(sym_int("storage",0,2));
  if(kind==0) ILU::blockILUBacksolve(F,v,d); else { typedef typename M::allocator_type Al; ILU::CRS<B,Al> lo,up; std::vector<B,Al> inv; if(kind==2){ M G(F); G*=K(2); ILU::convertToCRS(G,lo,up,inv); } ILU::convertToCRS(F,lo,up,inv); ILU::blockILUBacksolve(lo,up,inv,v,d); }
  eqv(flat<K>(v),want,"LU v = d"); eqv(flat<K>(d),fd,"right-hand side unchanged"); bool full=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++) full=full&&p[i][j]; if(full){ eqv(mul(D,flat<K>(v)),fd,"complete fill solves the system"); sym_reach("complete"); } sym_reach("done"); }
template<class B,class V,int n> static void run(int lmax){ auto w=pattern<n,n>(true); judge<B,V,n>(w,sym_concrete_l(sym_int("level",0,lmax)),ROWWISE); }
typedef std::complex<double> Z;
SYM_HARNESS(numbers,SYM_REAL,"done,levels,complete"){ run<double,double,3>(3); }
SYM_HARNESS(scalar,SYM_REAL,"done,levels,complete"){ run<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(3); }
SYM_HARNESS(random_mode,SYM_REAL,"done,levels,complete"){ judge<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(pattern<3,3>(true),sym_concrete_l(sym_int("level",0,1)),RANDOM_GAPS); }
SYM_HARNESS(dense2,SYM_REAL,"done,levels,complete"){ run<FieldMatrix<double,2,2>,FieldVector<double,2>,2>(1); }
SYM_HARNESS(complex2,SYM_REAL,"done,levels,complete"){ run<FieldMatrix<Z,1,1>,FieldVector<Z,1>,2>(1); }
SYM_HARNESS(dense3,SYM_REAL,"done,levels"){ Pat<3,3> w=band<3,3>(); if(!sym_tier()) w[2][1]=false; judge<FieldMatrix<double,2,2>,FieldVector<double,2>,3>(w,0,ROWWISE); }
SYM_HARNESS(scalar4,SYM_REAL,"done,levels"){ Pat<4,4> w=full<4,4>(); if(sym_tier()) for(int i=0;i<4;i++){ int o=sym_concrete_l(sym_int("missing",0,3)); if(o!=i) w[i][o]=false; } else { w=band<4,4>(1); w[0][3]=w[3][0]=true; } judge<FieldMatrix<double,1,1>,FieldVector<double,1>,4>(w,sym_concrete_l(sym_int("level",0,sym_tier()?2:1)),ROWWISE); }
// the pattern only: all 4x4 patterns
SYM_HARNESS(fillpattern,SYM_REAL,"filled"){ const int n=4; auto w=pattern<n,n>(true); int level=sym_concrete_l(sym_int("level",0,4)); typedef BCRSMatrix<double> M; M A,F; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=i==j?8:-1; F.setBuildMode(M::row_wise); F.setSize(n,n); ILU::blockILUDecomposition(A,level,F); auto p=fillpat(w,level); samePattern(F,p,"pattern of the factorization"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(p[i][j]&&!w[i][j]) sym_reach("filled");
  Pat<n,n> all=w; for(int k=0;k<n;k++) for(int i=k+1;i<n;i++) if(all[i][k]) for(int j=k+1;j<n;j++) if(all[k][j]) all[i][j]=true; if(level==n) samePattern(F,all,"complete fill"); Pat<n,n> one=w; for(int k=0;k<n;k++) for(int i=k+1;i<n;i++) if(w[i][k]) for(int j=k+1;j<n;j++) if(w[k][j]) one[i][j]=true; if(level==1) samePattern(F,one,"level one"); }
// a missing diagonal entry is refused
template<class B> static void missing(){ const int n=3; auto w=pattern<n,n>(false); bool ok=true; for(int i=0;i<n;i++) ok=ok&&w[i][i]; sym_assume(!ok); typedef BCRSMatrix<B> M; M A,F; build(A,w,sym_bool("random")?RANDOM_GAPS:ROWWISE); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=B(i==j?8.0:-1.0); int level=sym_concrete_l(sym_int("level",-1,2)); auto p=fillpat(w,level<0?0:level); bool want=false; for(int i=0;i<n;i++) if(!p[i][i]) want=true; bool got=false;
  try { if(level<0) ILU::blockILU0Decomposition(A); else { F.setBuildMode(M::row_wise); F.setSize(n,n); ILU::blockILUDecomposition(A,level,F); } } catch(ISTLError&){ got=true; } SYM_ASSERT(got==want,"missing diagonal entry is refused"); sym_reach(got?"refused":"filled"); }
SYM_HARNESS(missing_number,SYM_REAL,"refused,filled"){ missing<double>(); }
SYM_HARNESS(missing_block,SYM_REAL,"refused,filled"){ missing<FieldMatrix<double,1,1>>(); }
// longer chains of fill: 5x5 patterns of arrow shape and their transposes
SYM_HARNESS(fillchain,SYM_REAL,"filled"){ const int n=5; Pat<n,n> w; for(int i=0;i<n;i++) w[i][i]=true; for(int i=0;i<4;i++){ for(int j=0;j<i;j++) w[i][j]=decided(sym_bool("l")); w[i][4]=decided(sym_bool("c")); } bool t=decided(sym_bool("transposed")); if(t) for(int i=0;i<n;i++) for(int j=0;j<i;j++) std::swap(w[i][j],w[j][i]); int level=sym_concrete_l(sym_int("level",2,sym_tier()?4:3)); typedef BCRSMatrix<double> M; M A,F; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=i==j?8:-1; F.setBuildMode(M::row_wise); F.setSize(n,n); ILU::blockILUDecomposition(A,level,F); auto p=fillpat(w,level); samePattern(F,p,"pattern of the factorization"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(p[i][j]&&!w[i][j]) sym_reach("filled"); }
