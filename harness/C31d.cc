// C31: front ends of the direct solvers: SPQR
// FLAGS: -DHAVE_SUITESPARSE_SPQR=1 -isystem /usr/include/suitesparse
// BOUNDS: SPQR: every pattern of 3x3 and 3x2 matrices of 1x1 blocks, 2x2 of 2x2 blocks, 2x1 of 2x1 blocks, real and complex, every subset of rows, sequences of three operations (five at thorough)
#define MOCK_SPQR
#include "direct.h"
#include <dune/istl/spqr.hh>
typedef std::complex<double> Z;
template<class B,int n,int m> static void qr(bool diag=false){ mock::resetAll(); typedef BCRSMatrix<B> M; { auto w=pattern<n,m>(diag); M A; build(A,w,sym_concrete_l(sym_int("mode",0,1))?RANDOM_GAPS:ROWWISE); fillvals(A,w); auto D=dense(A); int ctor=sym_concrete_l(sym_int("ctor",0,2)); std::unique_ptr<SPQR<M>> s; if(ctor==0) s.reset(new SPQR<M>(A)); else if(ctor==1) s.reset(new SPQR<M>(A,0,true)); else { s.reset(new SPQR<M>); s->setMatrix(A); }
   scale2(A); applied(*s,D,n,m,ctor); applied(*s,D,n,m); auto D2=dense(A); s->setMatrix(A); applied(*s,D2,n,m); eqm(dense(A),D2,"matrix unchanged"); SYM_ASSERT(s->category()==SolverCategory::sequential,"category"); }
  mock::allReleased("everything released"); sym_reach("done"); }
SYM_HARNESS(qr_scalar,SYM_REAL,"done"){ qr<FieldMatrix<double,1,1>,3,3>(!sym_tier()); }
SYM_HARNESS(qr_tall,SYM_REAL,"done"){ qr<FieldMatrix<double,1,1>,3,2>(); }
SYM_HARNESS(qr_blocks,SYM_REAL,"done"){ qr<FieldMatrix<double,2,2>,2,2>(); }
SYM_HARNESS(qr_rect,SYM_REAL,"done"){ qr<FieldMatrix<double,2,1>,2,2>(); }
SYM_HARNESS(qr_complex,SYM_REAL,"done"){ qr<FieldMatrix<Z,1,1>,2,2>(); }
SYM_HARNESS(qr_cblocks,SYM_REAL,"done"){ qr<FieldMatrix<Z,2,2>,2,1>(); }
template<class B,int n> static void subset(bool diag){ mock::resetAll(); typedef BCRSMatrix<B> M; constexpr int b=BS<B>::n; { auto w=pattern<n,n>(diag); M A; build(A,w); fillvals(A,w); auto D=dense(A); SPQR<M> s; if(decided(sym_bool("before"))) s.setMatrix(A); std::set<std::size_t> ix; for(int i=0;i<n;i++) if(decided(sym_bool("selected"))) ix.insert(i); if(!ix.empty()){ s.setSubMatrix(A,ix); auto E=sub(D,ix,b); scale2(A); applied(s,E,ix.size(),ix.size()); sym_reach("done"); } }
  mock::allReleased("everything released"); }
SYM_HARNESS(qr_subset,SYM_REAL,"done"){ subset<FieldMatrix<double,1,1>,3>(!sym_tier()); }
SYM_HARNESS(qr_subset_blocks,SYM_REAL,"done"){ subset<FieldMatrix<double,2,2>,2>(false); }
SYM_HARNESS(qr_history,SYM_REAL,"solved,freed"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; { auto w0=full<2,2>(); Pat<3,3> w1=band<3,3>(); M A[2]; build(A[0],w0); fillvals(A[0],w0); build(A[1],w1); fillvals(A[1],w1); SPQR<M> s; DM<double> D; bool has=false; for(int t=0;t<(sym_tier()?5:3);t++) switch(sym_concrete_l(sym_int("op",0,4))){ case 0: s.setMatrix(A[0]); D=dense(A[0]); has=true; break; case 1: s.setMatrix(A[1]); D=dense(A[1]); has=true; break; case 2: s.setSubMatrix(A[1],std::set<std::size_t>{0,2}); D=sub(dense(A[1]),{0,2},1); has=true; break; case 3: if(has){ s.free(); has=false; sym_reach("freed"); } break; case 4: if(has){ applied(s,D,D.n,D.n); sym_reach("solved"); } break; } }
  mock::allReleased("everything released"); }
