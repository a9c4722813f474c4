// C31: front ends of the direct solvers: LDL
// FLAGS: -DHAVE_SUITESPARSE_LDL=1 -isystem /usr/include/suitesparse
// BOUNDS: LDL: every symmetric pattern of 3x3 matrices of 1x1 blocks and 2x2 matrices of 2x2 blocks, all symmetric values, three fill-reducing permutations, every subset of rows, failing factorization, sequences of three operations (five at thorough)
#define MOCK_LDL
#include "direct.h"
#include <dune/istl/ldl.hh>
static void perm(){ mock::amdperm()=sym_concrete_l(sym_int("permutation",0,2)); }
template<class B,int n> static void ldl(){ mock::resetAll(); typedef BCRSMatrix<B> M; perm(); auto w=sympattern<n>(); M A; build(A,w,sym_concrete_l(sym_int("mode",0,1))?RANDOM_GAPS:ROWWISE); symvals(A,w); auto D=dense(A); int ctor=sym_concrete_l(sym_int("ctor",0,2)); std::unique_ptr<LDL<M>> s; if(ctor==0) s.reset(new LDL<M>(A)); else if(ctor==1) s.reset(new LDL<M>(A,0,true)); else { s.reset(new LDL<M>); s->setMatrix(A); }
   scale2(A); applied(*s,D,n,n,ctor); applied(*s,D,n,n);
   std::vector<double> x(n*BS<B>::n),b(x.size()); for(auto& e:b) fill(e,"fb"); DV<double> b0(b.begin(),b.end()); s->apply(x.data(),b.data()); auto& c=mock::calls<double>().back(); eqm(c.A,D,"flat solve"); eqv(c.b,b0,"flat right hand side"); eqv(DV<double>(x.begin(),x.end()),c.x,"flat answer");
   auto D2=dense(A); s->setMatrix(A); applied(*s,D2,n,n); eqm(dense(A),D2,"matrix unchanged"); SYM_ASSERT(s->category()==SolverCategory::sequential,"category"); sym_reach("done"); }
SYM_HARNESS(ldl_scalar,SYM_REAL,"done"){ ldl<FieldMatrix<double,1,1>,3>(); }
SYM_HARNESS(ldl_blocks,SYM_REAL,"done"){ ldl<FieldMatrix<double,2,2>,2>(); }
template<class B,int n> static void subset(){ mock::resetAll(); typedef BCRSMatrix<B> M; constexpr int b=BS<B>::n; perm(); auto w=sympattern<n>(); M A; build(A,w); symvals(A,w); auto D=dense(A); LDL<M> s; if(decided(sym_bool("before"))) s.setMatrix(A); std::set<std::size_t> ix; for(int i=0;i<n;i++) if(decided(sym_bool("selected"))) ix.insert(i); if(ix.empty()) return; s.setSubMatrix(A,ix); auto E=sub(D,ix,b); scale2(A); applied(s,E,ix.size(),ix.size()); sym_reach("done"); }
SYM_HARNESS(ldl_subset,SYM_REAL,"done"){ subset<FieldMatrix<double,1,1>,3>(); }
SYM_HARNESS(ldl_subset_blocks,SYM_REAL,"done"){ subset<FieldMatrix<double,2,2>,2>(); }
SYM_HARNESS(ldl_history,SYM_REAL,"solved,freed,singular"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; perm(); { auto w0=full<2,2>(); Pat<3,3> w1=band<3,3>(); M A[2]; build(A[0],w0); symvals(A[0],w0); build(A[1],w1); symvals(A[1],w1); LDL<M> s; DM<double> D; bool has=false,usable=false; for(int t=0;t<(sym_tier()?5:3);t++) switch(sym_concrete_l(sym_int("op",0,5))){ case 0: s.setMatrix(A[0]); D=dense(A[0]); has=usable=true; break; case 1: s.setMatrix(A[1]); D=dense(A[1]); has=usable=true; break; case 2: s.setSubMatrix(A[1],std::set<std::size_t>{0,2}); D=sub(dense(A[1]),{0,2},1); has=usable=true; break; case 3: if(has){ s.free(); has=usable=false; sym_reach("freed"); } break; case 4: if(usable){ applied(s,D,D.n,D.n); sym_reach("solved"); } break;
   case 5: { mock::ldlsingular()=true; bool thrown=false; try { s.setMatrix(A[0]); } catch(InvalidStateException&) { thrown=true; } mock::ldlsingular()=false; SYM_ASSERT(thrown,"a failing factorization is reported"); has=true; usable=false; bool t2=false; mock::ldlsingular()=true; try { LDL<M> q(A[1]); } catch(InvalidStateException&) { t2=true; } mock::ldlsingular()=false; SYM_ASSERT(t2,"a failing factorization is reported by the constructor"); sym_reach("singular"); break; } } } }
