// C31: front ends of the direct solvers: SuperLU
// FLAGS: -DHAVE_SUPERLU=1 -isystem /usr/include/superlu
// BOUNDS: SuperLU: every pattern of 2x2 matrices of numbers, 1x1 (3x3) and 2x2 blocks, real and complex, kept and fresh vector descriptors, every subset of rows, sequences of three operations (five at thorough)
#define MOCK_SUPERLU
#include "direct.h"
#include <dune/istl/superlu.hh>
typedef std::complex<double> Z;
template<class B,int n> static void slu(bool diag=false){ mock::resetAll(); typedef BCRSMatrix<B> M; typedef typename BS<B>::K K; { auto w=pattern<n,n>(diag); M A; build(A,w,sym_concrete_l(sym_int("mode",0,1))?RANDOM_GAPS:ROWWISE); fillvals(A,w); auto D=dense(A); int ctor=sym_concrete_l(sym_int("ctor",0,2)); std::unique_ptr<SuperLU<M>> s; if(ctor==0) s.reset(new SuperLU<M>(A)); else if(ctor==1) s.reset(new SuperLU<M>(A,false,false)); else { s.reset(new SuperLU<M>); s->setMatrix(A); } SYM_EQ((std::size_t)s->nnz(),(std::size_t)(A.nonzeroes()*BS<B>::n*BS<B>::n),"number of entries");
   scale2(A); applied(*s,D,n,n,ctor); applied(*s,D,n,n);
   std::vector<K> x(n*BS<B>::n),b(x.size()); for(auto& e:b) fill(e,"fb"); DV<K> b0(b.begin(),b.end()); s->apply(x.data(),b.data()); auto& c=mock::calls<K>().back(); eqm(c.A,D,"flat solve"); eqv(c.b,b0,"flat right hand side"); eqv(DV<K>(x.begin(),x.end()),c.x,"flat answer");
   auto D2=dense(A); s->setMatrix(A); if(decided(sym_bool("flat first"))) s->apply(x.data(),b.data()); applied(*s,D2,n,n); eqm(dense(A),D2,"matrix unchanged"); SYM_ASSERT(s->category()==SolverCategory::sequential,"category"); }
  mock::allReleased("everything released"); sym_reach("done"); }
SYM_HARNESS(slu_numbers,SYM_REAL,"done"){ slu<double,2>(); }
SYM_HARNESS(slu_scalar,SYM_REAL,"done"){ slu<FieldMatrix<double,1,1>,3>(!sym_tier()); }
SYM_HARNESS(slu_blocks,SYM_REAL,"done"){ slu<FieldMatrix<double,2,2>,2>(); }
SYM_HARNESS(slu_complex,SYM_REAL,"done"){ slu<FieldMatrix<Z,1,1>,2>(); }
SYM_HARNESS(slu_cblocks,SYM_REAL,"done"){ slu<FieldMatrix<Z,2,2>,1>(); }
template<class B,int n> static void subset(bool diag){ mock::resetAll(); typedef BCRSMatrix<B> M; constexpr int b=BS<B>::n; { auto w=pattern<n,n>(diag); M A; build(A,w); fillvals(A,w); auto D=dense(A); SuperLU<M> s; if(decided(sym_bool("before"))) s.setMatrix(A); std::set<std::size_t> ix; for(int i=0;i<n;i++) if(decided(sym_bool("selected"))) ix.insert(i); if(!ix.empty()){ s.setSubMatrix(A,ix); auto E=sub(D,ix,b); scale2(A); applied(s,E,ix.size(),ix.size()); sym_reach("done"); } }
  mock::allReleased("everything released"); }
SYM_HARNESS(slu_subset,SYM_REAL,"done"){ subset<FieldMatrix<double,1,1>,3>(!sym_tier()); }
SYM_HARNESS(slu_subset_blocks,SYM_REAL,"done"){ subset<FieldMatrix<double,2,2>,2>(false); }
SYM_HARNESS(slu_subset_complex,SYM_REAL,"done"){ subset<FieldMatrix<Z,1,1>,2>(false); }
SYM_HARNESS(slu_sizes,SYM_REAL,"refused,done"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; { auto w=full<2,2>(); M A; build(A,w); fillvals(A,w); SuperLU<M> s(A); int nb=sym_concrete_l(sym_int("nb",1,3)),nx=sym_concrete_l(sym_int("nx",1,3)); BlockVector<FieldVector<double,1>> b(nb),x(nx); fillv(b,"b"); fillv(x,"x"); auto fx=flat<double>(x); InverseOperatorResult r; bool thrown=false; try { s.apply(x,b,r); } catch(ISTLError&) { thrown=true; } SYM_ASSERT(thrown==(nb!=2||nx!=2),"sizes refused"); if(thrown){ sym_reach("refused"); eqv(flat<double>(x),fx,"nothing written"); } else sym_reach("done"); } mock::allReleased("everything released"); }
SYM_HARNESS(slu_history,SYM_REAL,"solved,freed"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; { auto w0=full<2,2>(); Pat<3,3> w1=band<3,3>(); M A[2]; build(A[0],w0); fillvals(A[0],w0); build(A[1],w1); fillvals(A[1],w1); std::unique_ptr<SuperLU<M>> s; bool has=false; DM<double> D; if(decided(sym_bool("default"))) s.reset(new SuperLU<M>); else { s.reset(new SuperLU<M>(A[0],false,decided(sym_bool("reuse")))); has=true; D=dense(A[0]); } for(int t=0;t<(sym_tier()?5:3);t++) switch(sym_concrete_l(sym_int("op",0,4))){ case 0: s->setMatrix(A[0]); D=dense(A[0]); has=true; break; case 1: s->setMatrix(A[1]); D=dense(A[1]); has=true; break; case 2: s->setSubMatrix(A[1],std::set<std::size_t>{0,2}); D=sub(dense(A[1]),{0,2},1); has=true; break; case 3: if(has){ s->free(); has=false; sym_reach("freed"); } break; case 4: if(has){ applied(*s,D,D.n,D.n); sym_reach("solved"); } break; } }
  mock::allReleased("everything released"); }
// the matrix type on its own
SYM_HARNESS(slu_matrix,SYM_REAL,"done"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef SuperLUMatrix<M> S; { auto w=pattern<2,2>(); M A; build(A,w); fillvals(A,w); auto D=dense(A); auto see=[&](const S& s,const DM<double>& E){ eqm(mock::ncmat<double>(&static_cast<const SuperMatrix&>(s)),E,"matrix handed to the library"); SYM_EQ((int)s.N(),E.n,"N"); SYM_EQ((int)s.M(),E.m,"M"); }; S s; int how=sym_concrete_l(sym_int("how",0,3)); if(how==0) s=A; else if(how==1) s.setMatrix(A); else if(how==2) s.setMatrix(A,std::set<std::size_t>{0,1}); else { S t(A); see(t,D); s=A; } see(s,D); scale2(A); see(s,D); auto E=dense(A); if(decided(sym_bool("assign"))) s=A; else s.setMatrix(A); see(s,E); { S u; u=s; see(u,E); S v(s); see(v,E); u=v; see(u,E); auto& r=u; u=r; see(u,E); S e; u=e; SYM_ASSERT(u.N()==0&&u.nonzeroes()==0,"empty"); S f(e); } see(s,E); }
  mock::allReleased("everything released"); sym_reach("done"); }
