// C31: front ends of the direct solvers: CHOLMOD
// FLAGS: -DHAVE_SUITESPARSE_CHOLMOD=1 -isystem /usr/include/suitesparse
// BOUNDS: CHOLMOD: every symmetric pattern of 3x3 matrices of 1x1 blocks, 2x2 of 2x2 blocks, multi-type matrices, all symmetric values, int and long indices, every set of ignored scalar unknowns, two factorizations with different ignored sets, sequences of three operations (five at thorough)
#define MOCK_CHOLMOD
#include "direct.h"
#include <dune/istl/cholmod.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
template<class S,class V> static void capply(S& s,const DM<double>& D,int n,int variant=0){ V b(n),x(n); fillv(b,"b"); fillv(x,"x"); applied<double>(s,D,x,b,variant); eqv(flat<double>(b),mock::calls<double>().back().b,"right hand side unchanged"); }
template<class B,class I,int n> static void chol(){ mock::resetAll(); typedef BCRSMatrix<B> M; typedef BlockVector<FieldVector<double,BS<B>::n>> V; { auto w=sympattern<n>(); M A; build(A,w,sym_concrete_l(sym_int("mode",0,1))?RANDOM_GAPS:ROWWISE); symvals(A,w); auto D=dense(A); Cholmod<V,I> s; s.setMatrix(A); scale2(A); int v=sym_concrete_l(sym_int("v",0,2)); capply<Cholmod<V,I>,V>(s,D,n,v); capply<Cholmod<V,I>,V>(s,D,n); auto D2=dense(A); if(decided(sym_bool("again"))){ s.setMatrix(A); capply<Cholmod<V,I>,V>(s,D2,n); } eqm(dense(A),D2,"matrix unchanged"); SYM_ASSERT(s.category()==SolverCategory::sequential,"category"); V b(n),x(n+1); bool t=false; InverseOperatorResult r; try { s.apply(x,b,r); } catch(Exception&) { t=true; } SYM_ASSERT(t,"sizes refused"); }
  mock::allReleased("everything released"); sym_reach("done"); }
SYM_HARNESS(chol_scalar,SYM_REAL,"done"){ chol<FieldMatrix<double,1,1>,int,3>(); }
SYM_HARNESS(chol_scalar_l,SYM_REAL,"done"){ chol<FieldMatrix<double,1,1>,SuiteSparse_long,2>(); }
SYM_HARNESS(chol_blocks,SYM_REAL,"done"){ chol<FieldMatrix<double,2,2>,int,2>(); }
SYM_HARNESS(chol_blocks_l,SYM_REAL,"done"){ chol<FieldMatrix<double,2,2>,SuiteSparse_long,2>(); }
// ignored unknowns keep their values and are left out of the system; every call starts afresh
template<class B,class I,int n,int rounds> static void ignore(){ mock::resetAll(); typedef BCRSMatrix<B> M; constexpr int b=BS<B>::n,N=n*b; typedef BlockVector<FieldVector<double,b>> V; { auto w=sympattern<n>(true); M A; build(A,w); symvals(A,w); auto D=dense(A); Cholmod<V,I> s; std::vector<BlockVector<FieldVector<char,b>>> bits(rounds,BlockVector<FieldVector<char,b>>(n));
   for(int t=0;t<rounds;t++){ bool none=decided(sym_bool("plain")); std::vector<int> keep; for(int p=0;p<N;p++){ bool g=none?false:decided(sym_bool("ignored")); bits[t][p/b][p%b]=g; if(!g) keep.push_back(p); } if(none) s.setMatrix(A); else s.setMatrix(A,&bits[t]); int m=keep.size(); DM<double> E(m,m); for(int i=0;i<m;i++) for(int j=0;j<m;j++) E(i,j)=D(keep[i],keep[j]);
    V x(n),y(n); fillv(x,"x"); fillv(y,"y"); auto fx=flat<double>(x),fy=flat<double>(y); InverseOperatorResult r; r.clear(); auto k=mock::calls<double>().size(); s.apply(x,y,r); auto gx=flat<double>(x); eqv(flat<double>(y),fy,"right hand side unchanged"); if(!m){ SYM_ASSERT(mock::calls<double>().size()==k,"nothing to solve"); eqv(gx,fx,"nothing changed"); sym_reach("nothing"); continue; } SYM_ASSERT(mock::calls<double>().size()==k+1,"one solve"); auto& c=mock::calls<double>().back(); eqm(c.A,E,"system of the unknowns kept"); for(int i=0;i<m;i++){ SYM_EQ(c.b[i],fy[keep[i]],"right hand side"); fx[keep[i]]=c.x[i]; } eqv(gx,fx,"answer at the unknowns kept, nothing else changed"); SYM_ASSERT(r.converged&&r.iterations==1,"result"); if(m<N) sym_reach("some"); if(t&&none) sym_reach("plain after ignoring"); } }
  mock::allReleased("everything released"); }
SYM_HARNESS(chol_ignore,SYM_REAL,"some,nothing,plain after ignoring"){ ignore<FieldMatrix<double,1,1>,int,2,2>(); }
SYM_HARNESS(chol_ignore_three,SYM_REAL,"some,nothing"){ ignore<FieldMatrix<double,1,1>,int,3,1>(); }
SYM_HARNESS(chol_ignore_l,SYM_REAL,"some,nothing"){ ignore<FieldMatrix<double,1,1>,SuiteSparse_long,2,1>(); }
SYM_HARNESS(chol_ignore_blocks,SYM_REAL,"some,nothing"){ ignore<FieldMatrix<double,2,2>,int,2,1>(); }
SYM_HARNESS(chol_multitype,SYM_REAL,"done"){ mock::resetAll(); using namespace Dune::Indices; typedef BCRSMatrix<FieldMatrix<double,2,2>> A00; typedef BCRSMatrix<FieldMatrix<double,2,1>> A01; typedef BCRSMatrix<FieldMatrix<double,1,2>> A10; typedef BCRSMatrix<FieldMatrix<double,1,1>> A11; typedef MultiTypeBlockMatrix<MultiTypeBlockVector<A00,A01>,MultiTypeBlockVector<A10,A11>> M; typedef MultiTypeBlockVector<BlockVector<FieldVector<double,2>>,BlockVector<FieldVector<double,1>>> V; { M A; auto w0=full<1,1>(); auto w1=pattern<1,2>(); Pat<2,1> w2; w2[0][0]=w1[0][0]; w2[1][0]=w1[0][1]; auto w3=sympattern<2>(true); build(A[_0][_0],w0); build(A[_0][_1],w1); build(A[_1][_0],w2); build(A[_1][_1],w3); symvals(A[_0][_0],w0); fillvals(A[_0][_1],w1); for(int i=0;i<2;i++) if(w1[0][i]) for(int p=0;p<2;p++) A[_1][_0][i][0][0][p]=A[_0][_1][0][i][p][0]; symvals(A[_1][_1],w3);
   DM<double> D(4,4); auto put=[&](auto&& a,int r,int c){ auto d=dense(a); for(int i=0;i<d.n;i++) for(int j=0;j<d.m;j++) D(r+i,c+j)=d(i,j); }; put(A[_0][_0],0,0); put(A[_0][_1],0,2); put(A[_1][_0],2,0); put(A[_1][_1],2,2); Cholmod<V> s; s.setMatrix(A); V b,x; b[_0].resize(1); b[_1].resize(2); x[_0].resize(1); x[_1].resize(2); fillv(b[_0],"b"); fillv(b[_1],"b"); auto cat=[](auto& v){ auto f=flat<double>(v[_0]); auto g=flat<double>(v[_1]); f.insert(f.end(),g.begin(),g.end()); return f; }; auto fb=cat(b); InverseOperatorResult r; s.apply(x,b,r); auto& c=mock::calls<double>().back(); eqm(c.A,D,"multi-type system"); eqv(c.b,fb,"multi-type right hand side"); eqv(cat(x),c.x,"multi-type answer"); }
  mock::allReleased("everything released"); sym_reach("done"); }
SYM_HARNESS(chol_history,SYM_REAL,"solved"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> V; { auto w0=full<2,2>(); Pat<3,3> w1=band<3,3>(); M A[2]; build(A[0],w0); symvals(A[0],w0); build(A[1],w1); symvals(A[1],w1); Cholmod<V> s; int k=-1; for(int t=0;t<(sym_tier()?5:3);t++) switch(sym_concrete_l(sym_int("op",0,2))){ case 0: s.setMatrix(A[k=0]); break; case 1: s.setMatrix(A[k=1]); break; case 2: if(k>=0){ capply<Cholmod<V>,V>(s,dense(A[k]),2+k); sym_reach("solved"); } break; } }
  mock::allReleased("everything released"); }
