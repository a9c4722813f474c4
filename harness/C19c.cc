// C19: with checking switched on the relaxation preconditioners refuse matrices without diagonal
// BOUNDS: every pattern of 3x3 matrices (numbers, 1x1 blocks) and of 2x2 nested sparse matrices with 2x2 inner patterns at recursion level 2
// FLAGS: -DDUNE_ISTL_WITH_CHECKING
#include "ref.h"
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
using namespace Dune; using namespace H;
template<int l,class M,class X> static bool refused(const M& A,int k){ try { switch(k){ case 0: { SeqJac<M,X,X,l> P(A,1,1.0); break; } case 1: { SeqSOR<M,X,X,l> P(A,1,1.0); break; } case 2: { SeqSSOR<M,X,X,l> P(A,1,1.0); break; } default: if constexpr(l==1&&!std::is_same_v<X,BlockVector<BlockVector<FieldVector<double,1>>>>) { SeqDILU<M,X,X,l> P(A,1.0); } } } catch(ISTLError&){ return true; } return false; }
template<class B,class V> static void run(){ const int n=3; auto w=pattern<n,n>(false); bool ok=true; for(int i=0;i<n;i++) ok=ok&&w[i][i]; typedef BCRSMatrix<B> M; typedef BlockVector<V> X; M A; build(A,w); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=B(i==j?8.0:-1.0); int k=sym_concrete_l(sym_int("kind",0,3)); bool got=refused<1,M,X>(A,k); SYM_ASSERT(got==!ok,"refused iff a diagonal entry is missing"); sym_reach(got?"refused":"accepted"); }
SYM_HARNESS(scalar,SYM_REAL,"refused,accepted"){ run<FieldMatrix<double,1,1>,FieldVector<double,1>>(); }
SYM_HARNESS(numbers,SYM_REAL,"refused,accepted"){ run<double,double>(); }
SYM_HARNESS(nested,SYM_REAL,"refused,accepted"){ typedef FieldMatrix<double,1,1> S; typedef BCRSMatrix<S> I; typedef BCRSMatrix<I> M; typedef BlockVector<BlockVector<FieldVector<double,1>>> X; auto w=pattern<2,2>(false); M A; build(A,w); bool ok1=w[0][0]&&w[1][1],ok2=ok1; for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ auto p=i==j?pattern<2,2>(false,"p"):full<2,2>(); build(A[i][j],p); if(i==j) for(int a=0;a<2;a++) ok2=ok2&&p[a][a]; } int k=sym_concrete_l(sym_int("kind",0,2)); bool got=refused<2,M,X>(A,k); SYM_ASSERT(got==!ok2,"refused iff a diagonal entry is missing"); sym_reach(got?"refused":"accepted"); }
