// C17: singular pivots are reported
// BOUNDS: all values of full 2x2 matrices (numbers, 1x1 blocks) and of lower triangular ones with 2x2 blocks ( with the checks of small dense blocks switched on) and of one diagonal 4x4 block (elimination of dense blocks)
// FLAGS: -DDUNE_FMatrix_WITH_CHECKING
#include "ref.h"
#include <dune/istl/ilu.hh>
using namespace Dune; using namespace H;
static double lim(){ return FMatrixPrecision<>::absolute_limit(); }
static double ab(double x){ return x<0?-x:x; }
template<class B> static void run(){ const int n=2; auto w=full<n,n>(); BCRSMatrix<B> A; build(A,w); fillvals(A,w); const int k=BS<B>::n; if(k>1) A[0][1]=0; auto D=dense(A); int bad=-1; auto p0=blk(D,0,0,k); if(ab(det(p0))<lim()) bad=0; else { auto q=minus(blk(D,1,1,k),mm(mm(blk(D,1,0,k),inv(p0)),blk(D,0,1,k))); if(ab(det(q))<lim()) bad=1; } int got=-1; bool lv=sym_bool("levels");
  try { if(lv){ BCRSMatrix<B> F; F.setBuildMode(BCRSMatrix<B>::row_wise); F.setSize(n,n); ILU::blockILUDecomposition(A,1,F); } else ILU::blockILU0Decomposition(A); } catch(MatrixBlockError& e){ got=e.r; SYM_EQ(e.r,e.c,"position of the block"); } SYM_EQ(got,bad,"singular pivot is reported"); sym_reach(bad<0?"regular":bad==0?"first":"second"); }
SYM_HARNESS(singular_number,SYM_REAL,"regular,first,second"){ run<double>(); }
SYM_HARNESS(singular_scalar,SYM_REAL,"regular,first,second"){ run<FieldMatrix<double,1,1>>(); }
SYM_HARNESS(singular_dense,SYM_REAL,"regular,first,second"){ run<FieldMatrix<double,2,2>>(); }
SYM_HARNESS(singular_four,SYM_REAL,"regular,first"){ typedef FieldMatrix<double,4,4> B; BCRSMatrix<B> A; auto w=full<1,1>(); build(A,w); A=0; bool bad=false; for(int i=0;i<4;i++){ double v=A[0][0][i][i]=sym_real("a"); if(v==0.0) bad=true; } bool got=false; try { ILU::blockILU0Decomposition(A); } catch(MatrixBlockError& e){ got=true; SYM_EQ(e.r,0,"row"); SYM_EQ(e.c,0,"column"); } SYM_ASSERT(got==bad,"singular pivot is reported"); sym_reach(bad?"first":"regular"); }
