// C18: singular pivots are reported
// BOUNDS: all values of full 2x2 matrices (numbers, 1x1 blocks) with the checks of small dense blocks switched on, and of one diagonal 4x4 block (elimination of dense blocks)
// FLAGS: -DDUNE_FMatrix_WITH_CHECKING
#include "ref.h"
#include <dune/istl/ildl.hh>
#include <dune/istl/dilu.hh>
using namespace Dune; using namespace H;
static double ab(double x){ return x<0?-x:x; }
template<class B> static void run(){ const int n=2; auto w=full<n,n>(); BCRSMatrix<B> A; build(A,w); fillvals(A,w); auto D=dense(A); bool l=sym_bool("ldl"); double lim=FMatrixPrecision<>::absolute_limit(),u=l?D(1,0):D(0,1); int bad=-1; if(ab(D(0,0))<lim) bad=0; else if(ab(D(1,1)-D(1,0)/D(0,0)*u)<lim) bad=1; int got=-1;
  try { if(l) bildl_decompose(A); else { std::vector<B> P(n); DILU::blockDILUDecomposition(A,P); } } catch(MatrixBlockError& e){ got=e.r; SYM_EQ(e.r,e.c,"position of the block"); } SYM_EQ(got,bad,"singular pivot is reported"); sym_reach(bad<0?"regular":bad==0?"first":"second"); }
SYM_HARNESS(singular_number,SYM_REAL,"regular,first,second"){ run<double>(); }
SYM_HARNESS(singular_scalar,SYM_REAL,"regular,first,second"){ run<FieldMatrix<double,1,1>>(); }
SYM_HARNESS(singular_four,SYM_REAL,"regular,first"){ typedef FieldMatrix<double,4,4> B; BCRSMatrix<B> A; auto w=full<1,1>(); build(A,w); A=0; bool bad=false; for(int i=0;i<4;i++){ double v=A[0][0][i][i]=sym_real("a"); if(v==0.0) bad=true; } bool got=false; try { if(sym_bool("ldl")) bildl_decompose(A); else { std::vector<B> P(1); DILU::blockDILUDecomposition(A,P); } } catch(MatrixBlockError& e){ got=true; SYM_EQ(e.r,0,"row"); SYM_EQ(e.c,0,"column"); } SYM_ASSERT(got==bad,"singular pivot is reported"); sym_reach(bad?"first":"regular"); }
