// C06: the same in the checking mode
// FLAGS: -DDUNE_ISTL_WITH_CHECKING
// BOUNDS: the same with DUNE_ISTL_WITH_CHECKING: valid calls are not refused; sums of sparse 2x3 matrices and matrices of 1..3 rows and columns: wrong sizes are refused and change nothing; entry queries of all three matrix types: every position 0..3, outside refused
#include "flat.h"
#undef SYM_HARNESS
#define SYM_HARNESS(NAME,MODE,NEEDS) static void NAME(); static SymReg_ reg_##NAME("checked_" #NAME,MODE,NAME,NEEDS); __attribute__((noinline)) static void NAME()
#include "C06.cc"
template<class F> static bool throws(F f){ try { f(); } catch(Exception&){ return true; } return false; }
SYM_HARNESS(wrong_sums,SYM_REAL,"refused,accepted"){ int n=sym_concrete_l(sym_int("rows",1,3)),m=sym_concrete_l(sym_int("columns",1,3)),k=sym_concrete_l(sym_int("operation",0,2)); BCRSMatrix<double> A,B; build(A,full<2,3>()); fillvals(A,full<2,3>()); B.setBuildMode(BCRSMatrix<double>::row_wise); B.setSize(n,m); for(auto r=B.createbegin();r!=B.createend();++r) for(int j=0;j<m;j++) r.insert(j); B=2.0; auto D=dense(A); bool ok=n==2&&m==3; bool t=throws([&]{ if(k==0) A+=B; if(k==1) A-=B; if(k==2) A.axpy(3.0,B); }); SYM_ASSERT(t==!ok,"refused if and only if the sizes differ"); if(t){ eqm(dense(A),D,"unchanged"); sym_reach("refused"); } else sym_reach("accepted"); }
SYM_HARNESS(queries,SYM_REAL,"refused,accepted"){ int i=sym_concrete_l(sym_int("row",0,3)),j=sym_concrete_l(sym_int("column",0,3)); auto ask=[&](const auto& A,int n,int m,auto has){ bool e=false; bool t=throws([&]{ e=A.exists(i,j); }); SYM_ASSERT(t==(i>=n||j>=m),"refused if and only if outside"); if(!t){ SYM_ASSERT(e==has(i,j),"exists"); sym_reach("accepted"); } else sym_reach("refused"); };
  auto w=pattern<2,3>(); BCRSMatrix<double> A; build(A,w); ask(A,2,3,[&](int a,int b){ return (bool)w[a][b]; }); Matrix<double> D(3,1),E(1,3); auto yes=[](int,int){ return true; }; ask(D,3,1,yes); ask(E,1,3,yes); }
