// C05: products in the checking mode
// FLAGS: -DDUNE_ISTL_WITH_CHECKING
// BOUNDS: the same with DUNE_ISTL_WITH_CHECKING: valid calls are not refused; every size of the vectors 0..3 with 2x3 and 3x2 sparse and dense matrices and scaled identities of size 2: calls with wrong sizes throw and change nothing
#include "mat.h"
#undef SYM_HARNESS
#define SYM_HARNESS(NAME,MODE,NEEDS) static void NAME(); static SymReg_ reg_##NAME("checked_" #NAME,MODE,NAME,NEEDS); __attribute__((noinline)) static void NAME()
#include "C05.cc"
template<class M,class V> static void refused(M& A,const std::string& what){ int n=sym_concrete_l(sym_int("size of x",0,3)),m=sym_concrete_l(sym_int("size of y",0,3)),k=sym_concrete_l(sym_int("kernel",0,8)); V x(n),y(m); fillv(x,"x"); fillv(y,"y"); double a=sym_real("a"); std::vector<double> vx,vy; for(auto& t:x) vx.push_back(t); for(auto& t:y) vy.push_back(t); bool tr=k>3&&k<9; bool ok=n==(int)(tr?A.N():A.M())&&m==(int)(tr?A.M():A.N()); bool thrown=false;
  try { switch(k){ case 0: A.mv(x,y); break; case 1: A.umv(x,y); break; case 2: A.mmv(x,y); break; case 3: A.usmv(a,x,y); break; case 4: A.umtv(x,y); break; case 5: A.mmtv(x,y); break; case 6: A.usmtv(a,x,y); break; case 7: A.umhv(x,y); break; case 8: A.mmhv(x,y); break; } } catch(Exception&){ thrown=true; }
  SYM_ASSERT(thrown==!ok,"refused if and only if the sizes do not match"); if(!ok){ int q=0; for(auto& t:x) SYM_EQ((double)t,vx[q++],"unchanged"); q=0; for(auto& t:y) SYM_EQ((double)t,vy[q++],"unchanged"); sym_reach("refused"); } else sym_reach("accepted"); }
SYM_HARNESS(sizes_bcrs,SYM_REAL,"refused,accepted"){ BCRSMatrix<double> A; auto w=pattern<2,3>(); build(A,w); fillvals(A,w); refused<BCRSMatrix<double>,BlockVector<double>>(A,""); }
SYM_HARNESS(sizes_dense,SYM_REAL,"refused,accepted"){ Matrix<double> A(3,2); A=1.0; refused<Matrix<double>,BlockVector<double>>(A,""); }
