// C07: the same in the checking mode
// FLAGS: -DDUNE_ISTL_WITH_CHECKING
// BOUNDS: the same with DUNE_ISTL_WITH_CHECKING: valid calls are not refused; block vectors of 0..2 and windows of 0..3 entries: operations on different sizes and index sets and accesses outside are refused and change nothing
#include "flat.h"
#undef SYM_HARNESS
#define SYM_HARNESS(NAME,MODE,NEEDS) static void NAME(); static SymReg_ reg_##NAME("checked_" #NAME,MODE,NAME,NEEDS); __attribute__((noinline)) static void NAME()
#include "C07.cc"
template<class F> static bool throws(F f){ try { f(); } catch(Exception&){ return true; } return false; }
template<class V> static void op(V& x,V& y,int k){ double s=0; switch(k){ case 0: x+=y; break; case 1: x-=y; break; case 2: x.axpy(2.0,y); break; case 3: s=x*y; break; case 4: if constexpr(requires{ x.dot(y); }) s=x.dot(y); break; } (void)s; }
SYM_HARNESS(wrong_vectors,SYM_REAL,"refused,accepted"){ int n=sym_concrete_l(sym_int("n",0,2)),m=sym_concrete_l(sym_int("m",0,2)),k=sym_concrete_l(sym_int("operation",0,4)); BlockVector<double> x(n),y(m); fillv(x,"x"); fillv(y,"y"); auto fx=flat<double>(x); bool t=throws([&]{ op(x,y,k); }); SYM_ASSERT(t==(n!=m),"refused if and only if the sizes differ"); if(t){ eqv(flat<double>(x),fx,"unchanged"); sym_reach("refused"); } else sym_reach("accepted"); }
SYM_HARNESS(wrong_access,SYM_REAL,"refused,accepted"){ int n=sym_concrete_l(sym_int("n",0,2)),i=sym_concrete_l(sym_int("i",0,3)); BlockVector<double> x(n); fillv(x,"x"); const auto& c=x; bool a=throws([&]{ x[i]=x[i]; }),b=throws([&]{ double d=c[i]; (void)d; }); SYM_ASSERT(a==(i>=n)&&b==(i>=n),"refused if and only if outside"); if(a) sym_reach("refused"); else sym_reach("accepted"); }
SYM_HARNESS(wrong_windows,SYM_REAL,"refused,accepted"){ typedef Imp::CompressedBlockVectorWindow<double> W; double p[3],q[3],P[3]; std::size_t i[3]={1,4,6},j[3]; int n=0; for(int k=0;k<3;k++) if(decided(sym_bool("in"))) j[n++]=i[k]; bool other=n>0&&decided(sym_bool("other index")); if(other) j[n-1]=7; for(int k=0;k<3;k++){ P[k]=p[k]=sym_real("p"); q[k]=sym_real("q"); } W x(p,i,3),y(q,j,n); int k=sym_concrete_l(sym_int("operation",0,3)); bool t=throws([&]{ op(x,y,k); }); bool bad=k==3?n!=3||other:other; SYM_ASSERT(t==bad,"refused if and only if the index sets do not match"); if(t){ for(int k=0;k<3;k++) SYM_EQ(p[k],P[k],"unchanged"); sym_reach("refused"); } else sym_reach("accepted"); }
