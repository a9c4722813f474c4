// Harness API of the symbolic engine.  The same harness source is compiled
//  * by clang + SymPass + rt.cpp     (symbolic exploration of the real code)
//  * by g++ with -DSYM_REPLAY        (plain native replay of a counterexample)
#pragma once
#include <cstddef>
#include <cstdint>
#include <complex>
#include <utility>

extern "C" {
  long   sym_int_i(const char* name, long lo, long hi);
  bool   sym_bool_i(const char* name);
  double sym_real_i(const char* name);            // any real (real mode) / any double (fp mode)
  double sym_exact_d(double v);                   // exact rational constant (real mode)
  void   sym_assume_b(bool c);
  void   sym_assert_b(bool c, const char* label);
  void   sym_assert_eq_d(double a, double b, const char* label);
  void   sym_assert_eq_l(long a, long b, const char* label);
  void   sym_reach(const char* label);
  long   sym_concrete_l(long v);                  // force one concrete value per path
  int    sym_tier();                              // 0 quick, 1 thorough
  int    sym_is_native();                         // 1 in the replay build
  void   sym_fail(const char* label);
  void   sym_note_l(const char* name, long v);
  void   sym_register(const char* name, int mode, void(*fn)(), const char* needs);
  void   sym_cut();                               // abandon this path (assume false)
}

enum { SYM_REAL=0, SYM_FP=1 };
struct SymReg_ { SymReg_(const char* n,int m,void(*f)(),const char*needs=""){ sym_register(n,m,f,needs);} };
// NEEDS: comma separated labels (sym_reach) that must be reached on a feasible path
#define SYM_HARNESS(NAME,MODE,NEEDS) static void NAME(); static SymReg_ reg_##NAME(#NAME,MODE,NAME,NEEDS); __attribute__((noinline)) static void NAME()

inline long sym_int(const char*n,long lo,long hi){ return sym_int_i(n,lo,hi); }
inline bool sym_bool(const char*n){ return sym_bool_i(n); }
inline double sym_real(const char*n){ return sym_real_i(n); }
inline void sym_assume(bool c){ sym_assume_b(c); }
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define SYM_LOC __FILE__ ":" SYM_STR(__LINE__)
#define SYM_ASSERT(c,label) sym_assert_b((c),label " @" SYM_LOC)

inline void sym_eq_(double a,double b,const char*l){ sym_assert_eq_d(a,b,l); }
inline void sym_eq_(float a,float b,const char*l){ sym_assert_eq_d(a,b,l); }
inline void sym_eq_(std::complex<double> a,std::complex<double> b,const char*l){ sym_assert_eq_d(a.real(),b.real(),l); sym_assert_eq_d(a.imag(),b.imag(),l);} 
inline void sym_eq_(long a,long b,const char*l){ sym_assert_eq_l(a,b,l); }
inline void sym_eq_(int a,int b,const char*l){ sym_assert_eq_l(a,b,l); }
inline void sym_eq_(std::size_t a,std::size_t b,const char*l){ sym_assert_eq_l((long)a,(long)b,l); }
template<class A,class B> inline void sym_eq_(const A&a,const B&b,const char*l){
  if constexpr(std::is_integral_v<A>&&std::is_integral_v<B>) sym_assert_eq_l((long)a,(long)b,l);
  else sym_assert_eq_d((double)a,(double)b,l);
}
#define SYM_EQ(a,b,label) sym_eq_((a),(b),label " @" SYM_LOC)
