// C01: the same in the checking mode
// FLAGS: -DDUNE_ISTL_WITH_CHECKING
// BOUNDS: the same with DUNE_ISTL_WITH_CHECKING: valid calls are not refused and give the same results
#include "flat.h"
#undef SYM_HARNESS
#define SYM_HARNESS(NAME,MODE,NEEDS) static void NAME(); static SymReg_ reg_##NAME("checked_" #NAME,MODE,NAME,NEEDS); __attribute__((noinline)) static void NAME()
#include "C01.cc"
