// C34: multigrid built from a configuration
// FLAGS: -DHAVE_SUITESPARSE_UMFPACK=1 -isystem /usr/include/suitesparse
#include "amgconf.h"
SYM_HARNESS(amg_blocks,SYM_REAL,"levels"){ mock::resetAll(); Conf f; f.kv["coarsenTarget"]="2"; int m=sym_concrete_l(sym_int("measure",0,4)); if(m) f.kv["strengthMeasure"]=keys[12].second[m-1]; int r=sym_concrete_l(sym_int("row",0,2)); if(r) f.kv["diagonalRowIndex"]=r==1?"0":"1"; int s=sym_concrete_l(sym_int("symmetric",0,2)); if(s) f.kv["criterionSymmetric"]=s==1?"true":"false"; one<2,SeqJac>(f,"jac",false); }
