// C34: multigrid built from a configuration
// FLAGS: -DHAVE_SUITESPARSE_UMFPACK=1 -isystem /usr/include/suitesparse
#include "amgconf.h"
template<class M,class X,class Y,int l> using Gs=SeqGS<M,X,Y,l>; template<class M,class X,class Y,int l> using Ilu=SeqILU<M,X,Y,l>;
SYM_HARNESS(amg_smoothers,SYM_REAL,"levels,refused"){ mock::resetAll(); Conf f; f.kv["coarsenTarget"]="2"; int i=sym_concrete_l(sym_int("iterations",0,2)),r=sym_concrete_l(sym_int("relaxation",0,2)); if(i) f.kv["smootherIterations"]=i==1?"1":"3"; if(r) f.kv["smootherRelaxation"]=r==1?"0.5":"1.5"; switch(sym_concrete_l(sym_int("smoother",0,7))){ case 0: one<1,SeqSSOR,true>(f,nullptr,false); break; case 1: one<1,SeqSSOR,true>(f,"ssor",false); break; case 2: one<1,SeqSOR,true>(f,"sor",false); break; case 3: one<1,SeqJac,true>(f,"jac",false); break; case 4: one<1,Gs,true>(f,"gs",false); break; case 5: one<1,Ilu,true>(f,"ilu",false); break; case 6: one<1,SeqJac,true>(f,"jacobi",true); break; default: one<1,SeqJac,true>(f,"",true); } }
SYM_HARNESS(amg_malformed,SYM_REAL,"refused"){ mock::resetAll(); Conf f; f.kv["coarsenTarget"]="2"; switch(sym_concrete_l(sym_int("which",0,7))){ case 0: f.kv["strengthMeasure"]="columnSum"; break; case 1: f.kv["diagonalRowIndex"]="5"; break; case 2: f.kv["accumulationMode"]="always"; break; case 3: f.kv["defaultAggregationSizeMode"]="mixed"; f.kv["defaultAggregationDimension"]="2"; break; case 4: f.kv["defaultAggregationSizeMode"]="isotropic"; break; case 5: f.kv["maxLevel"]="ten"; break; case 6: f.kv["alpha"]="0.3x"; break; default: f.kv["gamma"]="two"; } one<1,SeqSSOR,true>(f,nullptr,true); }
