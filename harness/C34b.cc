// C34: multigrid built from a configuration
// FLAGS: -DHAVE_SUITESPARSE_UMFPACK=1 -isystem /usr/include/suitesparse
// BOUNDS: multigrid: every pair of configuration keys with two to four values each (also absent and malformed ones), five smoothers, fixed 4x4 grid matrices of 1x1 and 2x2 blocks, all right hand sides of a two-dimensional family and all answers of the coarse solver
#include "amgconf.h"
template<int k> static void pairs(int lo,int hi){ mock::resetAll(); Conf f; f.kv["coarsenTarget"]="2"; int a=sym_concrete_l(sym_int("key",lo,hi)); int va=sym_concrete_l(sym_int("value",0,(long)keys[a].second.size()-1)); int b=sym_concrete_l(sym_int("key",a+1,(long)keys.size()-(k==1?1:0))); put(f,a,va); if(b<(int)keys.size()){ int vb=sym_concrete_l(sym_int("value",0,(long)keys[b].second.size()-1)); put(f,b,vb); } one<k,SeqSSOR>(f,nullptr,false); }
SYM_HARNESS(amg_pairs_0,SYM_REAL,"levels"){ pairs<1>(0,3); }
SYM_HARNESS(amg_pairs_1,SYM_REAL,"levels"){ pairs<1>(4,9); }
SYM_HARNESS(amg_pairs_2,SYM_REAL,"levels"){ pairs<1>(10,18); }
SYM_HARNESS(amg_aggregation,SYM_REAL,"levels"){ mock::resetAll(); Conf f; f.kv["coarsenTarget"]="2"; int m=sym_concrete_l(sym_int("mode",0,2)); if(m){ f.kv["defaultAggregationSizeMode"]=m==1?"isotropic":"anisotropic"; f.kv["defaultAggregationDimension"]=std::to_string(sym_concrete_l(sym_int("dim",1,3))); } int d=sym_concrete_l(sym_int("distance",0,3)); if(d) f.kv["maxAggregateDistance"]=std::to_string(d); int a=sym_concrete_l(sym_int("min",0,2)); if(a) f.kv["minAggregateSize"]=a==1?"1":"3"; int b=sym_concrete_l(sym_int("max",0,2)); if(b) f.kv["maxAggregateSize"]=b==1?"3":"7"; one<1,SeqJac>(f,"jac",false); }
