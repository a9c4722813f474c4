// C29: overlapping Schwarz preconditioner with SuperLU as subdomain solver (replaced by a recording stand-in)
// FLAGS: -DHAVE_SUPERLU=1 -isystem /usr/include/superlu
// BOUNDS: three subdomains with the direct solvers at thorough
#define MOCK_SUPERLU
#include "schwarz.h"
typedef std::complex<double> Z; template<class K,int k> using M=BCRSMatrix<FieldMatrix<K,k,k>>; template<class K,int k> using X=BlockVector<FieldVector<K,k>>;
SYM_HARNESS(slu_add,SYM_REAL,"done"){ schwarz<RECORDED,M<double,1>,X<double,1>,Add,SuperLU<M<double,1>>,3,false>(); }
SYM_HARNESS(slu_mul,SYM_REAL,"done"){ schwarz<RECORDED,M<double,1>,X<double,1>,Mul,SuperLU<M<double,1>>,3,false>(); }
SYM_HARNESS(slu_blocks,SYM_REAL,"done"){ schwarz<RECORDED,M<double,2>,X<double,2>,Sym,SuperLU<M<double,2>>,2,false>(); }
SYM_HARNESS(slu_complex,SYM_REAL,"done"){ schwarz<RECORDED,M<Z,1>,X<Z,1>,Mul,SuperLU<M<Z,1>>,2,false>(); }
