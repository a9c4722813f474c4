// C29: overlapping Schwarz preconditioner with UMFPack as subdomain solver (replaced by a recording stand-in)
// FLAGS: -DHAVE_SUITESPARSE_UMFPACK=1 -isystem /usr/include/suitesparse
// BOUNDS: with the direct solvers (stand-ins answering arbitrary values): two applications in sequence
#define MOCK_UMFPACK
#include "schwarz.h"
typedef std::complex<double> Z; template<class K,int k> using M=BCRSMatrix<FieldMatrix<K,k,k>>; template<class K,int k> using X=BlockVector<FieldVector<K,k>>;
SYM_HARNESS(umf_add,SYM_REAL,"done"){ schwarz<RECORDED,M<double,1>,X<double,1>,Add,UMFPack<M<double,1>>,3,false>(); }
SYM_HARNESS(umf_mul,SYM_REAL,"done"){ schwarz<RECORDED,M<double,1>,X<double,1>,Mul,UMFPack<M<double,1>>,3,false>(); }
SYM_HARNESS(umf_sym,SYM_REAL,"done"){ schwarz<RECORDED,M<double,1>,X<double,1>,Sym,UMFPack<M<double,1>>,3,false>(); }
SYM_HARNESS(umf_blocks,SYM_REAL,"done"){ schwarz<RECORDED,M<double,2>,X<double,2>,Add,UMFPack<M<double,2>>,2,false>(); }
SYM_HARNESS(umf_blocks_mul,SYM_REAL,"done"){ schwarz<RECORDED,M<double,2>,X<double,2>,Mul,UMFPack<M<double,2>>,2,false>(); }
SYM_HARNESS(umf_complex,SYM_REAL,"done"){ schwarz<RECORDED,M<Z,1>,X<Z,1>,Sym,UMFPack<M<Z,1>>,2,false>(); }
SYM_HARNESS(umf_numbers,SYM_REAL,"done"){ schwarz<RECORDED,BCRSMatrix<double>,BlockVector<double>,Mul,UMFPack<BCRSMatrix<double>>,2,false>(); }
