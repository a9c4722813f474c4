// C29: overlapping Schwarz preconditioner with the ILU and dense subdomain solvers
// BOUNDS: two nonempty subdomains chosen from all subsets of three scalar or two 2x2 block unknowns (every pair, overlapping or not, covering or not), all values (dense solver with 2x2 blocks: one matrix for each pattern), relaxation factors and previous iterates, four sparsity shapes (every pattern with full diagonal at thorough), both constructors, subdomain problems set up in advance or during the application
// ASSUME: nonzero pivots; the incomplete factorization with fill (ILUN) is complete for these sizes
#include "schwarz.h"
template<class K,int k> using M=BCRSMatrix<FieldMatrix<K,k,k>>; template<class K,int k> using X=BlockVector<FieldVector<K,k>>;
typedef M<double,1> M1; typedef X<double,1> X1; typedef M<double,2> M2; typedef X<double,2> X2;
SYM_HARNESS(ilu0_add,SYM_REAL,"done"){ schwarz<ILU0,M1,X1,Add,ILU0SubdomainSolver<M1,X1,X1>,3,false>(); }
SYM_HARNESS(ilu0_mul,SYM_REAL,"done"){ schwarz<ILU0,M1,X1,Mul,ILU0SubdomainSolver<M1,X1,X1>,3,false>(); }
SYM_HARNESS(ilu0_sym,SYM_REAL,"done"){ schwarz<ILU0,M1,X1,Sym,ILU0SubdomainSolver<M1,X1,X1>,3,false>(); }
SYM_HARNESS(ilu0_blocks,SYM_REAL,"done"){ schwarz<ILU0,M2,X2,Add,ILU0SubdomainSolver<M2,X2,X2>,2,false>(); }
SYM_HARNESS(ilun_add,SYM_REAL,"done"){ schwarz<EXACT,M1,X1,Add,ILUNSubdomainSolver<M1,X1,X1>,3,false>(); }
SYM_HARNESS(ilun_mul,SYM_REAL,"done"){ schwarz<EXACT,M1,X1,Mul,ILUNSubdomainSolver<M1,X1,X1>,3,false>(); }
SYM_HARNESS(ilun_sym,SYM_REAL,"done"){ schwarz<EXACT,M1,X1,Sym,ILUNSubdomainSolver<M1,X1,X1>,3,false>(); }
SYM_HARNESS(ilun_blocks,SYM_REAL,"done"){ schwarz<EXACT,M2,X2,Add,ILUNSubdomainSolver<M2,X2,X2>,2,false>(); }
SYM_HARNESS(dyn_add,SYM_REAL,"done"){ schwarz<EXACT,M1,X1,Add,DynamicMatrixSubdomainSolver<M1,X1,X1>,2,true>(); }
SYM_HARNESS(dyn_mul,SYM_REAL,"done"){ schwarz<EXACT,M1,X1,Mul,DynamicMatrixSubdomainSolver<M1,X1,X1>,2,true>(); }
SYM_HARNESS(dyn_sym,SYM_REAL,"done"){ schwarz<EXACT,M1,X1,Sym,DynamicMatrixSubdomainSolver<M1,X1,X1>,2,true>(); }
SYM_HARNESS(dyn_blocks,SYM_REAL,"done"){ schwarz<EXACT,M2,X2,Mul,DynamicMatrixSubdomainSolver<M2,X2,X2>,2,true,true>(); }
