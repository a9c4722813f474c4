// all iterative solvers behind one switch
#pragma once
#include "h.h"
#include <dune/istl/solvers.hh>
namespace H {
enum Sol { LOOP,GRAD,CG,BICG,MINRES,GMRES,FGMRES,GPCG,RFCG,CFCG,NSOL };
constexpr const char* solname[NSOL]={"loop","gradient","cg","bicgstab","minres","gmres","fgmres","gpcg","rfcg","cfcg"};
// restart: length of the cycle (GMRes, GPCG) respectively number of kept directions
template<class X> std::unique_ptr<Dune::IterativeSolver<X,X>> make(int kind,const Dune::LinearOperator<X,X>& A,const Dune::ScalarProduct<X>& sp,Dune::Preconditioner<X,X>& P,double red,int maxit,int restart){ using namespace Dune; switch(kind){
  case LOOP: return std::make_unique<LoopSolver<X>>(A,sp,P,red,maxit,0); case GRAD: return std::make_unique<GradientSolver<X>>(A,sp,P,red,maxit,0); case CG: return std::make_unique<CGSolver<X>>(A,sp,P,red,maxit,0); case BICG: return std::make_unique<BiCGSTABSolver<X>>(A,sp,P,red,maxit,0); case MINRES: return std::make_unique<MINRESSolver<X>>(A,sp,P,red,maxit,0);
  case GMRES: return std::make_unique<RestartedGMResSolver<X>>(A,sp,P,red,restart,maxit,0); case FGMRES: return std::make_unique<RestartedFlexibleGMResSolver<X>>(A,sp,P,red,restart,maxit,0); case GPCG: return std::make_unique<GeneralizedPCGSolver<X>>(A,sp,P,red,maxit,0,restart); case RFCG: return std::make_unique<RestartedFCGSolver<X>>(A,sp,P,red,maxit,0,restart); default: return std::make_unique<CompleteFCGSolver<X>>(A,sp,P,red,maxit,0,restart); } }
}
