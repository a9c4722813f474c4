// stand-in for the ARPACK++ class: records the problem it is given and answers with arbitrary eigenpairs
#pragma once
#include <vector>
#include <cstring>
#include <sym.h>
namespace mockar {
struct Answer { int n,nev,ncv,maxit; char which[3]; double tol; std::vector<double> op,ev,vec; int iter; bool run; };
inline std::vector<Answer>& answers(){ static std::vector<Answer> a; return a; }
inline int& converged(){ static int c=99; return c; }
}
struct ArpackError {};
template<class K,class Op> class ARSymStdEig { mockar::Answer a; Op* o; void (Op::*f)(K*,K*); int conv=0;
public:
  ARSymStdEig(int n,int nev,Op* obj,void (Op::*mult)(K*,K*),const char* which="LM",int ncv=0,K tol=0,int maxit=0):o(obj),f(mult){ a.n=n; a.nev=nev; a.ncv=ncv; a.maxit=maxit; a.tol=tol; a.iter=0; a.run=false; std::strncpy(a.which,which,2); a.which[2]=0; }
  void Trace(){}
  int Eigenvalues(K*& ev,bool ivec=false){ int n=a.n; std::vector<K> e(n),w(n); a.op.assign(n*n,0.0); for(int j=0;j<n;j++){ for(int i=0;i<n;i++) e[i]=i==j?1.0:0.0; (o->*f)(e.data(),w.data()); for(int i=0;i<n;i++) a.op[i*n+j]=w[i]; } conv=std::min(a.nev,mockar::converged()); if(!ev) ev=new K[a.nev]; a.vec.resize(ivec?a.nev*n:0); for(int k=0;k<conv;k++){ ev[k]=sym_real("ev"); a.ev.push_back(ev[k]); if(ivec) for(int i=0;i<n;i++) a.vec[k*n+i]=1+k*n+i; } a.iter=1+(int)mockar::answers().size(); a.run=true; mockar::answers().push_back(a); return conv; }
  K* RawEigenvector(int i){ if(i>=conv||a.vec.empty()) throw ArpackError(); return a.vec.data()+i*a.n; }
  int GetIter(){ return a.iter; }
};
