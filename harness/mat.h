// building BCRSMatrix objects with symbolic patterns
#pragma once
#include "h.h"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
namespace H {
using namespace Dune;
template<int n,int m> struct Pat { bool w[n][m]={}; bool* operator[](int i){return w[i];} const bool* operator[](int i)const{return w[i];} };
// every position symbolic, minus the forced ones; decided at once: the build loops branch on it anyway
static inline bool decided(bool b){ return sym_concrete_l(b)!=0; }
template<int n,int m> Pat<n,m> pattern(bool diag=false,const char* nm="w"){ Pat<n,m> p; for(int i=0;i<n;i++) for(int j=0;j<m;j++) p[i][j]=(diag&&i==j)?true:decided(sym_bool(nm)); return p; }
template<int n,int m> Pat<n,m> full(){ Pat<n,m> p; for(int i=0;i<n;i++) for(int j=0;j<m;j++) p[i][j]=true; return p; }
template<int n,int m> Pat<n,m> band(int k=1){ Pat<n,m> p; for(int i=0;i<n;i++) for(int j=0;j<m;j++) p[i][j]=(i-j<=k&&j-i<=k); return p; }
enum { RANDOM=0, RANDOM_GAPS=1, ROWWISE=2, ROWWISE_NNZ=3, IMPLICIT=4, RANDOM_NNZ=5, NMODES=6 };
template<class M,int n,int m> void build(M& A,const Pat<n,m>& w,int mode=ROWWISE,bool setmode=true){
  long total=0; for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) total++;
  if(mode==RANDOM||mode==RANDOM_GAPS||mode==RANDOM_NNZ){
    if(setmode) A.setBuildMode(M::random);
    if(mode==RANDOM_NNZ) A.setSize(n,m,total+2); else A.setSize(n,m);
    for(int i=0;i<n;i++){ long c=0; for(int j=0;j<m;j++) if(w[i][j]) c++; A.setrowsize(i,c+(mode==RANDOM_GAPS?(i%2?1:2):0)); }
    A.endrowsizes(); for(int i=n-1;i>=0;i--) for(int j=0;j<m;j++) if(w[i][j]) A.addindex(i,(j*(m-1))%m==j?j:j);
    A.endindices();
  } else if(mode==ROWWISE||mode==ROWWISE_NNZ){
    if(setmode) A.setBuildMode(M::row_wise);
    if(mode==ROWWISE) A.setSize(n,m); else A.setSize(n,m,total+1);
    int i=0; for(auto it=A.createbegin();it!=A.createend();++it,++i) for(int j=0;j<m;j++) if(w[i][j]) it.insert(j);
  } else {
    if(setmode){ A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(m,1.0); }
    A.setSize(n,m); for(int i=0;i<n;i++) for(int j=m-1;j>=0;j--) if(w[i][j]) A.entry(i,j)=0.0; A.compress();
  }
}
template<class M,int n,int m> void fillvals(M& A,const Pat<n,m>& w,const char* nm="a"){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) fill(A[i][j],nm); }
// number of entries / pattern of a matrix as seen from outside
template<class M,int n,int m> void samePattern(const M& A,const Pat<n,m>& w,const char* l){
  SYM_EQ(A.N(),(std::size_t)n,"N"); SYM_EQ(A.M(),(std::size_t)m,"M"); long t=0;
  for(int i=0;i<n;i++){ long c=0,k=0; long last=-1; for(int j=0;j<m;j++) if(w[i][j]) c++; t+=c; sym_assert_eq_l((long)A.getrowsize(i),c,l);
    for(auto j=A[i].begin();j!=A[i].end();++j){ long q=(long)j.index(); sym_assert_b(q>last&&q<m,l); bool x=false; for(int z=0;z<m;z++) if(z==q) x=w[i][z]; sym_assert_b(x,l); last=q; k++; } sym_assert_eq_l(k,c,l); }
  sym_assert_eq_l((long)A.nonzeroes(),t,l);
}
// dense snapshot of scalar matrices
template<class M> struct Dense { std::vector<std::vector<M>> a; };
}
