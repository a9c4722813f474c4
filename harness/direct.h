// common part of the direct solver front-end harnesses
#pragma once
#include "mockdirect.h"
#include <dune/istl/solver.hh>
namespace H {
template<class S> using KOf=typename S::Matrix::field_type;
// one application through the solver interface: the recorded system is A x = b and its answer is returned
template<class K,class S,class X,class B> void applied(S& s,const DM<K>& A,X& x,B& b,int variant=0){ auto& c=mock::calls<K>(); auto n=c.size(); auto fb=flat<K>(b); InverseOperatorResult r; r.clear(); if(variant==0) s.apply(x,b,r); else if(variant==1) s.apply(x,b,sym_real("reduction"),r); else { InverseOperator<X,B>* q=&s; q->apply(x,b,r); }
  SYM_ASSERT(c.size()==n+1,"one solve"); if(c.size()!=n+1) sym_cut(); eqm(c.back().A,A,"system solved with the matrix set last"); eqv(c.back().b,fb,"right hand side handed over"); eqv(flat<K>(x),c.back().x,"answer of the library returned"); SYM_ASSERT(r.converged,"converged"); SYM_EQ(r.iterations,1,"iterations"); }
template<class S> void applied(S& s,const DM<KOf<S>>& A,int nb,int mb,int variant=0){ typename S::range_type b(nb); typename S::domain_type x(mb); fillv(b,"b"); fillv(x,"x"); applied<KOf<S>>(s,A,x,b,variant); }
template<class M> void scale2(M& A){ for(auto i=A.begin();i!=A.end();++i) for(auto j=i->begin();j!=i->end();++j) *j*=2.0; }
template<class K> DM<K> sub(const DM<K>& D,const std::set<std::size_t>& s,int b){ std::vector<int> ix; for(auto i:s) for(int p=0;p<b;p++) ix.push_back(i*b+p); DM<K> E(ix.size(),ix.size()); for(std::size_t i=0;i<ix.size();i++) for(std::size_t j=0;j<ix.size();j++) E(i,j)=D(ix[i],ix[j]); return E; }
// symmetric values on a symmetric pattern
template<class M,int n> void symvals(M& A,const Pat<n,n>& w){ for(int i=0;i<n;i++) for(int j=0;j<=i;j++) if(w[i][j]){ typedef std::decay_t<decltype(A[i][j])> B; if(i==j){ B d; fill(d,"d"); if constexpr(std::is_arithmetic_v<B>) A[i][i]=d; else { for(int p=0;p<B::rows;p++) for(int q=0;q<p;q++) d[q][p]=d[p][q]; A[i][i]=d; } } else { fill(A[i][j],"a"); if constexpr(std::is_arithmetic_v<B>) A[j][i]=A[i][j]; else for(int p=0;p<B::rows;p++) for(int q=0;q<B::cols;q++) A[j][i][q][p]=A[i][j][p][q]; } } }
template<int n> Pat<n,n> sympattern(bool diag=false){ Pat<n,n> p; for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ p[i][j]=(diag&&i==j)?true:decided(sym_bool("w")); p[j][i]=p[i][j]; } return p; }
}
using namespace Dune; using namespace H;
