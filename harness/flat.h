// dense reference objects: flattened matrices and vectors
#pragma once
#include "mat.h"
#include <dune/common/hybridutilities.hh>
namespace H {
template<class K> using DV=std::vector<K>;
template<class K> struct DM { int n,m; std::vector<K> a; DM(int n_=0,int m_=0):n(n_),m(m_),a(n_*m_,K(0)){} K& operator()(int i,int j){return a[i*m+j];} const K& operator()(int i,int j)const{return a[i*m+j];} };
inline double cj(double x){return x;} template<class K> std::complex<K> cj(std::complex<K> x){return std::complex<K>(x.real(),-x.imag());}
// flattening of vectors (any nesting with begin/end)
template<class V> struct FieldOf { typedef typename FieldTraits<V>::field_type type; };
template<class K> void flatInto(const double& v,DV<K>& r){ r.push_back(v); }
template<class K> void flatInto(const std::complex<double>& v,DV<K>& r){ r.push_back(v); }
template<class V> constexpr bool iterable=requires(const V& v){ v.begin(); };
template<class K,class V> void flatInto(const V& v,DV<K>& r){ if constexpr(iterable<V>){ for(auto it=v.begin();it!=v.end();++it) flatInto(*it,r); } else Hybrid::forEach(v,[&](const auto& b){ flatInto(b,r); }); }
template<class K,class V> DV<K> flat(const V& v){ DV<K> r; flatInto(v,r); return r; }
// fill any nested vector with symbols
inline void fillv(double& d,const char* n){ fill(d,n); } template<class K> void fillv(std::complex<K>& d,const char* n){ fill(d,n); }
template<class V> void fillv(V& v,const char* n){ if constexpr(iterable<V>){ for(auto it=v.begin();it!=v.end();++it) fillv(*it,n); } else Hybrid::forEach(v,[&](auto& b){ fillv(b,n); }); }
// dense image of a matrix with the given uniform block shape
template<class K,int a,int b> void place(DM<K>& D,int i,int j,const FieldMatrix<K,a,b>& B){ for(int p=0;p<a;p++) for(int q=0;q<b;q++) D(i*a+p,j*b+q)=B[p][q]; }
template<class K> void place(DM<K>& D,int i,int j,const K& B){ D(i,j)=B; }
template<class B> struct BS { static constexpr int n=1,m=1; typedef B K; };
template<class K_,int a,int b> struct BS<FieldMatrix<K_,a,b>> { static constexpr int n=a,m=b; typedef K_ K; };
template<class M> auto dense(const M& A){ typedef typename M::block_type B; typedef typename BS<B>::K K; DM<K> D(A.N()*BS<B>::n,A.M()*BS<B>::m);
  for(auto i=A.begin();i!=A.end();++i) for(auto j=i->begin();j!=i->end();++j) place(D,(int)i.index(),(int)j.index(),*j); return D; }
template<class K> void eqv(const DV<K>& a,const DV<K>& b,const char* l){ sym_assert_eq_l(a.size(),b.size(),l); for(std::size_t i=0;i<a.size();i++) sym_eq_(a[i],b[i],l); }
template<class K> void eqm(const DM<K>& a,const DM<K>& b,const char* l){ sym_assert_eq_l(a.n,b.n,l); sym_assert_eq_l(a.m,b.m,l); eqv(a.a,b.a,l); }
// reference products
template<class K> DV<K> mul(const DM<K>& A,const DV<K>& x){ DV<K> y(A.n,K(0)); for(int i=0;i<A.n;i++) for(int j=0;j<A.m;j++) y[i]+=A(i,j)*x[j]; return y; }
template<class K> DM<K> tr(const DM<K>& A){ DM<K> T(A.m,A.n); for(int i=0;i<A.n;i++) for(int j=0;j<A.m;j++) T(j,i)=A(i,j); return T; }
template<class K> DM<K> he(const DM<K>& A){ DM<K> T(A.m,A.n); for(int i=0;i<A.n;i++) for(int j=0;j<A.m;j++) T(j,i)=cj(A(i,j)); return T; }
template<class K> DM<K> mm(const DM<K>& A,const DM<K>& B){ DM<K> C(A.n,B.m); for(int i=0;i<A.n;i++) for(int k=0;k<A.m;k++) for(int j=0;j<B.m;j++) C(i,j)+=A(i,k)*B(k,j); return C; }
template<class K> DV<K> axpy(const DV<K>& y,K a,const DV<K>& x){ DV<K> r(y); for(std::size_t i=0;i<r.size();i++) r[i]+=a*x[i]; return r; }
template<class K> DV<K> sub(const DV<K>& y,const DV<K>& x){ DV<K> r(y); for(std::size_t i=0;i<r.size();i++) r[i]-=x[i]; return r; }
template<class K> DV<K> scl(K a,const DV<K>& x){ DV<K> r(x); for(auto&e:r) e=a*e; return r; }
template<class K> K dotp(const DV<K>& x,const DV<K>& y){ K s=0; for(std::size_t i=0;i<x.size();i++) s+=x[i]*y[i]; return s; }
// all matrix vector kernels of A against the dense image D; X is the domain and Y the range vector type
enum { K_MV, K_UMV, K_MMV, K_USMV, K_MTV, K_UMTV, K_MMTV, K_USMTV, K_UMHV, K_MMHV, K_USMHV, NKERN };
template<class Mat,class X,class Y,class K> void kernel(const Mat& A,const DM<K>& D,int k,X& x,Y& y,K alpha){
  fillv(x,"x"); fillv(y,"y"); auto fx=flat<K>(x), fy=flat<K>(y); DV<K> want; bool tp=k>=K_MTV;
  DM<K> T=k>=K_UMHV?he(D):k>=K_MTV?tr(D):D; auto p=tp?mul(T,fy):mul(T,fx); const DV<K>& old=tp?fx:fy;
  switch(k){
   case K_MV: A.mv(x,y); want=p; break; case K_UMV: A.umv(x,y); want=axpy(old,K(1),p); break; case K_MMV: A.mmv(x,y); want=sub(old,p); break; case K_USMV: A.usmv(alpha,x,y); want=axpy(old,alpha,p); break;
   case K_MTV: A.mtv(y,x); want=p; break; case K_UMTV: A.umtv(y,x); want=axpy(old,K(1),p); break; case K_MMTV: A.mmtv(y,x); want=sub(old,p); break; case K_USMTV: A.usmtv(alpha,y,x); want=axpy(old,alpha,p); break;
   case K_UMHV: A.umhv(y,x); want=axpy(old,K(1),p); break; case K_MMHV: A.mmhv(y,x); want=sub(old,p); break; case K_USMHV: A.usmhv(alpha,y,x); want=axpy(old,alpha,p); break;
  }
  static const char* nm[NKERN]={"mv","umv","mmv","usmv","mtv","umtv","mmtv","usmtv","umhv","mmhv","usmhv"};
  eqv(tp?flat<K>(x):flat<K>(y),want,nm[k]); eqv(tp?flat<K>(y):flat<K>(x),tp?fy:fx,"input vector unchanged");
}
}
