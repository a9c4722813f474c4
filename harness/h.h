// shared helpers of the harnesses
#pragma once
#include <config.h>
#include <sym.h>
#include <cassert>
#include <array>
#include <memory>
#include <vector>
#include <set>
#include <map>
#include <cmath>
#include <complex>
#include <limits>
#include <iterator>
#include <type_traits>
#include <utility>
#include <dune/common/exceptions.hh>
#ifndef H_KEEP_THROW
// exception *types* are kept, the message formatting (string streams) is not executed
#undef DUNE_THROW
#define DUNE_THROW(E, m) do { E dune_throw_ex_; throw dune_throw_ex_; } while (0)
#endif
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>

namespace H {
// symbolic block values ------------------------------------------------------
inline void fill(double& d,const char* n){ d=sym_real(n); }
template<class K> void fill(std::complex<K>& c,const char* n){ double a=sym_real(n),b=sym_real(n); c=std::complex<K>(a,b); }
template<class K,int n> void fill(Dune::FieldVector<K,n>& v,const char* nm){ for(int i=0;i<n;i++) fill(v[i],nm); }
template<class K,int n,int m> void fill(Dune::FieldMatrix<K,n,m>& A,const char* nm){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) fill(A[i][j],nm); }
// equality of blocks -----------------------------------------------------------
#define H_EQ(a,b,l) SYM_EQ(a,b,l)
template<class K,int n> void eq(const Dune::FieldVector<K,n>& a,const Dune::FieldVector<K,n>& b,const char*l){ for(int i=0;i<n;i++) sym_eq_(a[i],b[i],l); }
template<class K,int n,int m> void eq(const Dune::FieldMatrix<K,n,m>& a,const Dune::FieldMatrix<K,n,m>& b,const char*l){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) sym_eq_(a[i][j],b[i][j],l); }
inline void eq(double a,double b,const char*l){ sym_eq_(a,b,l); }
inline void eq(std::complex<double> a,std::complex<double> b,const char*l){ sym_eq_(a,b,l); }
}
#define HEQ(a,b,label) H::eq((a),(b),label " @" SYM_LOC)
