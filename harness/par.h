// a distribution of global unknowns over processes
#pragma once
#include "mpiworld.h"
#include "flat.h"
#include <dune/istl/bvector.hh>
#include <dune/istl/owneroverlapcopy.hh>
namespace H {
enum { N=-1, O=Dune::OwnerOverlapCopyAttributeSet::owner, V=Dune::OwnerOverlapCopyAttributeSet::overlap, C=Dune::OwnerOverlapCopyAttributeSet::copy };
typedef Dune::OwnerOverlapCopyCommunication<int> Comm;
struct Dist { int P,G; std::vector<std::vector<int>> a,loc; std::vector<int> num; bool normFirst=false,info=false;
  // every global unknown has one owner, the other processes may have it as overlap or copy
  Dist(int P_,int G_,bool overlap=true,bool copy=true):P(P_),G(G_),a(P_,std::vector<int>(G_,N)),loc(P_,std::vector<int>(G_,-1)),num(P_,0){
    for(int g=0;g<G;g++){ int o=sym_concrete_l(sym_int("owner",0,P-1)); for(int p=0;p<P;p++) if(p==o) a[p][g]=O; else { int k=sym_concrete_l(sym_int("role",0,overlap&&copy?2:1)); a[p][g]=k==0?N:(k==1)==overlap?V:C; } }
    bool rev=G>1&&sym_concrete_l(sym_bool("reversed numbering")); number(rev); normFirst=P==2&&G>0&&sym_concrete_l(sym_bool("norm first")); }
  void number(bool rev){ for(int p=0;p<P;p++){ num[p]=0; for(int k=0;k<G;k++){ int g=rev&&p%2==0?G-1-k:k; if(a[p][g]!=N) loc[p][g]=num[p]++; } } }
  int n(int p){ return num[p]; }
  // the same decomposition given as lists
  std::unique_ptr<Comm> make(int r,Dune::SolverCategory::Category cat=Dune::SolverCategory::overlapping){ if(!info){ auto c=std::make_unique<Comm>(MPI_COMM_WORLD,cat); setup(*c,r); return c; }
    Dune::IndexInfoFromGrid<int,int> i; for(int g=G-1;g>=0;g--) if(a[r][g]!=N){ i.addLocalIndex({10*g+3,loc[r][g],a[r][g]}); for(int p=0;p<P;p++) if(p!=r&&a[p][g]!=N) i.addRemoteIndex({p,10*g+3,a[p][g]}); } return std::make_unique<Comm>(i,MPI_COMM_WORLD,cat); }
  template<class CC> void setup(CC& c,int r){ auto& s=c.indexSet(); s.beginResize(); for(int g=0;g<G;g++) if(a[r][g]!=N) s.add(10*g+3,typename CC::ParallelIndexSet::LocalIndex(loc[r][g],(Dune::OwnerOverlapCopyAttributeSet::AttributeSet)a[r][g],true)); s.endResize(); c.remoteIndices().template rebuild<false>(); }
};
inline double dot_(double a,double b){ return a*b; } inline double nrm_(double a){ return a*a; }
inline std::complex<double> dot_(std::complex<double> a,std::complex<double> b){ return std::complex<double>(a.real()*b.real()+a.imag()*b.imag(),a.real()*b.imag()-a.imag()*b.real()); } inline double nrm_(std::complex<double> a){ return a.real()*a.real()+a.imag()*a.imag(); }
template<class K,int n> K dot_(const Dune::FieldVector<K,n>& a,const Dune::FieldVector<K,n>& b){ K s(0); for(int i=0;i<n;i++) s+=dot_(a[i],b[i]); return s; } template<class K,int n> double nrm_(const Dune::FieldVector<K,n>& a){ double s=0; for(int i=0;i<n;i++) s+=nrm_(a[i]); return s; }
template<class B> void eqv1(const B& a,const B& b,const char* l){ if constexpr(Dune::IsNumber<B>::value) sym_eq_(a,b,l); else for(std::size_t i=0;i<a.size();i++) sym_eq_(a[i],b[i],l); }
inline bool same1(double a,double b){ return a==b; } inline bool same1(std::complex<double> a,std::complex<double> b){ return a.real()==b.real()&&a.imag()==b.imag(); }
template<class B> bool sameb(const B& a,const B& b){ if constexpr(Dune::IsNumber<B>::value) return same1(a,b); else { bool s=true; for(std::size_t i=0;i<a.size();i++) s=s&&same1(a[i],b[i]); return s; } }
}
