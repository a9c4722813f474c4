// C18: incomplete LDL and diagonal ILU satisfy their defining equations
// BOUNDS: every symmetric pattern (ILDL; with and without the upper half stored) and every pattern with diagonal (DILU) of 3x3 (ILDL: 4x4) matrices of numbers and 1x1 blocks, 2x2 (ILDL thorough: tridiagonal 3x3) matrices of 2x2 blocks, complex 2x2; all values, all right-hand sides; every 3x3 pattern with a missing diagonal entry
// ASSUME: the pivots are nonsingular (harnesses of this file); diagonal blocks of ILDL are symmetric
#include "ref.h"
#include <dune/istl/ildl.hh>
#include <dune/istl/dilu.hh>
using namespace Dune; using namespace H; typedef std::complex<double> Z;
static void sym(double&){} static void sym(Z&){} template<class K,int n> void sym(FieldMatrix<K,n,n>& A){ for(int i=0;i<n;i++) for(int j=0;j<i;j++) A[j][i]=A[i][j]; }
// reference: A is given by its lower half; L D L^T agrees with it on the pattern
template<class K> struct LDL { LU<K> F; std::vector<DM<K>> D; };
template<class B,class V,int n> static void ldl(bool lower){ typedef typename BS<B>::K K; const int k=BS<B>::n; Pat<n,n> w,l; for(int i=0;i<n;i++) for(int j=0;j<=i;j++) l[i][j]=w[i][j]=w[j][i]=i==j||decided(sym_bool("w")); BCRSMatrix<B> A; if(lower) build(A,l); else build(A,w); fillvals(A,lower?l:w); for(int i=0;i<n;i++) sym(A[i][i]); auto D0=dense(A);
  // L and D by the definition
  DM<K> L(n*k,n*k); std::vector<DM<K>> D,Di; for(int i=0;i<n;i++){ for(int j=0;j<i;j++) if(w[i][j]){ auto s=blk(D0,i,j,k); for(int q=0;q<j;q++) if(w[i][q]&&w[j][q]) s=minus(s,mm(mm(blk(L,i,q,k),D[q]),tr(blk(L,j,q,k)))); put(L,i,j,mm(s,Di[j])); } auto s=blk(D0,i,i,k); for(int q=0;q<i;q++) if(w[i][q]) s=minus(s,mm(mm(blk(L,i,q,k),D[q]),tr(blk(L,i,q,k)))); D.push_back(s); Di.push_back(inv(s)); }
  bildl_decompose(A); BlockVector<V> v(n),d(n); fillv(v,"old"); fillv(d,"d"); auto fd=flat<K>(d); bildl_backsolve(A,v,d,lower); eqv(flat<K>(d),fd,"right-hand side unchanged");
  DV<K> r(fd); auto upd=[&](int i,const DV<K>& s){ for(int p=0;p<k;p++) r[i*k+p]-=s[p]; }; for(int i=0;i<n;i++) for(int j=0;j<i;j++) upd(i,mul(blk(L,i,j,k),seg(r,j,k))); for(int i=0;i<n;i++){ auto t=mul(Di[i],seg(r,i,k)); for(int p=0;p<k;p++) r[i*k+p]=t[p]; } for(int i=n-1;i>=0;i--) for(int j=0;j<i;j++) upd(j,mul(tr(blk(L,i,j,k)),seg(r,i,k)));
  eqv(flat<K>(v),r,"L D L^T v = d"); bool full=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++) full=full&&w[i][j]; if(full){ DM<K> S(D0); for(int i=0;i<n*k;i++) for(int j=0;j<n*k;j++) if(j/k>i/k) S(i,j)=D0(j,i); eqv(mul(S,flat<K>(v)),fd,"complete pattern solves the system"); sym_reach("complete"); } sym_reach(lower?"lower":"both"); }
SYM_HARNESS(ldl_number,SYM_REAL,"lower,both,complete"){ ldl<double,double,3>(sym_bool("lower")); }
SYM_HARNESS(ldl_scalar,SYM_REAL,"lower,both,complete"){ ldl<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(sym_bool("lower")); }
SYM_HARNESS(ldl_four,SYM_REAL,"lower,both"){ if(sym_tier()) ldl<FieldMatrix<double,1,1>,FieldVector<double,1>,4>(sym_bool("lower")); else { ldl<double,double,4>(sym_bool("lower")); } }
SYM_HARNESS(ldl_dense,SYM_REAL,"lower,both,complete"){ ldl<FieldMatrix<double,2,2>,FieldVector<double,2>,2>(sym_bool("lower")); }
SYM_HARNESS(ldl_complex,SYM_REAL,"lower,both,complete"){ ldl<FieldMatrix<Z,1,1>,FieldVector<Z,1>,2>(sym_bool("lower")); }
// D_i = A_ii - sum_{j<i} A_ij D_j^-1 A_ji,  (D+L) D^-1 (D+U) v = d
template<class B,class V,int n> static void dilu(){ typedef typename BS<B>::K K; const int k=BS<B>::n; auto w=pattern<n,n>(true); BCRSMatrix<B> A; build(A,w); fillvals(A,w); auto A0=dense(A); std::vector<DM<K>> D,Di; for(int i=0;i<n;i++){ auto s=blk(A0,i,i,k); for(int j=0;j<i;j++) if(w[i][j]&&w[j][i]) s=minus(s,mm(mm(blk(A0,i,j,k),Di[j]),blk(A0,j,i,k))); D.push_back(s); Di.push_back(inv(s)); }
  std::vector<B> P(n); DILU::blockDILUDecomposition(A,P); BlockVector<V> v(n),d(n); fillv(v,"old"); fillv(d,"d"); auto fd=flat<K>(d); DILU::blockDILUBacksolve(A,P,v,d); eqv(flat<K>(d),fd,"right-hand side unchanged"); eqm(dense(A),A0,"matrix unchanged");
  auto x=flat<K>(v); DV<K> t(n*k,K(0)),r(n*k,K(0)); for(int i=0;i<n;i++){ auto s=mul(D[i],seg(x,i,k)); for(int j=i+1;j<n;j++){ auto q=mul(blk(A0,i,j,k),seg(x,j,k)); for(int p=0;p<k;p++) s[p]+=q[p]; } auto u=mul(Di[i],s); for(int p=0;p<k;p++) t[i*k+p]=u[p]; } for(int i=0;i<n;i++){ auto s=mul(D[i],seg(t,i,k)); for(int j=0;j<i;j++){ auto q=mul(blk(A0,i,j,k),seg(t,j,k)); for(int p=0;p<k;p++) s[p]+=q[p]; } for(int p=0;p<k;p++) r[i*k+p]=s[p]; }
  eqv(r,fd,"(D+L) D^-1 (D+U) v = d"); sym_reach("done"); }
SYM_HARNESS(dilu_number,SYM_REAL,"done"){ dilu<double,double,3>(); }
SYM_HARNESS(dilu_scalar,SYM_REAL,"done"){ dilu<FieldMatrix<double,1,1>,FieldVector<double,1>,3>(); }
SYM_HARNESS(dilu_dense,SYM_REAL,"done"){ dilu<FieldMatrix<double,2,2>,FieldVector<double,2>,2>(); }
SYM_HARNESS(dilu_complex,SYM_REAL,"done"){ dilu<FieldMatrix<Z,1,1>,FieldVector<Z,1>,2>(); }
// a missing diagonal entry is refused
SYM_HARNESS(missing,SYM_REAL,"ldl,dilu"){ typedef FieldMatrix<double,1,1> B; const int n=3; auto w=pattern<n,n>(false); bool ok=true; for(int i=0;i<n;i++) ok=ok&&w[i][i]; sym_assume(!ok); BCRSMatrix<B> A; build(A,w,sym_bool("random")?RANDOM_GAPS:ROWWISE); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) A[i][j]=B(i==j?8.0:-1.0); bool got=false,l=sym_bool("ldl"); try { if(l) bildl_decompose(A); else { std::vector<B> P(n); DILU::blockDILUDecomposition(A,P); } } catch(ISTLError&){ got=true; } SYM_ASSERT(got,"missing diagonal entry is refused"); sym_reach(l?"ldl":"dilu"); }
