// reference factorizations on dense images with blocks of size k (k<=2)
#pragma once
#include "flat.h"
namespace H {
inline bool regular(double d){ return d!=0.0; } template<class K> bool regular(std::complex<K> d){ return d.real()!=0.0||d.imag()!=0.0; }
template<class K> DM<K> blk(const DM<K>& A,int i,int j,int k){ DM<K> B(k,k); for(int p=0;p<k;p++) for(int q=0;q<k;q++) B(p,q)=A(i*k+p,j*k+q); return B; }
template<class K> void put(DM<K>& A,int i,int j,const DM<K>& B){ int k=B.n; for(int p=0;p<k;p++) for(int q=0;q<k;q++) A(i*k+p,j*k+q)=B(p,q); }
template<class K> K det(const DM<K>& B){ return B.n==1?B(0,0):B(0,0)*B(1,1)-B(0,1)*B(1,0); }
// only nonsingular pivots are considered
template<class K> DM<K> inv(const DM<K>& B){ K d=det(B); sym_assume(regular(d)); DM<K> R(B.n,B.n); if(B.n==1) R(0,0)=K(1)/d; else { R(0,0)=B(1,1)/d; R(1,1)=B(0,0)/d; R(0,1)=K(0)-B(0,1)/d; R(1,0)=K(0)-B(1,0)/d; } return R; }
template<class K> DM<K> minus(const DM<K>& A,const DM<K>& B){ DM<K> C(A); for(std::size_t i=0;i<C.a.size();i++) C.a[i]-=B.a[i]; return C; }
template<class K> DV<K> seg(const DV<K>& v,int i,int k){ return DV<K>(v.begin()+i*k,v.begin()+(i+1)*k); }
template<class K> struct LU { int n,k; DM<K> F; std::vector<std::vector<bool>> w; std::vector<DM<K>> Di; // F: unit lower and upper factor, Di inverse pivots
  DV<K> solve(const DV<K>& d)const{ DV<K> v(d); for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(w[i][j]) upd(v,i,j); for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) if(w[i][j]) upd(v,i,j); auto r=mul(Di[i],seg(v,i,k)); for(int p=0;p<k;p++) v[i*k+p]=r[p]; } return v; }
  void upd(DV<K>& v,int i,int j)const{ auto r=mul(blk(F,i,j,k),seg(v,j,k)); for(int p=0;p<k;p++) v[i*k+p]-=r[p]; } };
// incomplete elimination with the pattern w: the unique L, U with that pattern and (LU)_ij=A_ij on it
template<class K> LU<K> ilu(const DM<K>& A,const std::vector<std::vector<bool>>& w,int k){ int n=w.size(); LU<K> R{n,k,A,w,{}}; for(int i=0;i<n;i++){ for(int j=0;j<n;j++) if(w[i][j]){ DM<K> s=blk(A,i,j,k); for(int q=0;q<i&&q<j;q++) if(w[i][q]&&w[q][j]) s=minus(s,mm(blk(R.F,i,q,k),blk(R.F,q,j,k))); if(j<i) s=mm(s,R.Di[j]); put(R.F,i,j,s); } R.Di.push_back(inv(blk(R.F,i,i,k))); } return R; }
template<int n> std::vector<std::vector<bool>> vec(const Pat<n,n>& p){ std::vector<std::vector<bool>> w(n,std::vector<bool>(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) w[i][j]=p[i][j]; return w; }
// pattern of level l: generation 0 are the entries of the matrix; a row eliminating with two entries of generation below l creates the missing positions
template<int n> Pat<n,n> fillpat(const Pat<n,n>& p,int l){ Pat<n,n> r; int g[n][n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) g[i][j]=p[i][j]?0:1000; for(int i=0;i<n;i++) for(int k=0;k<i;k++) if(g[i][k]<l) for(int j=k+1;j<n;j++) if(g[k][j]<l&&g[i][j]==1000) g[i][j]=g[k][j]+1; for(int i=0;i<n;i++) for(int j=0;j<n;j++) r[i][j]=g[i][j]<1000; return r; }
// relaxation steps on the dense image; blocks of size k
enum { JAC,SORF,SORB }; 
template<class K,class W> void relax(int kind,const DM<K>& D,int k,const std::vector<DM<K>>& Di,DV<K>& x,const DV<K>& b,W w){ int n=D.n/k; DV<K> old=x; for(int q=0;q<n;q++){ int i=kind==SORB?n-1-q:q; DV<K> r(seg(b,i,k)); for(int p=0;p<k;p++) for(int j=0;j<D.m;j++) r[p]-=D(i*k+p,j)*(kind==JAC?old[j]:x[j]); r=mul(Di[i],r); for(int p=0;p<k;p++) x[i*k+p]+=w*r[p]; } }
template<class K> std::vector<DM<K>> diaginv(const DM<K>& D,int k){ std::vector<DM<K>> r; for(int i=0;i<D.n/k;i++) r.push_back(inv(blk(D,i,i,k))); return r; }
// L D L^T of the lower half with pattern w
template<class K> struct LDL { int n,k; DM<K> L; std::vector<DM<K>> D,Di;
  DV<K> solve(const DV<K>& d)const{ DV<K> r(d); auto upd=[&](int i,const DV<K>& s){ for(int p=0;p<k;p++) r[i*k+p]-=s[p]; }; for(int i=0;i<n;i++) for(int j=0;j<i;j++) upd(i,mul(blk(L,i,j,k),seg(r,j,k))); for(int i=0;i<n;i++){ auto t=mul(Di[i],seg(r,i,k)); for(int p=0;p<k;p++) r[i*k+p]=t[p]; } for(int i=n-1;i>=0;i--) for(int j=0;j<i;j++) upd(j,mul(tr(blk(L,i,j,k)),seg(r,i,k))); return r; } };
template<class K> LDL<K> ldl(const DM<K>& A,const std::vector<std::vector<bool>>& w,int k){ int n=w.size(); LDL<K> R{n,k,DM<K>(n*k,n*k),{},{}}; for(int i=0;i<n;i++){ for(int j=0;j<i;j++) if(w[i][j]){ auto s=blk(A,i,j,k); for(int q=0;q<j;q++) if(w[i][q]&&w[j][q]) s=minus(s,mm(mm(blk(R.L,i,q,k),R.D[q]),tr(blk(R.L,j,q,k)))); put(R.L,i,j,mm(s,R.Di[j])); } auto s=blk(A,i,i,k); for(int q=0;q<i;q++) if(w[i][q]) s=minus(s,mm(mm(blk(R.L,i,q,k),R.D[q]),tr(blk(R.L,i,q,k)))); R.D.push_back(s); R.Di.push_back(inv(s)); } return R; }
// diagonal ILU: D_i = A_ii - sum_{j<i} A_ij D_j^-1 A_ji;  v = ((D+L) D^-1 (D+U))^-1 d
template<class K> struct DILUref { int n,k; DM<K> A; std::vector<DM<K>> Di; DV<K> solve(const DV<K>& d)const{ DV<K> v(d.size(),K(0)); for(int i=0;i<n;i++){ auto r=seg(d,i,k); for(int j=0;j<i;j++){ auto q=mul(blk(A,i,j,k),seg(v,j,k)); for(int p=0;p<k;p++) r[p]-=q[p]; } r=mul(Di[i],r); for(int p=0;p<k;p++) v[i*k+p]=r[p]; } for(int i=n-1;i>=0;i--){ DV<K> r(k,K(0)); for(int j=i+1;j<n;j++){ auto q=mul(blk(A,i,j,k),seg(v,j,k)); for(int p=0;p<k;p++) r[p]+=q[p]; } r=mul(Di[i],r); for(int p=0;p<k;p++) v[i*k+p]-=r[p]; } return v; } };
template<class K> DILUref<K> dilu(const DM<K>& A,const std::vector<std::vector<bool>>& w,int k){ int n=w.size(); DILUref<K> R{n,k,A,{}}; for(int i=0;i<n;i++){ auto s=blk(A,i,i,k); for(int j=0;j<i;j++) if(w[i][j]&&w[j][i]) s=minus(s,mm(mm(blk(A,i,j,k),R.Di[j]),blk(A,j,i,k))); R.Di.push_back(inv(s)); } return R; }
}
