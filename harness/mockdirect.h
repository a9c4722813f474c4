// Stand-ins for the external direct solver libraries (declared by their own headers).
// Each one checks the calling protocol of the library (documented preconditions, live handles), snapshots the
// matrix at factorization time and answers a solve with unknown values; every solve is recorded, so that a
// harness can require that the system handed over is the documented one and that the answer is passed on.
#pragma once
#include "flat.h"
#include <cstring>
#include <string>
#ifdef MOCK_UMFPACK
#include <umfpack.h>
#endif
#ifdef MOCK_LDL
extern "C" {
#include <ldl.h>
#include <amd.h>
}
#endif
#if defined(MOCK_CHOLMOD)||defined(MOCK_SPQR)
#include <cholmod.h>
#endif
#ifdef MOCK_SPQR
#include <SuiteSparseQR.hpp>
#endif
#ifdef MOCK_SUPERLU
#include <dune/istl/superlufunctions.hh>
#endif
namespace mock {
using H::DM; using H::DV; typedef std::complex<double> Z;
// one recorded solve: A x = b
template<class K> struct Call { DM<K> A; DV<K> b,x; };
template<class K> std::vector<Call<K>>& calls(){ static std::vector<Call<K>> c; return c; }
struct Object { int kind; bool live; };
inline std::map<const void*,int>& objects(){ static std::map<const void*,int> o; return o; } // live library objects -> kind
inline long& acquired(){ static long n=0; return n; }
// with a script set, the k-th unknown answer is the k-th entry (extended on demand): two runs can be given the same answers
struct Script { std::vector<double> v; std::size_t at=0; }; inline Script*& script(){ static Script* s=nullptr; return s; }
inline void reset(){ calls<double>().clear(); calls<Z>().clear(); objects().clear(); acquired()=0; script()=nullptr; }
inline void acquire(const void* p,int kind){ sym_assert_b(!objects().count(p),"distinct library objects"); objects()[p]=kind; acquired()++; }
inline void alive(const void* p,int kind,const char* l){ auto it=objects().find(p); sym_assert_b(it!=objects().end()&&it->second==kind,l); if(it==objects().end()||it->second!=kind) sym_cut(); }
inline void release(const void* p,int kind,const char* l){ alive(p,kind,l); objects().erase(p); }
inline double fresh(double*){ if(auto s=script()){ if(s->at==s->v.size()) s->v.push_back(sym_real("solution")); return s->v[s->at++]; } return sym_real("solution"); }
inline Z fresh(Z*){ double a=sym_real("solution"),b=sym_real("solution"); return Z(a,b); }
// compressed columns -> dense, with the checks all the libraries document: pointers start at zero and never decrease, row indices are valid, ascending and unique
template<class K,class I> DM<K> columns(long n,long m,const I* p,const I* ind,const double* x,const char* l){
  DM<K> D(n,m); sym_assert_b(p&&p[0]==0,l); for(long j=0;j<m;j++){ sym_assert_b(p[j]<=p[j+1],l); long last=-1; for(long k=p[j];k<p[j+1];k++){ long i=ind[k]; sym_assert_b(i>last&&i<n,l); if(!(i>last&&i<n)) sym_cut(); last=i; if constexpr(std::is_same_v<K,double>) D(i,j)=x[k]; else D(i,j)=K(x[2*k],x[2*k+1]); } } return D; }
template<class K> void answer(const DM<K>& A,const double* b,double* x){ Call<K> c; c.A=A; constexpr int s=sizeof(K)/sizeof(double); for(int i=0;i<A.n;i++) if constexpr(s==1) c.b.push_back(b[i]); else c.b.push_back(K(b[2*i],b[2*i+1])); for(int i=0;i<A.m;i++){ K v=fresh((K*)0); c.x.push_back(v); if constexpr(s==1) x[i]=v; else { x[2*i]=v.real(); x[2*i+1]=v.imag(); } } calls<K>().push_back(c); }
enum { USYM=1, UNUM, LDLF, SPARSE, DENSE, FACTOR, COMMON, QRF, STORE, LUF, STAT };
}
#ifdef MOCK_UMFPACK
namespace mock {
struct Sym { long n; bool z; }; template<class K> struct Num { DM<K> A; };
inline std::map<std::string,DM<double>>& files(){ static std::map<std::string,DM<double>> f; return f; } inline std::map<std::string,DM<Z>>& zfiles(){ static std::map<std::string,DM<Z>> f; return f; }
inline void ureset(){ files().clear(); zfiles().clear(); }
inline void uinfo(double* Info,double st){ if(Info){ for(int i=0;i<UMFPACK_INFO;i++) Info[i]=0; Info[UMFPACK_RCOND]=1; Info[UMFPACK_STATUS]=st; } }
template<class K> int usymbolic(int64_t n,int64_t m,const int64_t* Ap,const int64_t* Ai,const double* Ax,void** S,double* Info){ *S=nullptr; if(n<=0||m<=0){ uinfo(Info,UMFPACK_ERROR_n_nonpositive); return UMFPACK_ERROR_n_nonpositive; } columns<K>(n,m,Ap,Ai,Ax,"umfpack: matrix in compressed columns"); Sym* s=new Sym{n,sizeof(K)>8}; acquire(s,USYM); *S=s; uinfo(Info,UMFPACK_OK); return UMFPACK_OK; }
template<class K> int unumeric(const int64_t* Ap,const int64_t* Ai,const double* Ax,void* S,void** N,double* Info){ *N=nullptr; if(!S){ uinfo(Info,UMFPACK_ERROR_invalid_Symbolic_object); return UMFPACK_ERROR_invalid_Symbolic_object; } alive(S,USYM,"umfpack: live symbolic object"); sym_assert_b(((Sym*)S)->z==(sizeof(K)>8),"umfpack: matching number types"); long n=((Sym*)S)->n; Num<K>* f=new Num<K>{columns<K>(n,n,Ap,Ai,Ax,"umfpack: matrix in compressed columns")}; acquire(f,UNUM); *N=f; uinfo(Info,UMFPACK_OK); return UMFPACK_OK; }
template<class K> int usolve(int sys,const int64_t* Ap,const int64_t* Ai,const double* Ax,double* X,const double* B,void* N,const double* Control,double* Info){ alive(N,UNUM,"umfpack: live numeric object"); const DM<K>& A=((Num<K>*)N)->A; bool refine=Control[UMFPACK_IRSTEP]>0;
  if(refine&&(!Ap||!Ai||!Ax)){ uinfo(Info,UMFPACK_ERROR_argument_missing); return UMFPACK_ERROR_argument_missing; } // needed for the iterative refinement
  if(refine) H::eqm(columns<K>(A.n,A.m,Ap,Ai,Ax,"umfpack: matrix in compressed columns"),A,"umfpack: the factorized matrix is handed to the solve");
  if(sys==UMFPACK_A) answer<K>(A,B,X); else if(sys==UMFPACK_At) answer<K>(H::he(A),B,X); else if(sys==UMFPACK_Aat) answer<K>(H::tr(A),B,X); else sym_fail("umfpack: system"); uinfo(Info,UMFPACK_OK); return UMFPACK_OK; }
inline void ufree(void** p,int kind,const char* l){ if(!*p) return; release(*p,kind,l); *p=nullptr; }
template<class K> int usave(void* N,char* f,std::map<std::string,DM<K>>& fs){ alive(N,UNUM,"umfpack: live numeric object"); fs[f]=((Num<K>*)N)->A; return UMFPACK_OK; }
template<class K> int uload(void** N,char* f,std::map<std::string,DM<K>>& fs){ *N=nullptr; if(!fs.count(f)) return UMFPACK_ERROR_file_IO; auto* q=new Num<K>{fs[f]}; acquire(q,UNUM); *N=q; return UMFPACK_OK; }
}
extern "C" {
void umfpack_dl_defaults(double* C){ for(int i=0;i<UMFPACK_CONTROL;i++) C[i]=0; C[UMFPACK_PRL]=1; C[UMFPACK_IRSTEP]=2; }
void umfpack_zl_defaults(double* C){ umfpack_dl_defaults(C); }
void umfpack_dl_free_symbolic(void** p){ mock::ufree(p,mock::USYM,"umfpack: symbolic object released once"); }
void umfpack_zl_free_symbolic(void** p){ umfpack_dl_free_symbolic(p); }
void umfpack_dl_free_numeric(void** p){ mock::ufree(p,mock::UNUM,"umfpack: numeric object released once"); }
void umfpack_zl_free_numeric(void** p){ umfpack_dl_free_numeric(p); }
void umfpack_dl_report_info(const double*,const double*){} void umfpack_zl_report_info(const double*,const double*){}
void umfpack_dl_report_status(const double*,int){} void umfpack_zl_report_status(const double*,int){}
int umfpack_dl_symbolic(int64_t n,int64_t m,const int64_t* Ap,const int64_t* Ai,const double* Ax,void** S,const double*,double* I){ return mock::usymbolic<double>(n,m,Ap,Ai,Ax,S,I); }
int umfpack_zl_symbolic(int64_t n,int64_t m,const int64_t* Ap,const int64_t* Ai,const double* Ax,const double* Az,void** S,const double*,double* I){ sym_assert_b(!Az,"umfpack: packed complex numbers"); return mock::usymbolic<mock::Z>(n,m,Ap,Ai,Ax,S,I); }
int umfpack_dl_numeric(const int64_t* Ap,const int64_t* Ai,const double* Ax,void* S,void** N,const double*,double* I){ return mock::unumeric<double>(Ap,Ai,Ax,S,N,I); }
int umfpack_zl_numeric(const int64_t* Ap,const int64_t* Ai,const double* Ax,const double* Az,void* S,void** N,const double*,double* I){ sym_assert_b(!Az,"umfpack: packed complex numbers"); return mock::unumeric<mock::Z>(Ap,Ai,Ax,S,N,I); }
int umfpack_dl_solve(int sys,const int64_t* Ap,const int64_t* Ai,const double* Ax,double* X,const double* B,void* N,const double* C,double* I){ return mock::usolve<double>(sys,Ap,Ai,Ax,X,B,N,C,I); }
int umfpack_zl_solve(int sys,const int64_t* Ap,const int64_t* Ai,const double* Ax,const double* Az,double* X,double* Xz,const double* B,const double* Bz,void* N,const double* C,double* I){ sym_assert_b(!Az&&!Xz&&!Bz,"umfpack: packed complex numbers"); return mock::usolve<mock::Z>(sys,Ap,Ai,Ax,X,B,N,C,I); }
int umfpack_dl_save_numeric(void* N,char* f){ return mock::usave<double>(N,f,mock::files()); } int umfpack_zl_save_numeric(void* N,char* f){ return mock::usave<mock::Z>(N,f,mock::zfiles()); }
int umfpack_dl_load_numeric(void** N,char* f){ return mock::uload<double>(N,f,mock::files()); } int umfpack_zl_load_numeric(void** N,char* f){ return mock::uload<mock::Z>(N,f,mock::zfiles()); }
}
#endif
#ifdef MOCK_LDL
namespace mock {
// state of the substitution sequence perm, lsolve, dsolve, ltsolve, permt on one work vector
struct LdlFac { int n; const int32_t *Lp,*Li; const double *Lx,*D; DM<double> A; std::vector<int> P; };
inline std::vector<LdlFac>& ldlfac(){ static std::vector<LdlFac> f; return f; } inline int& ldlstate(){ static int s=0; return s; } inline DV<double>& ldlb(){ static DV<double> b; return b; } inline const double*& ldlwork(){ static const double* w; return w; } inline const LdlFac*& ldlcur(){ static const LdlFac* f; return f; } inline bool& ldlsingular(){ static bool s; return s; } inline int& amdperm(){ static int p; return p; }
inline void ldlreset(){ ldlfac().clear(); ldlstate()=0; ldlsingular()=false; amdperm()=0; }
inline const LdlFac* ldlfind(const int32_t* Lp,const int32_t* Li,const double* Lx,const double* D){ for(auto it=ldlfac().rbegin();it!=ldlfac().rend();++it) if((!Lp||(it->Lp==Lp&&it->Li==Li&&it->Lx==Lx))&&(!D||it->D==D)) return &*it; return nullptr; }
}
extern "C" {
int amd_order(int32_t n,const int32_t* Ap,const int32_t* Ai,int32_t* P,double*,double*){ for(int32_t k=0;k<Ap[n];k++) sym_assert_b(Ai[k]>=0&&Ai[k]<n,"amd: valid row indices"); for(int i=0;i<n;i++) P[i]=mock::amdperm()==0?i:mock::amdperm()==1?n-1-i:(i+1)%n; return AMD_OK; }
void amd_info(double*){}
void ldl_symbolic(int32_t n,int32_t* Ap,int32_t*,int32_t* Lp,int32_t* Parent,int32_t* Lnz,int32_t* Flag,int32_t* P,int32_t* Pinv){ sym_assert_b(Ap[0]==0,"ldl: column pointers"); for(int i=0;i<n;i++){ Pinv[P[i]]=i; Parent[i]=-1; Lnz[i]=0; Flag[i]=i; } for(int i=0;i<=n;i++) Lp[i]=i; }
int32_t ldl_numeric(int32_t n,int32_t* Ap,int32_t* Ai,double* Ax,int32_t* Lp,int32_t* Parent,int32_t* Lnz,int32_t* Li,double* Lx,double* D,double* Y,int32_t* Pattern,int32_t* Flag,int32_t* P,int32_t* Pinv){
  H::DM<double> A=mock::columns<double>(n,n,Ap,Ai,Ax,"ldl: matrix in compressed columns"); H::DM<double> S(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(Pinv[i]<=Pinv[j]){ S(i,j)=A(i,j); S(j,i)=A(i,j); }
  for(int i=0;i<n;i++){ Li[i]=i; Lx[i]=7; D[i]=9; Y[i]=0; Pattern[i]=0; Flag[i]=0; sym_assert_b(Lp[i]==i&&Lnz[i]==0&&Parent[i]==-1,"ldl: data of the symbolic factorization"); } std::vector<int> p(P,P+n); mock::ldlfac().push_back({n,Lp,Li,Lx,D,S,p}); return mock::ldlsingular()?0:n; }
void ldl_perm(int32_t n,double* X,double* B,int32_t* P){ sym_assert_b(X!=B,"ldl: distinct vectors"); for(int j=0;j<n;j++) X[j]=B[P[j]]; mock::ldlb().assign(n,0); for(int j=0;j<n;j++) mock::ldlb()[P[j]]=B[P[j]]; mock::ldlstate()=1; mock::ldlwork()=X; }
void ldl_lsolve(int32_t n,double* X,int32_t* Lp,int32_t* Li,double* Lx){ mock::ldlcur()=mock::ldlfind(Lp,Li,Lx,nullptr); sym_assert_b(mock::ldlcur()&&mock::ldlcur()->n==n&&mock::ldlstate()==1&&mock::ldlwork()==X,"ldl: forward substitution first"); if(!mock::ldlcur()) sym_cut(); mock::ldlstate()=2; }
void ldl_dsolve(int32_t n,double* X,double* D){ auto* f=mock::ldlfind(nullptr,nullptr,nullptr,D); sym_assert_b(f&&f==mock::ldlcur()&&f->n==n&&mock::ldlstate()==2&&mock::ldlwork()==X,"ldl: diagonal second"); mock::ldlstate()=3; }
void ldl_ltsolve(int32_t n,double* X,int32_t* Lp,int32_t* Li,double* Lx){ auto* f=mock::ldlfind(Lp,Li,Lx,nullptr); sym_assert_b(f&&f==mock::ldlcur()&&f->n==n&&mock::ldlstate()==3&&mock::ldlwork()==X,"ldl: backward substitution third"); if(!f) sym_cut(); mock::Call<double> c; c.A=f->A; c.b=mock::ldlb(); c.x.assign(n,0); for(int j=0;j<n;j++){ X[j]=sym_real("solution"); c.x[f->P[j]]=X[j]; } mock::calls<double>().push_back(c); mock::ldlstate()=4; }
void ldl_permt(int32_t n,double* X,double* B,int32_t* P){ sym_assert_b(X!=B&&mock::ldlstate()==4&&mock::ldlwork()==B,"ldl: permute back last"); for(int j=0;j<n;j++) X[P[j]]=B[j]; mock::ldlstate()=0; }
}
#endif
#if defined(MOCK_CHOLMOD)||defined(MOCK_SPQR)
namespace mock {
template<class I> cholmod_sparse* calloc_sparse(size_t n,size_t m,size_t nz,int sorted,int packed,int stype,int xtype){ auto* A=new cholmod_sparse(); std::memset((void*)A,0,sizeof *A); A->nrow=n; A->ncol=m; A->nzmax=nz; A->sorted=sorted; A->packed=packed; A->stype=stype; A->xtype=xtype; A->itype=sizeof(I)==4?CHOLMOD_INT:CHOLMOD_LONG; I* p=new I[m+1]; I* i=new I[nz?nz:1]; int s=xtype==CHOLMOD_COMPLEX?2:1; double* x=new double[nz?nz*s:1]; for(size_t k=0;k<=m;k++) p[k]=0; for(size_t k=0;k<nz;k++) i[k]=-1; for(size_t k=0;k<nz*s;k++) x[k]=-4711; A->p=p; A->i=i; A->x=x; acquire(A,SPARSE); return A; }
template<class I> int free_sparse(cholmod_sparse** A){ if(!A||!*A) return 1; release(*A,SPARSE,"cholmod: sparse matrix released once"); delete[] (I*)(*A)->p; delete[] (I*)(*A)->i; delete[] (double*)(*A)->x; delete *A; *A=nullptr; return 1; }
inline cholmod_dense* calloc_dense(size_t n,size_t m,size_t d,int xtype){ auto* B=new cholmod_dense(); std::memset((void*)B,0,sizeof *B); B->nrow=n; B->ncol=m; B->d=d; B->nzmax=d*m; B->xtype=xtype; int s=xtype==CHOLMOD_COMPLEX?2:1; double* x=new double[d*m?d*m*s:1]; for(size_t k=0;k<d*m*s;k++) x[k]=-815; B->x=x; acquire(B,DENSE); return B; }
inline int free_dense(cholmod_dense** B){ if(!B||!*B) return 1; release(*B,DENSE,"cholmod: dense matrix released once"); delete[] (double*)(*B)->x; delete *B; *B=nullptr; return 1; }
template<class K,class I> DM<K> sparse(const cholmod_sparse* A){ alive(A,SPARSE,"cholmod: live matrix"); sym_assert_b(A->itype==(sizeof(I)==4?CHOLMOD_INT:CHOLMOD_LONG),"cholmod: matching index type"); sym_assert_b(A->xtype==(sizeof(K)>8?CHOLMOD_COMPLEX:CHOLMOD_REAL),"cholmod: matching number type"); sym_assert_b((size_t)((I*)A->p)[A->ncol]<=A->nzmax,"cholmod: space for all entries"); sym_assert_b(A->packed,"cholmod: packed"); return columns<K>(A->nrow,A->ncol,(I*)A->p,(I*)A->i,(double*)A->x,"cholmod: matrix in compressed columns"); }
}
#endif
#ifdef MOCK_CHOLMOD
namespace mock {
inline std::map<cholmod_factor*,DM<double>>& factors(){ static std::map<cholmod_factor*,DM<double>> f; return f; }
inline int& commons(){ static int c=0; return c; }
inline void creset(){ factors().clear(); commons()=0; }
inline int cstart(cholmod_common* c){ std::memset((void*)c,0,sizeof *c); acquire(c,COMMON); return 1; } inline int cfinish(cholmod_common* c){ release(c,COMMON,"cholmod: finished once"); return 1; }
template<class I> cholmod_factor* analyze(cholmod_sparse* A){ sparse<double,I>(A); sym_assert_b(A->nrow==A->ncol,"cholmod: square"); auto* L=new cholmod_factor(); std::memset((void*)L,0,sizeof *L); L->n=A->nrow; acquire(L,FACTOR); return L; }
template<class I> int factorize(cholmod_sparse* A,cholmod_factor* L){ alive(L,FACTOR,"cholmod: live factor"); DM<double> D=sparse<double,I>(A); sym_assert_b(A->stype!=0&&D.n==(int)L->n,"cholmod: symmetric matrix of the analyzed size"); DM<double> S(D.n,D.n); for(int i=0;i<D.n;i++) for(int j=0;j<D.n;j++) if(A->stype<0?i>=j:i<=j){ S(i,j)=D(i,j); S(j,i)=D(i,j); } factors()[L]=S; return 1; }
template<class I> cholmod_dense* solve(int sys,cholmod_factor* L,cholmod_dense* B){ alive(L,FACTOR,"cholmod: live factor"); alive(B,DENSE,"cholmod: live right hand side"); sym_assert_b(sys==CHOLMOD_A&&factors().count(L),"cholmod: system with the factorized matrix"); if(!factors().count(L)) sym_cut(); const DM<double>& A=factors()[L]; sym_assert_b((int)B->nrow==A.n&&B->ncol==1&&B->d>=B->nrow&&B->xtype==CHOLMOD_REAL,"cholmod: dimensions of the right hand side"); auto* X=calloc_dense(A.n,1,A.n,CHOLMOD_REAL); answer<double>(A,(double*)B->x,(double*)X->x); return X; }
inline int free_factor(cholmod_factor** L){ if(!L||!*L) return 1; release(*L,FACTOR,"cholmod: factor released once"); factors().erase(*L); delete *L; *L=nullptr; return 1; }
}
#define MOCK_CH(P,I) extern "C" { \
cholmod_dense* P##allocate_dense(size_t n,size_t m,size_t d,int x,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::calloc_dense(n,m,d,x); } \
cholmod_sparse* P##allocate_sparse(size_t n,size_t m,size_t nz,int so,int pa,int st,int x,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::calloc_sparse<I>(n,m,nz,so,pa,st,x); } \
cholmod_factor* P##analyze(cholmod_sparse* A,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::analyze<I>(A); } \
int P##defaults(cholmod_common*){ return 1; } int P##start(cholmod_common* c){ return mock::cstart(c); } int P##finish(cholmod_common* c){ return mock::cfinish(c); } \
int P##factorize(cholmod_sparse* A,cholmod_factor* L,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::factorize<I>(A,L); } \
int P##free_dense(cholmod_dense** X,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::free_dense(X); } \
int P##free_factor(cholmod_factor** X,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::free_factor(X); } \
int P##free_sparse(cholmod_sparse** X,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::free_sparse<I>(X); } \
cholmod_dense* P##solve(int s,cholmod_factor* L,cholmod_dense* B,cholmod_common* c){ mock::alive(c,mock::COMMON,"cholmod: started"); return mock::solve<I>(s,L,B); } }
MOCK_CH(cholmod_,int32_t)
MOCK_CH(cholmod_l_,int64_t)
#endif
#ifdef MOCK_SPQR
namespace mock {
// A = QR: qmult turns b into Q'b (kept as the same unknown numbers), solve(R'E-system) answers
template<class K> struct QR { DM<K> A; }; template<class K> std::map<const void*,QR<K>>& qrs(){ static std::map<const void*,QR<K>> f; return f; } inline std::map<const void*,int>& rotated(){ static std::map<const void*,int> r; return r; }
inline void qreset(){ qrs<double>().clear(); qrs<Z>().clear(); rotated().clear(); }
template<class K> SuiteSparseQR_factorization<K,int64_t>* qfactor(int,double,cholmod_sparse* A,cholmod_common* c){ alive(c,COMMON,"spqr: started"); DM<K> D=sparse<K,int64_t>(A); sym_assert_b(A->stype==0,"spqr: general matrix"); auto* f=new SuiteSparseQR_factorization<K,int64_t>(); acquire(f,QRF); qrs<K>()[f]=QR<K>{D}; return f; }
template<class K> cholmod_dense* qmult(int method,SuiteSparseQR_factorization<K,int64_t>* f,cholmod_dense* B,cholmod_common* c){ alive(c,COMMON,"spqr: started"); alive(f,QRF,"spqr: live factorization"); alive(B,DENSE,"spqr: live vector"); sym_assert_b(method==0,"spqr: product with the transposed of Q"); const auto& A=qrs<K>()[f].A; sym_assert_b((int)B->nrow==A.n&&B->xtype==(sizeof(K)>8?CHOLMOD_COMPLEX:CHOLMOD_REAL),"spqr: dimensions of the right hand side"); auto* Y=calloc_dense(B->nrow,1,B->nrow,B->xtype); int s=sizeof(K)/8; for(size_t i=0;i<B->nrow*s;i++) ((double*)Y->x)[i]=((double*)B->x)[i]; rotated()[Y]=1; return Y; }
template<class K> cholmod_dense* qsolve(int sys,SuiteSparseQR_factorization<K,int64_t>* f,cholmod_dense* B,cholmod_common* c){ alive(c,COMMON,"spqr: started"); alive(f,QRF,"spqr: live factorization"); alive(B,DENSE,"spqr: live vector"); const auto& A=qrs<K>()[f].A; sym_assert_b(rotated().count(B)&&sys==1,"spqr: solve with R and the permutation after multiplying with Q'"); auto* X=calloc_dense(A.m,1,A.m,sizeof(K)>8?CHOLMOD_COMPLEX:CHOLMOD_REAL); answer<K>(A,(double*)B->x,(double*)X->x); return X; }
template<class K> int qfree(SuiteSparseQR_factorization<K,int64_t>** f,cholmod_common* c){ alive(c,COMMON,"spqr: started"); if(!f||!*f) return 1; release(*f,QRF,"spqr: factorization released once"); delete *f; *f=nullptr; return 1; }
inline int qstart(cholmod_common* c){ std::memset((void*)c,0,sizeof *c); acquire(c,COMMON); return 1; } inline int qfinish(cholmod_common* c){ release(c,COMMON,"spqr: finished once"); return 1; }
}
extern "C" {
int cholmod_l_start(cholmod_common* c){ return mock::qstart(c); } int cholmod_l_finish(cholmod_common* c){ return mock::qfinish(c); }
cholmod_dense* cholmod_l_allocate_dense(size_t n,size_t m,size_t d,int x,cholmod_common* c){ mock::alive(c,mock::COMMON,"spqr: started"); return mock::calloc_dense(n,m,d,x); }
cholmod_sparse* cholmod_l_allocate_sparse(size_t n,size_t m,size_t nz,int so,int pa,int st,int x,cholmod_common* c){ mock::alive(c,mock::COMMON,"spqr: started"); return mock::calloc_sparse<int64_t>(n,m,nz,so,pa,st,x); }
int cholmod_l_free_dense(cholmod_dense** X,cholmod_common* c){ mock::alive(c,mock::COMMON,"spqr: started"); if(X&&*X) mock::rotated().erase(*X); return mock::free_dense(X); }
int cholmod_l_free_sparse(cholmod_sparse** X,cholmod_common* c){ mock::alive(c,mock::COMMON,"spqr: started"); return mock::free_sparse<int64_t>(X); }
}
#define MOCK_QR(K) \
template<> SuiteSparseQR_factorization<K,int64_t>* SuiteSparseQR_factorize<K,int64_t>(int o,double t,cholmod_sparse* A,cholmod_common* c){ return mock::qfactor<K>(o,t,A,c); } \
template<> cholmod_dense* SuiteSparseQR_qmult<K,int64_t>(int m,SuiteSparseQR_factorization<K,int64_t>* f,cholmod_dense* B,cholmod_common* c){ return mock::qmult<K>(m,f,B,c); } \
template<> cholmod_dense* SuiteSparseQR_solve<K,int64_t>(int s,SuiteSparseQR_factorization<K,int64_t>* f,cholmod_dense* B,cholmod_common* c){ return mock::qsolve<K>(s,f,B,c); } \
template<> int SuiteSparseQR_free<K,int64_t>(SuiteSparseQR_factorization<K,int64_t>** f,cholmod_common* c){ return mock::qfree<K>(f,c); }
MOCK_QR(double)
MOCK_QR(std::complex<double>)
#endif
#ifdef MOCK_SUPERLU
namespace mock {
template<class K> struct LU { DM<K> A; const void* store; const int *pc,*pr,*et; const double *R,*C; }; template<class K> std::map<const void*,LU<K>>& lus(){ static std::map<const void*,LU<K>> f; return f; }
inline void slureset(){ lus<double>().clear(); lus<Z>().clear(); }
template<class K> DM<K> ncmat(const SuperMatrix* A){ sym_assert_b(A->Stype==SLU_NC&&A->Dtype==(sizeof(K)>8?SLU_Z:SLU_D)&&A->Mtype==SLU_GE,"superlu: type of the matrix"); alive(A->Store,STORE,"superlu: live matrix"); auto* s=(NCformat*)A->Store; sym_assert_b(s->colptr[A->ncol]==s->nnz,"superlu: number of entries"); return columns<K>(A->nrow,A->ncol,s->colptr,s->rowind,(double*)s->nzval,"superlu: matrix in compressed columns"); }
template<class K> void gssvx(superlu_options_t* o,SuperMatrix* A,int* pc,int* pr,int* et,char* equed,double* R,double* C,SuperMatrix* L,SuperMatrix* U,void*,int lwork,SuperMatrix* B,SuperMatrix* X,double* rpg,double* rcond,double* ferr,double* berr,SuperLUStat_t* st,int* info){
  alive(st->panel_histo,STAT,"superlu: initialized statistics"); sym_assert_b(lwork==0&&A->nrow==A->ncol,"superlu: square matrix, library allocates"); *info=0; *rpg=1; *rcond=1; Dtype_t dt=sizeof(K)>8?SLU_Z:SLU_D; int n=A->nrow;
  sym_assert_b(B->Stype==SLU_DN&&X->Stype==SLU_DN&&B->Dtype==dt&&X->Dtype==dt,"superlu: type of the vectors"); sym_assert_b(((DNformat*)B->Store)->lda>=n&&((DNformat*)X->Store)->lda>=n,"superlu: leading dimension");
  if(o->Fact==DOFACT){ DM<K> D=ncmat<K>(A); auto* l=new int(1); auto* u=new int(2); L->Store=l; U->Store=u; acquire(l,LUF); acquire(u,LUF+1); for(int i=0;i<n;i++){ pc[i]=n-1-i; pr[i]=i; et[i]=n; R[i]=1; C[i]=1; } *equed='N'; lus<K>()[l]=LU<K>{D,A->Store,pc,pr,et,R,C}; }
  else sym_assert_b(o->Fact==FACTORED,"superlu: mode");
  alive(L->Store,LUF,"superlu: live factors"); alive(U->Store,LUF+1,"superlu: live factors"); const auto& f=lus<K>()[L->Store]; sym_assert_b(f.store==A->Store&&f.pc==pc&&f.pr==pr&&f.et==et&&f.R==R&&f.C==C,"superlu: factors, permutations and scalings of the matrix");
  if(o->Fact==FACTORED) H::eqm(ncmat<K>(A),f.A,"superlu: the factorized matrix is handed to the solve"); for(int i=0;i<n;i++) sym_assert_b(pc[i]==n-1-i&&pr[i]==i&&et[i]==n,"superlu: permutations kept");
  sym_assert_b(B->ncol==X->ncol,"superlu: columns"); if(B->ncol==0) return; sym_assert_b(B->ncol==1&&B->nrow==n&&X->nrow==n,"superlu: dimensions of the vectors"); *ferr=0; *berr=0; st->RefineSteps=0;
  DM<K> S=o->Trans==NOTRANS?f.A:o->Trans==TRANS?H::tr(f.A):H::he(f.A); double *b=(double*)((DNformat*)B->Store)->nzval,*x=(double*)((DNformat*)X->Store)->nzval; answer<K>(S,b,x); for(int i=0;i<n*(int)(sizeof(K)/8);i++) b[i]=-4242; /* the library may scale the right hand side */ }
inline void dn(SuperMatrix* X,int n,int m,void* x,int ld,Stype_t s,Dtype_t d,Mtype_t t){ X->Stype=s; X->Dtype=d; X->Mtype=t; X->nrow=n; X->ncol=m; auto* S=new DNformat(); S->lda=ld; S->nzval=x; X->Store=S; acquire(S,STORE); }
inline void nc(SuperMatrix* A,int n,int m,int nnz,void* v,int* ri,int* cp,Stype_t s,Dtype_t d,Mtype_t t){ A->Stype=s; A->Dtype=d; A->Mtype=t; A->nrow=n; A->ncol=m; auto* S=new NCformat(); S->nnz=nnz; S->nzval=v; S->rowind=ri; S->colptr=cp; A->Store=S; acquire(S,STORE); }
}
extern "C" {
void superlu_free(void* p){ if(p) mock::release(p,mock::STORE,"superlu: storage released once"); }
void set_default_options(superlu_options_t* o){ std::memset((void*)o,0,sizeof *o); o->Fact=DOFACT; o->Equil=YES; o->ColPerm=COLAMD; o->Trans=NOTRANS; o->IterRefine=NOREFINE; o->PrintStat=YES; o->PivotGrowth=NO; o->ConditionNumber=NO; }
void StatInit(SuperLUStat_t* s){ std::memset((void*)s,0,sizeof *s); s->panel_histo=new int(0); mock::acquire(s->panel_histo,mock::STAT); } void StatFree(SuperLUStat_t* s){ mock::release(s->panel_histo,mock::STAT,"superlu: statistics released once"); delete s->panel_histo; } void StatPrint(SuperLUStat_t*){}
void Destroy_SuperNode_Matrix(SuperMatrix* L){ mock::release(L->Store,mock::LUF,"superlu: L released once"); delete (int*)L->Store; } void Destroy_CompCol_Matrix(SuperMatrix* U){ mock::release(U->Store,mock::LUF+1,"superlu: U released once"); delete (int*)U->Store; }
void dCreate_Dense_Matrix(SuperMatrix* X,int n,int m,double* x,int ld,Stype_t s,Dtype_t d,Mtype_t t){ mock::dn(X,n,m,x,ld,s,d,t); } void zCreate_Dense_Matrix(SuperMatrix* X,int n,int m,doublecomplex* x,int ld,Stype_t s,Dtype_t d,Mtype_t t){ mock::dn(X,n,m,x,ld,s,d,t); }
void dCreate_CompCol_Matrix(SuperMatrix* A,int n,int m,int nnz,double* v,int* ri,int* cp,Stype_t s,Dtype_t d,Mtype_t t){ mock::nc(A,n,m,nnz,v,ri,cp,s,d,t); } void zCreate_CompCol_Matrix(SuperMatrix* A,int n,int m,int nnz,doublecomplex* v,int* ri,int* cp,Stype_t s,Dtype_t d,Mtype_t t){ mock::nc(A,n,m,nnz,v,ri,cp,s,d,t); }
void dgssvx(superlu_options_t* o,SuperMatrix* A,int* pc,int* pr,int* et,char* e,double* R,double* C,SuperMatrix* L,SuperMatrix* U,void* w,int lw,SuperMatrix* B,SuperMatrix* X,double* rpg,double* rc,double* fe,double* be,GlobalLU_t*,mem_usage_t*,SuperLUStat_t* st,int* info){ mock::gssvx<double>(o,A,pc,pr,et,e,R,C,L,U,w,lw,B,X,rpg,rc,fe,be,st,info); }
void zgssvx(superlu_options_t* o,SuperMatrix* A,int* pc,int* pr,int* et,char* e,double* R,double* C,SuperMatrix* L,SuperMatrix* U,void* w,int lw,SuperMatrix* B,SuperMatrix* X,double* rpg,double* rc,double* fe,double* be,GlobalLU_t*,mem_usage_t*,SuperLUStat_t* st,int* info){ mock::gssvx<mock::Z>(o,A,pc,pr,et,e,R,C,L,U,w,lw,B,X,rpg,rc,fe,be,st,info); }
int dQuerySpace(SuperMatrix*,SuperMatrix*,mem_usage_t*){ return 0; } int zQuerySpace(SuperMatrix*,SuperMatrix*,mem_usage_t*){ return 0; } void dPrint_CompCol_Matrix(char*,SuperMatrix*){} void zPrint_CompCol_Matrix(char*,SuperMatrix*){}
}
#endif
namespace mock { inline void resetAll(){ reset();
#ifdef MOCK_UMFPACK
 ureset();
#endif
#ifdef MOCK_LDL
 ldlreset();
#endif
#ifdef MOCK_CHOLMOD
 creset();
#endif
#ifdef MOCK_SPQR
 qreset();
#endif
#ifdef MOCK_SUPERLU
 slureset();
#endif
} 
inline void allReleased(const char* l){ sym_assert_b(objects().empty(),l); } }
