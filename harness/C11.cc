// C11: sparse matrix products equal linear algebra
// BOUNDS: every pair of patterns of shapes up to 2x3*3x2 and 3x2*2x3 (thorough: 3x3*3x2) with scalar 1x1 blocks, every pair of 2x2 patterns with blocks 1x2*2x3, all values; factors built in every construction mode, result fresh or re-used; every combination of sizes 0..2 incl. empty ones, incompatible sizes
#include "flat.h"
#include <dune/istl/matrixmatrix.hh>
using namespace Dune; using namespace H;
template<class B> using BM=BCRSMatrix<B>;
// shape of C=op(A)*op(B) from dense images, and the structural pattern
template<class C,class A,class B> static void check(const C& c,const A& a,const B& b,int kind){
  auto da=dense(a),db=dense(b); auto L=kind==1?tr(da):da, R=kind==2?tr(db):db; eqm(dense(c),mm(L,R),"product");
  std::size_t n=kind==1?a.M():a.N(),m=kind==2?b.N():b.M(),k=kind==1?a.N():a.M(); SYM_EQ(c.N(),n,"rows"); SYM_EQ(c.M(),m,"columns"); long nz=0;
  for(std::size_t i=0;i<n;i++) for(std::size_t j=0;j<m;j++){ bool in=false; for(std::size_t l=0;l<k;l++) if((kind==1?a.exists(l,i):a.exists(i,l))&&(kind==2?b.exists(j,l):b.exists(l,j))) in=true; SYM_EQ(c.exists(i,j),in,"pattern of the product"); nz+=in; } SYM_EQ((long)c.nonzeroes(),nz,"entries of the product");
}
template<class C,class A,class B> static void product(C& c,const A& a,const B& b,int kind){ if constexpr(1){ if(kind==0) matMultMat(c,a,b); } }
template<int n,int k,int m> static void scalar(int ma,int mb){ typedef FieldMatrix<double,1,1> S; auto p=pattern<n,k>(false,"a"); auto q=pattern<k,m>(false,"b"); BM<S> A,B,C; build(A,p,ma); build(B,q,mb); fillvals(A,p,"A"); fillvals(B,q,"B"); auto fa=dense(A),fb=dense(B); matMultMat(C,A,B); check(C,A,B,0); eqm(dense(A),fa,"left factor unchanged"); eqm(dense(B),fb,"right factor unchanged"); samePattern(A,p,"left pattern unchanged"); samePattern(B,q,"right pattern unchanged"); }
template<int n,int k,int m> static void scalarT(int ma,int mb){ typedef FieldMatrix<double,1,1> S; auto p=pattern<k,n>(false,"a"); auto q=pattern<k,m>(false,"b"); BM<S> A,B,C; build(A,p,ma); build(B,q,mb); fillvals(A,p,"A"); fillvals(B,q,"B"); auto fa=dense(A),fb=dense(B); transposeMatMultMat(C,A,B); check(C,A,B,1); eqm(dense(A),fa,"left factor unchanged"); eqm(dense(B),fb,"right factor unchanged"); }
template<int n,int k,int m> static void scalarR(int ma,int mb){ typedef FieldMatrix<double,1,1> S; auto p=pattern<n,k>(false,"a"); auto q=pattern<m,k>(false,"b"); BM<S> A,B,C; build(A,p,ma); build(B,q,mb); fillvals(A,p,"A"); fillvals(B,q,"B"); auto fa=dense(A),fb=dense(B); matMultTransposeMat(C,A,B); check(C,A,B,2); eqm(dense(A),fa,"left factor unchanged"); eqm(dense(B),fb,"right factor unchanged"); }
SYM_HARNESS(mult_232,SYM_REAL,"done"){ if(sym_tier()) scalar<3,3,2>(ROWWISE,RANDOM_GAPS); else scalar<2,3,2>(ROWWISE,RANDOM_GAPS); sym_reach("done"); }
SYM_HARNESS(mult_323,SYM_REAL,"done"){ scalar<3,2,3>(RANDOM,IMPLICIT); sym_reach("done"); }
SYM_HARNESS(tmult_232,SYM_REAL,"done"){ if(sym_tier()) scalarT<3,3,2>(ROWWISE,RANDOM_GAPS); else scalarT<2,3,2>(ROWWISE,RANDOM_GAPS); sym_reach("done"); }
SYM_HARNESS(tmult_323,SYM_REAL,"done"){ scalarT<3,2,3>(RANDOM,IMPLICIT); sym_reach("done"); }
SYM_HARNESS(multt_232,SYM_REAL,"done"){ if(sym_tier()) scalarR<3,3,2>(ROWWISE,RANDOM_GAPS); else scalarR<2,3,2>(ROWWISE,RANDOM_GAPS); sym_reach("done"); }
SYM_HARNESS(multt_323,SYM_REAL,"done"){ scalarR<3,2,3>(RANDOM,IMPLICIT); sym_reach("done"); }
// dense blocks of different shapes, re-used result
SYM_HARNESS(blocks,SYM_REAL,"mult,tmult,multt"){ auto p=pattern<2,2>(false,"a"); auto q=pattern<2,2>(false,"b"); long kind=sym_concrete_l(sym_int("product",0,2)); bool reuse=sym_bool("result used before");
  typedef FieldMatrix<double,1,3> R; typename MatMultMatResult<BM<FieldMatrix<double,1,2>>,BM<FieldMatrix<double,2,3>>>::type C; static_assert(std::is_same_v<decltype(C),BM<R>>); if(reuse){ build(C,full<3,1>(),RANDOM); C=7.0; }
  auto run=[&](auto a,auto b,auto f){ BM<decltype(a)> A; BM<decltype(b)> B; build(A,p); build(B,q); fillvals(A,p,"A"); fillvals(B,q,"B"); auto fa=dense(A),fb=dense(B); f(C,A,B); check(C,A,B,kind); eqm(dense(A),fa,"left factor unchanged"); eqm(dense(B),fb,"right factor unchanged"); };
  if(kind==0){ run(FieldMatrix<double,1,2>(),FieldMatrix<double,2,3>(),[](auto&c,auto&a,auto&b){ matMultMat(c,a,b); }); sym_reach("mult"); }
  else if(kind==1){ run(FieldMatrix<double,2,1>(),FieldMatrix<double,2,3>(),[](auto&c,auto&a,auto&b){ transposeMatMultMat(c,a,b); }); sym_reach("tmult"); }
  else { run(FieldMatrix<double,1,2>(),FieldMatrix<double,3,2>(),[](auto&c,auto&a,auto&b){ matMultTransposeMat(c,a,b); }); sym_reach("multt"); } }
// sizes: empty matrices and incompatible factors
SYM_HARNESS(sizes,SYM_REAL,"empty,refused,done"){ typedef FieldMatrix<double,1,1> S; long kind=sym_concrete_l(sym_int("product",0,2)),an=sym_concrete_l(sym_int("an",0,2)),am=sym_concrete_l(sym_int("am",0,2)),bn=sym_concrete_l(sym_int("bn",0,2)),bm=sym_concrete_l(sym_int("bm",0,2));
  auto mk=[](BM<S>& A,long n,long m,const char* nm){ A.setBuildMode(BM<S>::random); A.setSize(n,m); for(long i=0;i<n;i++) A.setrowsize(i,m); A.endrowsizes(); for(long i=0;i<n;i++) for(long j=0;j<m;j++) A.addindex(i,j); A.endindices(); for(long i=0;i<n;i++) for(long j=0;j<m;j++) fill(A[i][j],nm); };
  BM<S> A,B,C; mk(A,an,am,"A"); mk(B,bn,bm,"B"); bool fits=kind==0?am==bn:kind==1?an==bn:am==bm; bool thrown=false;
  try{ if(kind==0) matMultMat(C,A,B); else if(kind==1) transposeMatMultMat(C,A,B); else matMultTransposeMat(C,A,B); }catch(const ISTLError&){ thrown=true; }
  SYM_EQ(thrown,!fits,"exactly incompatible sizes are refused"); if(!fits){ sym_reach("refused"); return; } check(C,A,B,(int)kind); if(C.N()==0) sym_reach("empty"); sym_reach("done"); }
