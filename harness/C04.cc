// C04: implicit construction keeps every value, compresses to the accessed pattern and reports exhaustion
// BOUNDS: 2x3 matrices, up to 4 accesses (thorough: 5) with symbolic positions, modes (assign/accumulate) and values, average row size 0..3, overflow fraction 0, 0.5 or 2; 1x4 with up to 6 accesses and a too small buffer; refusal only allowed where the documented per-row memory condition is violated
#include "mat.h"
using namespace Dune; using namespace H;
typedef BCRSMatrix<double> M;
// M_i = avg + A + sum_{j<i}(avg-nnz_j), A = avg*n*fraction
template<int n,int m> static bool documentedFit(const Pat<n,m>& p,long avg,double frac){ long A=(long)(avg*n*frac),sum=0; for(int i=0;i<n;i++){ long c=0; for(int j=0;j<m;j++) c+=p[i][j]; if(c>avg+A+i*avg-sum) return false; sum+=c; } return true; }
template<int n,int m> static void run(int K,long avgmax){
  long avg=sym_concrete_l(sym_int("avg",0,avgmax)); long f=sym_concrete_l(sym_int("frac",0,2)); double frac=f==0?0.0:f==1?0.5:2.0;
  bool ctor=sym_bool("ctor"); std::unique_ptr<M> P; if(ctor) P.reset(new M(n,m,(std::size_t)avg,frac,M::implicit)); else { P.reset(new M); P->setBuildMode(M::implicit); P->setImplicitBuildModeParameters(avg,frac); P->setSize(n,m); }
  M& A=*P; bool w[n][m]={}; double v[n][m];
  for(int k=0;k<K;k++){
    long i=sym_int("i",0,n-1),j=sym_int("j",0,m-1); double x=sym_real("x"); bool add=sym_bool("add");
    bool old=false; for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(a==i&&b==j) old=w[a][b];
    double& e=A.entry(i,j); if(!old||!add) e=x; else e+=x;
    for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(a==i&&b==j){ v[a][b]=(w[a][b]&&add)?v[a][b]+x:x; w[a][b]=true; }
    // everything written so far can still be read
    for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(w[a][b]) SYM_EQ(A.entry(a,b),v[a][b],"entry readable before compression");
  }
  long tot=0,mx=0,over=0; Pat<n,m> p; for(int a=0;a<n;a++){ long c=0; for(int b=0;b<m;b++){ p[a][b]=w[a][b]; c+=w[a][b]; } tot+=c; if(c>mx) mx=c; if(c>avg) over+=c-avg; }
  typename M::CompressionStatistics st;
  try { st=A.compress(); }
  catch(const ImplicitModeCompressionBufferExhausted&){ SYM_ASSERT(over>0,"refused although every row fits the average"); SYM_ASSERT(!(documentedFit<n,m>(p,avg,frac)),"refused although the documented memory condition holds"); sym_reach("exhausted"); return; }
  sym_reach("compressed"); if(over>0) sym_reach("overflow used");
  SYM_ASSERT(A.buildStage()==M::built,"stage");
  samePattern(A,p,"compressed pattern is the set of accessed positions");
  for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(w[a][b]) SYM_EQ(A[a][b],v[a][b],"compressed value");
  SYM_EQ((long)st.overflow_total,over,"reported overflow"); SYM_EQ((long)st.maximum,mx,"reported maximal row size"); SYM_ASSERT(st.avg*n==tot,"reported average");
  if(avg>0) SYM_ASSERT(st.mem_ratio>0==(tot>0)&&st.mem_ratio<=1,"reported memory ratio");
  bool thrown=false; try{ A.compress(); } catch(const BCRSMatrixError&){ thrown=true; } SYM_ASSERT(thrown,"second compress refused");
  A*=2.0; for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(w[a][b]) SYM_EQ(A[a][b],2*v[a][b],"scaled value");
  M B(A); for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(w[a][b]) SYM_EQ(B[a][b],2*v[a][b],"copied value");
}
SYM_HARNESS(accesses,SYM_REAL,"compressed,overflow used"){ run<2,2>(sym_tier()?4:3,2); }
SYM_HARNESS(wide,SYM_REAL,"compressed,overflow used"){ run<2,3>(sym_tier()?4:2,2); }
// every pattern in a fixed but interleaved order with a small buffer: exhaustion must be reported
SYM_HARNESS(exhaust,SYM_REAL,"compressed,exhausted,overflow used"){
  const int n=2,m=6; long avg=1; M A(n,m,(std::size_t)avg,0.0,M::implicit); Pat<n,m> p; long over=0; double val[n][m];
  for(int j=m-1;j>=0;j--) for(int i=0;i<n;i++){ p[i][j]=sym_bool("w"); if(p[i][j]){ val[i][j]=sym_real("v"); A.entry(i,j)=val[i][j]; } }
  for(int i=0;i<n;i++){ long c=0; for(int j=0;j<m;j++) c+=p[i][j]; if(c>avg) over+=c-avg; }
  try{ auto st=A.compress(); SYM_EQ((long)st.overflow_total,over,"overflow"); } catch(const ImplicitModeCompressionBufferExhausted&){ SYM_ASSERT(!(documentedFit<n,m>(p,avg,0.0)),"refused although the documented memory condition holds"); sym_reach("exhausted"); return; }
  sym_reach("compressed"); if(over>0) sym_reach("overflow used");
  samePattern(A,p,"compressed pattern"); for(int a=0;a<n;a++) for(int b=0;b<m;b++) if(p[a][b]) SYM_EQ(A[a][b],val[a][b],"compressed value");
}
// the builder front end and block entries
SYM_HARNESS(builder,SYM_REAL,"done,refused"){
  typedef BCRSMatrix<FieldMatrix<double,1,2>> MB; MB A; ImplicitMatrixBuilder<MB> b(A,2,2,2,0.5); SYM_EQ(b.N(),2,"N"); SYM_EQ(b.M(),2,"M"); Pat<2,2> p; FieldMatrix<double,1,2> v[2][2];
  bool again=false; try{ ImplicitMatrixBuilder<MB> c(A,2,2,2,0.5); }catch(const BCRSMatrixError&){ again=true; } SYM_ASSERT(again,"builder refuses an allocated matrix");
  for(int i=0;i<2;i++) for(int j=1;j>=0;j--){ p[i][j]=sym_bool("w"); if(p[i][j]){ fill(v[i][j],"v"); b[i][j]=v[i][j]; } }
  A.compress(); samePattern(A,p,"builder pattern"); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(p[i][j]) HEQ(A[i][j],v[i][j],"builder value"); sym_reach("done");
  again=false; try{ ImplicitMatrixBuilder<MB> c(A); }catch(const BCRSMatrixError&){ again=true; sym_reach("refused"); } SYM_ASSERT(again,"builder refuses a built matrix");
}
