// C27: strength of connection
// BOUNDS: dependency marks of all 3x3 matrices with symmetric tridiagonal patterns (quick) or arbitrary ones (2x2; thorough also 3x3), numbers and 1x1 blocks, 2x2 blocks; row-sum norms for 2x2 matrices (2x2 blocks with one symbolic entry each); the symmetric, the symmetric-matrix and the unsymmetric criterion; diagonal, row-sum, constant norms; default and (2x2) symbolic thresholds; first and other levels
// ASSUME: diagonal entries positive (for the norm of the diagonal)
#include "flat.h"
#include <bitset>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/dependency.hh>
using namespace Dune; using namespace H; using namespace Dune::Amg;
typedef FieldMatrix<double,1,1> F1; typedef FieldMatrix<double,2,2> F2;
static double ab(double x){ return x<0?-x:x; }
template<class N,class B> static double nrm(const B& b){ if constexpr(std::is_same_v<N,AlwaysOneNorm>) return 1; else { double v[2][2]; constexpr int n=BS<B>::n; if constexpr(IsNumber<B>::value) v[0][0]=b; else for(int i=0;i<n;i++) for(int j=0;j<n;j++) v[i][j]=b[i][j]; if constexpr(std::is_same_v<N,FirstDiagonal>) return v[0][0]; else if constexpr(std::is_same_v<N,Diagonal<1>>) return v[n-1][n-1]; else { double r=0; for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=ab(v[i][j]); if(i==0||s>r) r=s; } return r; } } }
template<class B> static bool zero(const B& b){ if constexpr(IsNumber<B>::value) return b==0; else { bool z=true; for(int i=0;i<BS<B>::n;i++) for(int j=0;j<BS<B>::n;j++) z&=(b[i][j]==0); return z; } }
template<class M> using Props=Amg::PropertiesGraph<MatrixGraph<const M>,VertexProperties,EdgeProperties,IdentityMap,IdentityMap>;
enum Kind { SYMM, SYMMAT, UNSYM };
template<int kind,class B,class N,int n> static void marks(const Pat<n,n>& w,bool params){ typedef BCRSMatrix<B> M; typedef std::conditional_t<kind==SYMM,SymmetricDependency<M,N>,std::conditional_t<kind==SYMMAT,SymmetricMatrixDependency<M,N>,Dependency<M,N>>> Dep; M A; build(A,w); fillvals(A,w); if constexpr(std::is_same_v<B,F2>&&std::is_same_v<N,RowSum>) for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]){ A[i][j][0][1]=i==j?0.25:-1; A[i][j][1][0]=i==j?0.5:-2; A[i][j][1][1]=1; } double d[n],q[n][n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) q[i][j]=nrm<N>(A[i][j]); for(int i=0;i<n;i++){ d[i]=q[i][i]; sym_assume(d[i]>0); }
  AggregationCriterion<Dep> c; double alpha=1.0/3,beta=1e-5; if(params){ alpha=sym_real("alpha"); beta=sym_real("beta"); sym_assume(alpha>=0&&alpha<=1&&beta>=0); c.setAlpha(alpha); c.setBeta(beta); } else SYM_ASSERT(c.alpha()==alpha&&c.beta()==beta,"default thresholds");
  MatrixGraph<const M> g(A); Props<M> p(g); bool first=n==3&&!sym_tier()?true:decided(sym_bool("first")); auto D=dense(A); buildDependency(p,A,c,first); eqm(dense(A),D,"matrix unchanged");
  bool dep[n][n]={},inf[n][n]={}; constexpr bool sp=N::is_sign_preserving; for(int i=0;i<n;i++){ // documented measure of row i
    double m[n]; bool con[n]; bool any=false; double mx=0; bool border=true; for(int j=0;j<n;j++){ con[j]=false; m[j]=0; if(j==i||!w[i][j]) continue; border&=zero(A[i][j]); if(kind==SYMM){ con[j]=w[j][i]; if(con[j]){ m[j]=q[i][j]*q[j][i]/(d[i]*d[j]); if(sp) con[j]=decided(q[i][j]<0||q[j][i]<0); } } else if(kind==SYMMAT){ con[j]=true; m[j]=q[i][j]*q[i][j]/(d[i]*d[j]); if(sp) con[j]=decided(q[i][j]<0); } else { con[j]=true; m[j]=-q[i][j]; } if(con[j]){ if(!any||decided(m[j]>mx)) mx=m[j]; any=true; } }
    bool iso=!any||(kind==UNSYM?mx<beta*d[i]:mx<beta); iso=decided(iso); SYM_ASSERT(p.getVertexProperties(i).isolated()==iso,"isolated vertices"); SYM_ASSERT(p.getVertexProperties(i).excludedBorder()==(first&&border),"border vertices"); if(iso) sym_reach("isolated");
    if(!iso) for(int j=0;j<n;j++) if(j!=i&&w[i][j]){ bool s=kind==UNSYM?m[j]>=alpha*mx:con[j]&&m[j]>alpha*mx; if(kind==SYMMAT&&!con[j]) s=0>alpha*mx; s=decided(s); if(s){ sym_reach("strong"); if(kind==UNSYM){ dep[i][j]=true; if(w[j][i]) inf[j][i]=true; } else { dep[i][j]=inf[i][j]=true; if(kind==SYMM) dep[j][i]=inf[j][i]=true; } } } }
  for(auto v=p.begin();v!=p.end();++v) for(auto e=v.begin();e!=v.end();++e){ int i=*v,j=e.target(); SYM_ASSERT(e.properties().depends()==dep[i][j],"depends"); SYM_ASSERT(e.properties().influences()==inf[i][j],"influences"); } }
template<int n> static Pat<n,n> symm(){ Pat<n,n> p; for(int i=0;i<n;i++){ p[i][i]=true; for(int j=0;j<i;j++) p[i][j]=p[j][i]=(sym_tier()||i-j<2)&&decided(sym_bool("w")); } return p; }
SYM_HARNESS(symmetric_diag,SYM_REAL,"isolated,strong"){ marks<SYMM,F1,FirstDiagonal,3>(sym_tier()?pattern<3,3>(true):symm<3>(),false); }
SYM_HARNESS(symmetric_number,SYM_REAL,"isolated,strong"){ marks<SYMM,double,FirstDiagonal,2>(pattern<2,2>(true),true); }
SYM_HARNESS(symmetric_rowsum,SYM_REAL,"isolated,strong"){ marks<SYMM,F1,RowSum,2>(pattern<2,2>(true),false); }
SYM_HARNESS(symmetric_rowsum2,SYM_REAL,"isolated,strong"){ marks<SYMM,F2,RowSum,2>(pattern<2,2>(true),false); }
SYM_HARNESS(symmetric_second,SYM_REAL,"isolated,strong"){ marks<SYMM,F2,Diagonal<1>,2>(pattern<2,2>(true),true); }
SYM_HARNESS(symmetric_one,SYM_REAL,"strong"){ marks<SYMM,F1,AlwaysOneNorm,3>(pattern<3,3>(true),false); }
SYM_HARNESS(matrix_diag,SYM_REAL,"isolated,strong"){ marks<SYMMAT,F1,FirstDiagonal,3>(sym_tier()?pattern<3,3>(true):symm<3>(),false); }
SYM_HARNESS(matrix_number,SYM_REAL,"isolated,strong"){ marks<SYMMAT,double,FirstDiagonal,2>(pattern<2,2>(true),true); }
SYM_HARNESS(matrix_rowsum,SYM_REAL,"isolated,strong"){ marks<SYMMAT,F1,RowSum,2>(pattern<2,2>(true),false); }
SYM_HARNESS(unsym_diag,SYM_REAL,"isolated,strong"){ marks<UNSYM,F1,FirstDiagonal,3>(sym_tier()?pattern<3,3>(true):symm<3>(),false); }
SYM_HARNESS(unsym_number,SYM_REAL,"isolated,strong"){ marks<UNSYM,double,FirstDiagonal,2>(pattern<2,2>(true),true); }
SYM_HARNESS(unsym_second,SYM_REAL,"isolated,strong"){ marks<UNSYM,F2,Diagonal<1>,2>(pattern<2,2>(true),true); }
