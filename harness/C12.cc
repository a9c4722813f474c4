// C12: flat traversal and dimensions agree with the flattened object
// BOUNDS: vectors nested up to three levels with every block size 0..2 per block (BlockVector, VariableBlockVector, FieldVector, MultiTypeBlockVector) and every start offset 0..3; matrices with every 2x3 / 3x2 (thorough: 3x3) pattern of scalar, FieldMatrix<1,2>, FieldMatrix<2,1>, DiagonalMatrix<2>, ScaledIdentityMatrix<2> and nested sparse blocks, dense Matrix, MultiTypeBlockMatrix, all symbolic values, in every construction mode
// ASSUME: dense blocks of dynamic size are non-empty (documented precondition of flatMatrixForEach)
#include "flat.h"
#include <dune/istl/foreach.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/common/diagonalmatrix.hh>
using namespace Dune; using namespace H;
// visits every entry of v exactly once, in order, by reference
template<class V> static void vec(V& v,const std::vector<double*>& e){ long o=sym_concrete_l(sym_int("offset",0,3)); std::size_t k=0; const V& c=v;
  std::size_t n=flatVectorForEach(c,[&](auto&& x,std::size_t i){ SYM_ASSERT(k<e.size(),"entries are visited once"); SYM_ASSERT(&x==e[k],"entry of the vector"); SYM_EQ(i,o+k,"flat index"); k++; },o); SYM_EQ(n,e.size(),"flat dimension"); SYM_EQ(k,e.size(),"every entry is visited");
  std::vector<double> old; for(double* p:e) old.push_back(*p); flatVectorForEach(v,[](auto&& x,std::size_t i){ x=x*2.0+double(i); }); for(k=0;k<e.size();k++) SYM_EQ(*e[k],old[k]*2.0+double(k),"entries can be written"); }
SYM_HARNESS(vectors,SYM_REAL,"static,nested,variable,multi"){ long kind=sym_concrete_l(sym_int("kind",0,4)); std::vector<double*> e;
  if(kind==0){ FieldVector<double,3> v; fillv(v,"v"); for(auto&x:v) e.push_back(&x); vec(v,e); sym_reach("static"); }
  else if(kind==1){ BlockVector<FieldVector<double,2>> v(sym_concrete_l(sym_int("n",0,2))); fillv(v,"v"); for(auto&b:v) for(auto&x:b) e.push_back(&x); vec(v,e); SYM_EQ(v.dim(),e.size(),"dim"); }
  else if(kind==2){ BlockVector<BlockVector<double>> v(sym_concrete_l(sym_int("n",0,3))); for(auto&b:v){ b.resize(sym_concrete_l(sym_int("m",0,2))); fillv(b,"v"); } for(auto&b:v) for(auto&x:b) e.push_back(&x); vec(v,e); SYM_EQ(v.dim(),e.size(),"dim"); sym_reach("nested"); }
  else if(kind==3){ VariableBlockVector<FieldVector<double,2>> v(2); int z=0; for(auto it=v.createbegin();it!=v.createend();++it,++z) it.setblocksize(sym_concrete_l(sym_int("m",0,2))); for(auto&&b:v) for(auto&f:b) { fillv(f,"v"); for(auto&x:f) e.push_back(&x); } vec(v,e); sym_reach("variable"); }
  else { MultiTypeBlockVector<FieldVector<double,2>,BlockVector<FieldVector<double,1>>,BlockVector<BlockVector<double>>> v; using namespace Indices; v[_1].resize(sym_concrete_l(sym_int("n",0,2))); v[_2].resize(2); v[_2][0].resize(sym_concrete_l(sym_int("m",0,2))); v[_2][1].resize(1); fillv(v[_0],"v"); fillv(v[_1],"v"); fillv(v[_2],"v"); for(auto&x:v[_0]) e.push_back(&x); for(auto&b:v[_1]) for(auto&x:b) e.push_back(&x); for(auto&b:v[_2]) for(auto&x:b) e.push_back(&x); vec(v,e); SYM_EQ(v.dim(),e.size(),"dim"); sym_reach("multi"); } }
// expected entries of a matrix: flat position -> address
struct Pos { long i,j; const double* p; };
template<class M> static void mat(const M& A,const std::vector<Pos>& e,long n,long m){ long ro=sym_concrete_l(sym_int("row offset",0,2)),co=sym_concrete_l(sym_int("col offset",0,2)); std::vector<char> seen(e.size(),0); long cnt=0;
  auto d=flatMatrixForEach(A,[&](auto&& x,std::size_t i,std::size_t j){ cnt++; long hit=-1; for(std::size_t k=0;k<e.size();k++) if(e[k].i+ro==(long)i&&e[k].j+co==(long)j) hit=k; SYM_ASSERT(hit>=0,"visited position belongs to the matrix"); if(hit<0) return; SYM_ASSERT(!seen[hit],"no position is visited twice"); seen[hit]=1; if(e[hit].p){ sym_assert_eq_d(x,*e[hit].p,"value at this position"); } },ro,co);
  SYM_EQ(cnt,(long)e.size(),"every entry is visited"); SYM_EQ((long)d.first,n,"flat rows"); SYM_EQ((long)d.second,m,"flat columns"); }
template<class B> struct EntryPos; 
template<> struct EntryPos<double>{ static constexpr int n=1,m=1; static void add(std::vector<Pos>& e,long r,long c,const double& b){ e.push_back({r,c,&b}); } };
template<int a,int b> struct EntryPos<FieldMatrix<double,a,b>>{ static constexpr int n=a,m=b; static void add(std::vector<Pos>& e,long r,long c,const FieldMatrix<double,a,b>& B){ for(int i=0;i<a;i++) for(int j=0;j<b;j++) e.push_back({r+i,c+j,&B[i][j]}); } };
template<int a> struct EntryPos<DiagonalMatrix<double,a>>{ static constexpr int n=a,m=a; static void add(std::vector<Pos>& e,long r,long c,const DiagonalMatrix<double,a>& B){ for(int i=0;i<a;i++) e.push_back({r+i,c+i,&B.diagonal(i)}); } };
template<int a> struct EntryPos<ScaledIdentityMatrix<double,a>>{ static constexpr int n=a,m=a; static void add(std::vector<Pos>& e,long r,long c,const ScaledIdentityMatrix<double,a>& B){ for(int i=0;i<a;i++) e.push_back({r+i,c+i,&B.scalar()}); } };
static void put(double& x){ x=sym_real("a"); } template<int a,int b> static void put(FieldMatrix<double,a,b>& x){ fill(x,"a"); } template<int a> static void put(DiagonalMatrix<double,a>& x){ for(int i=0;i<a;i++) x.diagonal(i)=sym_real("a"); } template<int a> static void put(ScaledIdentityMatrix<double,a>& x){ x.scalar()=sym_real("a"); }
template<class B,int n,int m> static void sparse(bool dims,int modes=NMODES){ auto w=pattern<n,m>(); int mode=sym_concrete_l(sym_int("mode",0,modes-1)); BCRSMatrix<B> A0; build(A0,w,mode); bool cp=sym_bool("copied"); BCRSMatrix<B> A; A=A0; BCRSMatrix<B>& M=cp?A:A0; std::vector<Pos> e; long nz=0;
  for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]){ put(M[i][j]); EntryPos<B>::add(e,i*EntryPos<B>::n,j*EntryPos<B>::m,M[i][j]); nz++; }
  mat(M,e,n*EntryPos<B>::n,m*EntryPos<B>::m); SYM_EQ((long)countNonZeros(M),(long)e.size(),"scalar entries");
  if(dims){ typedef MatrixDimension<BCRSMatrix<B>> D; SYM_EQ((long)D::rowdim(M),(long)n*EntryPos<B>::n,"rowdim"); SYM_EQ((long)D::coldim(M),(long)m*EntryPos<B>::m,"coldim"); for(int i=0;i<n;i++) SYM_EQ((long)D::rowdim(M,i),(long)EntryPos<B>::n,"rowdim of a block row"); for(int j=0;j<m;j++) SYM_EQ((long)D::coldim(M,j),(long)EntryPos<B>::m,"coldim of a block column"); } }
SYM_HARNESS(scalars,SYM_REAL,"done"){ if(sym_tier()) sparse<double,3,3>(true); else sparse<double,2,3>(true); sym_reach("done"); }
SYM_HARNESS(dense12,SYM_REAL,"done"){ sparse<FieldMatrix<double,1,2>,3,2>(true); sym_reach("done"); }
SYM_HARNESS(dense21,SYM_REAL,"done"){ if(sym_tier()) sparse<FieldMatrix<double,2,1>,3,3>(true); else sparse<FieldMatrix<double,2,1>,2,2>(true); sym_reach("done"); }
SYM_HARNESS(diagonal,SYM_REAL,"done"){ auto w=0; (void)w; sparse<DiagonalMatrix<double,2>,2,2>(false,1); sym_reach("done"); }
SYM_HARNESS(scaled,SYM_REAL,"done"){ sparse<ScaledIdentityMatrix<double,2>,2,2>(false,1); sym_reach("done"); }
// dimensions of sparse matrices with dynamic blocks: only block rows / columns with an entry count
SYM_HARNESS(dynamic,SYM_REAL,"done"){ const int n=2,m=3; auto w=pattern<n,m>(); int mode=sym_concrete_l(sym_int("mode",0,NMODES-1)); long r[n],c[m]; for(long&x:r) x=sym_concrete_l(sym_int("block rows",1,2)); for(long&x:c) x=sym_concrete_l(sym_int("block columns",1,sym_tier()?3:2)); typedef BCRSMatrix<Matrix<double>> M; M A0; build(A0,w,mode==IMPLICIT?RANDOM:mode); bool cp=sym_bool("copied"); M A; A=A0; M& B=cp?A:A0;
  long rd=0,cd=0,nz=0; for(int i=0;i<n;i++){ bool any=false; for(int j=0;j<m;j++) if(w[i][j]){ B[i][j].setSize(r[i],c[j]); B[i][j]=1.0; any=true; nz+=r[i]*c[j]; } if(any) rd+=r[i]; } for(int j=0;j<m;j++){ bool any=false; for(int i=0;i<n;i++) any=any||w[i][j]; if(any) cd+=c[j]; }
  typedef MatrixDimension<M> D; SYM_EQ((long)D::rowdim(B),rd,"rowdim"); SYM_EQ((long)D::coldim(B),cd,"coldim"); SYM_EQ((long)countNonZeros(B),nz,"scalar entries"); for(int i=0;i<n;i++){ bool any=false; for(int j=0;j<m;j++) any=any||w[i][j]; SYM_EQ((long)D::rowdim(B,i),any?r[i]:0,"rowdim of a block row"); } for(int j=0;j<m;j++){ bool any=false; for(int i=0;i<n;i++) any=any||w[i][j]; SYM_EQ((long)D::coldim(B,j),any?c[j]:0,"coldim of a block column"); } sym_reach("done"); }
// nested sparse matrix: uniform blocks, at least one entry
SYM_HARNESS(nested,SYM_REAL,"done"){ auto w=pattern<2,2>(); auto v=pattern<1,2>(false,"v"); bool any=false; for(int i=0;i<2;i++) for(int j=0;j<2;j++) any=any||w[i][j]; sym_assume(any); typedef BCRSMatrix<FieldMatrix<double,2,1>> S; BCRSMatrix<S> A; build(A,w,RANDOM); std::vector<Pos> e; for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ build(A[i][j],v,ROWWISE); for(int l=0;l<2;l++) if(v[0][l]){ put(A[i][j][0][l]); EntryPos<FieldMatrix<double,2,1>>::add(e,i*2,j*2+l,A[i][j][0][l]); } } mat(A,e,4,4); SYM_EQ((long)countNonZeros(A),(long)e.size(),"scalar entries"); sym_reach("done"); }
// dense and heterogeneous matrices
SYM_HARNESS(densematrix,SYM_REAL,"done"){ long n=sym_concrete_l(sym_int("n",1,2)),m=sym_concrete_l(sym_int("m",1,3)); typedef FieldMatrix<double,1,2> B; Matrix<B> A(n,m); std::vector<Pos> e; for(int i=0;i<n;i++) for(int j=0;j<m;j++){ put(A[i][j]); EntryPos<B>::add(e,i,j*2,A[i][j]); } mat(A,e,n,m*2); SYM_EQ((long)MatrixDimension<Matrix<B>>::rowdim(A),n,"rowdim"); SYM_EQ((long)MatrixDimension<Matrix<B>>::coldim(A),2*m,"coldim"); Matrix<double> S(n,m); typedef MatrixDimension<Matrix<double>> D; SYM_EQ((long)D::rowdim(S),n,"rowdim"); SYM_EQ((long)D::coldim(S),m,"coldim"); SYM_EQ((long)D::rowdim(S,n-1),1,"rowdim"); Matrix<Matrix<double>> N(n,m); long rr=0,cc=0; long h[2],v[3]; for(int i=0;i<n;i++) rr+=h[i]=sym_concrete_l(sym_int("h",1,2)); for(int j=0;j<m;j++) cc+=v[j]=sym_concrete_l(sym_int("v",1,2)); std::vector<Pos> ne; long o=0; for(int i=0;i<n;i++){ long p=0; for(int j=0;j<m;j++){ N[i][j].setSize(h[i],v[j]); for(int a=0;a<h[i];a++) for(int b=0;b<v[j];b++){ N[i][j][a][b]=sym_real("a"); ne.push_back({o+a,p+b,&N[i][j][a][b]}); } p+=v[j]; } o+=h[i]; } typedef MatrixDimension<Matrix<Matrix<double>>> ND; SYM_EQ((long)ND::rowdim(N),rr,"rowdim"); SYM_EQ((long)ND::coldim(N),cc,"coldim"); SYM_EQ((long)countNonZeros(N),(long)ne.size(),"scalar entries"); mat(N,ne,rr,cc); sym_reach("done"); }
SYM_HARNESS(multi,SYM_REAL,"done"){ typedef BCRSMatrix<FieldMatrix<double,1,2>> P; typedef BCRSMatrix<double> Q; using namespace Indices; MultiTypeBlockMatrix<MultiTypeBlockVector<P,Q>,MultiTypeBlockVector<BCRSMatrix<FieldMatrix<double,2,2>>,BCRSMatrix<FieldMatrix<double,2,1>>>> A; std::vector<Pos> e; auto p=pattern<2,1>(); auto q=pattern<2,2>(); auto s=pattern<1,1>(); auto t=pattern<1,2>();
  auto go=[&](auto& B,auto& w,int n,int m,int ro,int co){ typedef typename std::decay_t<decltype(B)>::block_type T; build(B,w); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]){ put(B[i][j]); EntryPos<T>::add(e,ro+i*EntryPos<T>::n,co+j*EntryPos<T>::m,B[i][j]); } }; go(A[_0][_0],p,2,1,0,0); go(A[_0][_1],q,2,2,0,2); go(A[_1][_0],s,1,1,2,0); go(A[_1][_1],t,1,2,2,2); mat(A,e,4,4); sym_reach("done"); }
