// C30: compressed-column conversion is exact
// BOUNDS: every pattern of 2x3, 3x2 and 3x3 matrices of numbers and 1x1 blocks, 2x2 matrices of 2x2 and 1x2 blocks, real and complex; row-wise, random (with unused slots) and implicit build; every subset of rows of 3x3 (numbers, 1x1 blocks) and 3x3 tridiagonal (2x2 blocks) matrices; int, long and size_t indices; all values; empty matrices; copies, assignments between matrices of any of these contents, self assignment, second conversion
#include "flat.h"
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/bccsmatrixinitializer.hh>
#include <dune/istl/matrixutils.hh>
using namespace Dune; using namespace H; using ISTL::Impl::BCCSMatrix; using ISTL::Impl::BCCSMatrixInitializer; using ISTL::Impl::MatrixRowSubset; typedef std::complex<double> Z;
// the stored column structure is the one of the dense image D with scalar pattern W
template<class C,class K> static void same(const C& c,const DM<K>& D,const std::vector<std::vector<bool>>& W,const char* l){ sym_assert_eq_l(c.N(),D.n,l); sym_assert_eq_l(c.M(),D.m,l); long k=0; if(D.m==0&&!c.getColStart()) return; sym_assert_eq_l(c.getColStart()[0],0,l); for(int j=0;j<D.m;j++){ for(int i=0;i<D.n;i++) if(W[i][j]){ sym_assert_b(k<(long)c.nonzeroes(),l); sym_assert_eq_l(c.getRowIndex()[k],i,l); sym_eq_(c.getValues()[k],D(i,j),l); k++; } sym_assert_eq_l(c.getColStart()[j+1],k,l); } sym_assert_eq_l(c.nonzeroes(),k,l); }
template<class B,int n,int m> static std::vector<std::vector<bool>> flatpat(const Pat<n,m>& w){ std::vector<std::vector<bool>> W(n*BS<B>::n,std::vector<bool>(m*BS<B>::m)); for(int i=0;i<n*BS<B>::n;i++) for(int j=0;j<m*BS<B>::m;j++) W[i][j]=w[i/BS<B>::n][j/BS<B>::m]; return W; }
template<class M,class I> static void convert(BCCSMatrix<typename M::field_type,I>& c,const M& A){ if(c.N()+c.M()+c.nonzeroes()!=0) c.free(); c.setSize(MatrixDimension<M>::rowdim(A),MatrixDimension<M>::coldim(A)); BCCSMatrixInitializer<M,I> ini(c); copyToBCCSMatrix(ini,A); }
template<class B,class I,int n,int m> static void full_(){ typedef typename BS<B>::K K; typedef BCRSMatrix<B> M; auto w=pattern<n,m>(); int mode=sym_concrete_l(sym_int("mode",0,2)); M A; build(A,w,mode==0?RANDOM_GAPS:mode==1?ROWWISE:IMPLICIT); fillvals(A,w); auto D=dense(A); auto W=flatpat<B>(w); BCCSMatrix<K,I> c; convert(c,A); same(c,D,W,"column structure"); eqm(dense(A),D,"matrix unchanged");
  BCCSMatrix<K,I> e(c); same(e,D,W,"copy"); BCCSMatrix<K,I> f; f=c; same(f,D,W,"assigned"); for(auto i=A.begin();i!=A.end();++i) for(auto j=i->begin();j!=i->end();++j) *j*=K(2); convert(c,A); same(e,D,W,"copy is independent"); same(f,D,W,"assigned is independent"); auto D2=dense(A); same(c,D2,W,"second conversion"); e=c; same(e,D2,W,"assigned again"); auto& r=e; e=r; same(e,D2,W,"self assignment"); sym_reach("done"); }
SYM_HARNESS(numbers,SYM_REAL,"done"){ full_<double,std::size_t,2,3>(); }
SYM_HARNESS(numbers32,SYM_REAL,"done"){ full_<double,int,3,2>(); }
SYM_HARNESS(scalar,SYM_REAL,"done"){ full_<FieldMatrix<double,1,1>,long,3,3>(); }
SYM_HARNESS(blocks,SYM_REAL,"done"){ full_<FieldMatrix<double,2,2>,int,2,2>(); }
SYM_HARNESS(rect,SYM_REAL,"done"){ full_<FieldMatrix<double,1,2>,int,2,2>(); }
SYM_HARNESS(rect2,SYM_REAL,"done"){ full_<FieldMatrix<double,2,1>,std::size_t,2,2>(); }
SYM_HARNESS(cplx,SYM_REAL,"done"){ full_<FieldMatrix<Z,2,2>,int,2,1>(); }
SYM_HARNESS(cnumbers,SYM_REAL,"done"){ full_<Z,int,2,2>(); }
// selected rows and columns
template<class B,class I,int n> static void subset(const Pat<n,n>& w,int mode){ typedef typename BS<B>::K K; constexpr int b=BS<B>::n; typedef BCRSMatrix<B> M; M A; build(A,w,mode); fillvals(A,w); auto D=dense(A); auto W=flatpat<B>(w); std::set<std::size_t> s; std::vector<int> ix; for(int i=0;i<n;i++) if(decided(sym_bool("selected"))){ s.insert(i); for(int p=0;p<b;p++) ix.push_back(i*b+p); } int N=ix.size(); DM<K> E(N,N); std::vector<std::vector<bool>> V(N,std::vector<bool>(N)); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ E(i,j)=D(ix[i],ix[j]); V[i][j]=W[ix[i]][ix[j]]; }
  MatrixRowSubset<M,std::set<std::size_t>> rows(A,s); { int q=0; for(auto r=rows.begin();r!=rows.end();++r,++q){ SYM_EQ((std::size_t)r.index(),(std::size_t)(ix[q*b]/b),"row index"); SYM_ASSERT(&*r==&A[ix[q*b]/b],"row"); } SYM_EQ(q*b,N,"rows"); SYM_ASSERT(&rows.matrix()==&A&&rows.rowIndexSet()==s,"subset"); }
  BCCSMatrix<K,I> c; for(int t=0;t<2;t++){ if(c.N()+c.M()+c.nonzeroes()!=0) c.free(); c.setSize(N,N); BCCSMatrixInitializer<M,I> ini(c); copyToBCCSMatrix(ini,rows); same(c,E,V,"column structure of the submatrix"); } eqm(dense(A),D,"matrix unchanged"); if(N&&N<n*b) sym_reach("proper"); if(N==0) sym_reach("empty"); }
SYM_HARNESS(sub_numbers,SYM_REAL,"proper,empty"){ subset<double,std::size_t,3>(pattern<3,3>(),ROWWISE); }
SYM_HARNESS(sub_scalar,SYM_REAL,"proper,empty"){ subset<FieldMatrix<double,1,1>,int,3>(pattern<3,3>(),RANDOM_GAPS); }
SYM_HARNESS(sub_blocks,SYM_REAL,"proper,empty"){ subset<FieldMatrix<double,2,2>,int,3>(sym_tier()?pattern<3,3>():band<3,3>(),ROWWISE); }
SYM_HARNESS(sub_complex,SYM_REAL,"proper,empty"){ subset<FieldMatrix<Z,1,1>,int,2>(pattern<2,2>(),ROWWISE); }
// counting the entries of selected columns
SYM_HARNESS(rownnz,SYM_REAL,"done"){ typedef BCRSMatrix<double> M; auto w=pattern<2,4>(); M A; build(A,w); std::set<int> s; long want=0; for(int j=0;j<4;j++) if(decided(sym_bool("s"))){ s.insert(j); for(int i=0;i<2;i++) want+=w[i][j]; } BCCSMatrix<double,int> c; c.setSize(2,4); { BCCSMatrixInitializer<M,int> ini(c); for(auto i=A.begin();i!=A.end();++i) ini.addRowNnz(i,s); SYM_EQ((long)c.nonzeroes(),want,"counted entries"); } c.Nnz_=0; c.setSize(0,0); sym_reach("done"); }
// assignments between matrices with and without content
SYM_HARNESS(histories,SYM_REAL,"assigned,copied,freed"){ typedef BCRSMatrix<double> M; BCCSMatrix<double,int> c[2]; DM<double> D[2]; std::vector<std::vector<bool>> W[2]; for(int s=0;s<(sym_tier()?4:3);s++){ int k=sym_concrete_l(sym_int("which",0,1)); switch(sym_concrete_l(sym_int("op",0,3))){
   case 0: { Pat<2,2> w; int z=sym_concrete_l(sym_int("content",0,2)); w[0][1]=z>0; w[1][0]=z>1; M A; build(A,w); fillvals(A,w); convert(c[k],A); D[k]=dense(A); W[k]=flatpat<double>(w); break; }
   case 1: c[k]=c[1-k]; D[k]=D[1-k]; W[k]=W[1-k]; sym_reach("assigned"); break; case 2: { BCCSMatrix<double,int> t(c[k]); same(t,D[k],W[k],"copy"); c[k].free(); D[k]=DM<double>(); W[k].clear(); c[1-k]=t; std::swap(D[1-k],D[1-k]); D[1-k].n=t.N(); D[1-k].m=t.M(); D[1-k].a.assign(t.N()*t.M(),0.0); W[1-k].assign(t.N(),std::vector<bool>(t.M())); for(std::size_t j=0;j<t.M();j++) for(int q=t.getColStart()[j];q<t.getColStart()[j+1];q++){ W[1-k][t.getRowIndex()[q]][j]=true; D[1-k](t.getRowIndex()[q],j)=t.getValues()[q]; } sym_reach("copied"); break; }
   case 3: c[k].free(); D[k]=DM<double>(); W[k].clear(); sym_reach("freed"); break; }
   for(int q=0;q<2;q++) if(D[q].n) same(c[q],D[q],W[q],"content"); else SYM_ASSERT(c[q].N()==0&&c[q].M()==0&&c[q].nonzeroes()==0,"empty"); } }
