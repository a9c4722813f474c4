// C01: the sparsity pattern of a built BCRSMatrix is exactly what was declared
// BOUNDS: random mode: 2x3, <=5 addindex calls with arbitrary (row,col), arbitrary reserved row sizes 0..3 (thorough: 6 calls, 3x3); row-wise: 3x3 arbitrary patterns, unknown and over-estimated nnz; implicit: see C04; re-use of a built matrix with a second pattern
#include "h.h"
#include <dune/istl/bcrsmatrix.hh>
using namespace Dune;
typedef BCRSMatrix<double> M;

// everything an application can observe about the pattern
template<class Mat,class W> static void checkPattern(Mat& A,int n,int m,const W& want){
  const Mat& C=A; long total=0;
  SYM_EQ(A.N(),(std::size_t)n,"N"); SYM_EQ(A.M(),(std::size_t)m,"M");
  for(int i=0;i<n;i++){
    long cnt=0;
    for(int j=0;j<m;j++){ SYM_ASSERT(C.exists(i,j)==want[i][j],"exists"); cnt+=want[i][j]; }
    SYM_EQ(A.getrowsize(i),(std::size_t)cnt,"row size"); SYM_EQ(A[i].size(),(std::size_t)cnt,"row size()");
    total+=cnt;
    // forward: strictly increasing, exactly the wanted columns
    long last=-1,seen=0;
    for(auto j=C[i].begin();j!=C[i].end();++j){ long c=(long)j.index(); SYM_ASSERT(c>last,"columns sorted"); SYM_ASSERT(c>=0&&c<m,"column in range"); bool w=false; for(int k=0;k<m;k++) if(k==c) w=want[i][k]; SYM_ASSERT(w,"iterated column was declared"); SYM_EQ((long)j.offset(),seen,"offset"); last=c; seen++; }
    SYM_EQ(seen,cnt,"iteration count");
    // backward
    long b=0; last=m; for(auto j=A[i].beforeEnd();j!=A[i].beforeBegin();--j){ long c=(long)j.index(); SYM_ASSERT(c<last,"backward sorted"); last=c; b++; } SYM_EQ(b,cnt,"backward count");
    for(int j=0;j<m;j++){ auto f=C[i].find(j); if(want[i][j]){ SYM_ASSERT(f!=C[i].end(),"find present"); if(f!=C[i].end()) SYM_EQ(f.index(),(std::size_t)j,"find index"); } else SYM_ASSERT(!(f!=C[i].end()),"find absent"); }
  }
  SYM_EQ(A.nonzeroes(),(std::size_t)total,"nonzeroes");
  // rows
  long k=0; for(auto i=C.begin();i!=C.end();++i){ SYM_EQ((long)i.index(),k,"row index"); k++; } SYM_EQ(k,(long)n,"row count");
  for(auto i=A.beforeEnd();i!=A.beforeBegin();--i){ k--; SYM_EQ((long)i.index(),k,"row index backward"); } SYM_EQ(k,0L,"row count backward");
  // one storage location per entry: write distinct numbers, read them back
  for(int i=0;i<n;i++) for(auto j=A[i].begin();j!=A[i].end();++j) *j=10*i+(long)j.index()+1;
  for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(want[i][j]) SYM_ASSERT(C[i][j]==10*i+j+1,"entry has storage of its own");
  A=7.0; for(int i=0;i<n;i++) for(auto j=A[i].begin();j!=A[i].end();++j) SYM_ASSERT(*j==7.0,"assign scalar reaches every entry");
}

template<int n,int m,int K> static void randomBuild(){
  M A(n,m,M::random); long rs[n]; bool want[n][m]={};
  for(int i=0;i<n;i++){ rs[i]=sym_concrete_l(sym_int("rowsize",0,m)); A.setrowsize(i,rs[i]); }
  A.endrowsizes();
  for(int k=0;k<K;k++){
    long i=sym_int("i",0,n-1),j=sym_int("j",0,m-1); 
    bool isnew=true; long used=0,cap=0; for(int a=0;a<n;a++) if(a==i){ cap=rs[a]; for(int b=0;b<m;b++){ used+=want[a][b]; if(b==j&&want[a][b]) isnew=false; } }
    try { A.addindex(i,j); SYM_ASSERT(!isnew||used<cap,"addindex beyond the reserved row size is refused"); }
    catch(const BCRSMatrixError&){ SYM_ASSERT(isnew&&used>=cap,"addindex refused only when the row is full"); sym_reach("refused"); return; }
    for(int a=0;a<n;a++) for(int b=0;b<m;b++) want[a][b]|=(a==i&&b==j);
  }
  A.endindices(); sym_reach("built");
  checkPattern(A,n,m,want);
}
SYM_HARNESS(random_addindex,SYM_REAL,"refused,built"){ if(sym_tier()) randomBuild<2,3,6>(); else randomBuild<2,3,3>(); }
SYM_HARNESS(random_addindex_onerow,SYM_REAL,"refused,built"){ if(sym_tier()) randomBuild<1,5,6>(); else randomBuild<1,4,4>(); }

SYM_HARNESS(random_incrementrowsize,SYM_REAL,"built"){
  const int n=3; M A(n,n,M::random); bool want[n][n];
  for(int i=0;i<n;i++) for(int j=0;j<n;j++){ want[i][j]=sym_bool("w"); if(want[i][j]) A.incrementrowsize(i); }
  A.endrowsizes();
  for(int i=n-1;i>=0;i--) for(int j=n-1;j>=0;j--) if(want[i][j]) A.addindex(i,j);
  A.endindices(); sym_reach("built"); checkPattern(A,n,n,want);
}
SYM_HARNESS(random_setIndices,SYM_REAL,"unsorted,nosort,mismatch"){
  const int m=5; M A(2,m,M::random); long c[3]; for(int k=0;k<3;k++) c[k]=sym_int("c",0,m-1);
  sym_assume(c[0]!=c[1]&&c[0]!=c[2]&&c[1]!=c[2]);
  A.setrowsize(0,1); A.setrowsize(1,3); A.endrowsizes();
  std::vector<std::size_t> v{(std::size_t)c[0],(std::size_t)c[1],(std::size_t)c[2]}; bool want[2][m]={}; want[0][4]=true; for(int k=0;k<m;k++) want[1][k]=(c[0]==k)||(c[1]==k)||(c[2]==k);
  std::vector<std::size_t> w{4}; A.setIndicesNoSort(0,w.begin(),w.end());
  if(sym_bool("short")){ bool thrown=false; try{ A.setIndices(1,v.begin(),v.begin()+2);}catch(const BCRSMatrixError&){thrown=true;} SYM_ASSERT(thrown,"setIndices with the wrong number of indices is refused"); thrown=false; try{ A.setIndicesNoSort(1,v.begin(),v.begin()+1);}catch(const BCRSMatrixError&){thrown=true;} SYM_ASSERT(thrown,"setIndicesNoSort with the wrong number of indices is refused"); sym_reach("mismatch"); return; }
  if(c[0]<c[1]&&c[1]<c[2]){ A.setIndicesNoSort(1,v.begin(),v.end()); sym_reach("nosort"); } else { A.setIndices(1,v.begin(),v.end()); sym_reach("unsorted"); }
  A.endindices(); checkPattern(A,2,m,want);
}
SYM_HARNESS(rowwise,SYM_REAL,"unknown,exact,over,toosmall"){
  const int n=3; bool want[n][n]; long total=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) want[i][j]=(i+j==4)?true:sym_bool("w");
  long mode=sym_concrete_l(sym_int("mode",0,2)); for(auto&r:want) for(bool b:r) if(b) total++;
  std::unique_ptr<M> A; if(mode==0) A.reset(new M(n,n,M::row_wise)); else { long nn=mode==1?total:total+2; if(mode==2&&sym_bool("small")) nn=total-1; if(nn<=0) return; A.reset(new M(n,n,nn,M::row_wise)); if(nn<total){ bool thrown=false; try{ int i=0; for(auto it=A->createbegin();it!=A->createend();++it,++i) for(int j=0;j<n;j++) if(want[i][j]) it.insert(j);}catch(const BCRSMatrixError&){thrown=true;} SYM_ASSERT(thrown,"too small nnz is refused"); sym_reach("toosmall"); return; } }
  int i=0; for(auto it=A->createbegin();it!=A->createend();++it,++i){ SYM_EQ(it.index(),(std::size_t)i,"create index"); std::size_t c=0; for(int j=n-1;j>=0;j--) if(want[i][j]){ SYM_ASSERT(!it.contains(j),"contains before"); it.insert(j); it.insert(j); c++; SYM_ASSERT(it.contains(j),"contains after"); } SYM_EQ(it.size(),c,"create size"); }
  if(mode==0) sym_reach("unknown"); else if(mode==1) sym_reach("exact"); else sym_reach("over");
  checkPattern(*A,n,n,want);
}
// a matrix object that is resized and rebuilt forgets its previous pattern
SYM_HARNESS(rebuild,SYM_REAL,"rr,rw,ir"){
  const int n=2,m=3; M A; long k=sym_concrete_l(sym_int("kind",0,2));
  if(k==0){ A.setBuildMode(M::random); A.setSize(m,n); for(int i=0;i<m;i++) A.setrowsize(i,1+(i==0)); A.endrowsizes(); A.addindex(0,0); A.addindex(0,1); A.addindex(1,0); A.addindex(2,1); A.endindices(); }
  else if(k==1){ A.setBuildMode(M::row_wise); if(sym_bool("nnz1")) A.setSize(m,n,4); else A.setSize(m,n); int i=0; for(auto it=A.createbegin();it!=A.createend();++it,++i){ it.insert(0); if(i==1) it.insert(1); } }
  else { A.setBuildMode(M::implicit); A.setImplicitBuildModeParameters(2,0.5); A.setSize(m,n); A.entry(0,1)=1; A.entry(0,0)=1; A.entry(2,1)=1; A.entry(1,1)=2; A.compress(); }
  for(auto&r:A) r=1.0;
  bool want[n][m]; long total=0; for(int i=0;i<n;i++) for(int j=0;j<m;j++){ want[i][j]=sym_bool("w"); total+=want[i][j]; }
  if(k==0){ bool given=sym_bool("nnz"); if(given) A.setSize(n,m,sym_concrete_l(total)); else A.setSize(n,m); for(int i=0;i<n;i++){ long c=0; for(int j=0;j<m;j++) c+=want[i][j]; A.setrowsize(i,sym_concrete_l(c)); } A.endrowsizes(); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(want[i][j]) A.addindex(i,j); A.endindices(); sym_reach("rr"); }
  else if(k==1){ A.setSize(n,m); int i=0; for(auto it=A.createbegin();it!=A.createend();++it,++i) for(int j=0;j<m;j++) if(want[i][j]) it.insert(j); sym_reach("rw"); }
  else { A.setSize(n,m); for(int i=0;i<n;i++) for(int j=m-1;j>=0;j--) if(want[i][j]) A.entry(i,j)=1; A.compress(); sym_reach("ir"); }
  checkPattern(A,n,m,want);
}
// block entries
SYM_HARNESS(blocks,SYM_REAL,"built"){
  typedef BCRSMatrix<FieldMatrix<double,2,2>> MB; const int n=2; bool want[n][n]; MB A(n,n,MB::random); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ want[i][j]=sym_bool("w"); if(want[i][j]) A.incrementrowsize(i); }
  A.endrowsizes(); for(int i=0;i<n;i++) for(int j=n-1;j>=0;j--) if(want[i][j]) A.addindex(i,j); A.endindices(); sym_reach("built");
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) SYM_ASSERT(A.exists(i,j)==want[i][j],"exists");
  FieldMatrix<double,2,2> v[n][n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(want[i][j]){ H::fill(v[i][j],"v"); A[i][j]=v[i][j]; }
  for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(want[i][j]) HEQ(A[i][j],v[i][j],"block value");
}
