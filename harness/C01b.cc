// BCRSMatrix patterns without rows, without columns, without entries
// BOUNDS: 0..2 rows, 0..2 columns, every build mode and constructor, no entries; then built again with one entry
#include "mat.h"
using namespace Dune; using namespace H;
typedef BCRSMatrix<double> M;
namespace {
void create(M& A,int mode,int n,int m){
  bool fresh=A.buildStage()==M::notAllocated;
  if(mode==0||mode==1){ if(fresh) A.setBuildMode(M::random); if(mode==1) A.setSize(n,m,3); else A.setSize(n,m); for(int i=0;i<n;i++) A.setrowsize(i,0); A.endrowsizes(); A.endindices(); }
  else if(mode==2||mode==3){ if(fresh) A.setBuildMode(M::row_wise); if(mode==3) A.setSize(n,m,3); else A.setSize(n,m); int c=0; for(auto r=A.createbegin();r!=A.createend();++r){ SYM_ASSERT(r.index()==(std::size_t)c,"index of the creating iterator"); c++; } SYM_ASSERT(c==n,"one pass over the rows"); }
  else { if(fresh) A.setBuildMode(M::implicit); if(fresh) A.setImplicitBuildModeParameters(1,0.5); A.setSize(n,m); A.compress(); }
}
void look(const M& A,int n,int m){
  SYM_ASSERT((int)A.N()==n&&(int)A.M()==m,"dimensions"); SYM_ASSERT(A.nonzeroes()==0,"no entries"); SYM_ASSERT(A.buildStage()==M::built,"built"); int c=0;
  for(auto r=A.begin();r!=A.end();++r){ SYM_ASSERT(r->begin()==r->end(),"empty row"); SYM_ASSERT(r->size()==0,"size of an empty row"); SYM_ASSERT(A.getrowsize(r.index())==0,"row size"); SYM_ASSERT((int)r.index()==c,"row index"); c++; } SYM_ASSERT(c==n,"rows");
  c=0; for(auto r=A.beforeEnd();r!=A.beforeBegin();--r) c++; SYM_ASSERT(c==n,"rows backwards"); for(int i=0;i<n;i++) for(int j=0;j<m;j++) SYM_ASSERT(!A.exists(i,j),"nothing exists");
  if(n>0){ SYM_EQ(A.frobenius_norm2(),0.0,"norm"); SYM_EQ(A.infinity_norm(),0.0,"norm"); }
}
}
SYM_HARNESS(empty,SYM_REAL,"no rows,rows"){
  int n=(int)sym_concrete_l(sym_int("n",0,2)), m=(int)sym_concrete_l(sym_int("m",0,2)), mode=(int)sym_concrete_l(sym_int("mode",0,4));
  M A; create(A,mode,n,m); look(A,n,m);
  M B(A); look(B,n,m); M C; C=A; look(C,n,m); A=3.0; A*=2.0; A+=B; look(A,n,m);
  BlockVector<double> x(m),y(n); for(auto& v:x) v=sym_real("x"); for(auto& v:y) v=7.0; A.mv(x,y); for(auto& v:y) SYM_EQ(v,0.0,"product with an empty matrix");
  // and once more with an entry
  if(n>0&&m>0){ if(mode<=1){ A.setSize(n,m); for(int i=0;i<n;i++) A.setrowsize(i,i==n-1); A.endrowsizes(); A.addindex(n-1,m-1); A.endindices(); }
    else if(mode<=3){ A.setSize(n,m); for(auto r=A.createbegin();r!=A.createend();++r) if((int)r.index()==n-1) r.insert(m-1); }
    else { A.setSize(n,m); A.entry(n-1,m-1)=1; A.compress(); }
    SYM_ASSERT(A.nonzeroes()==1&&A.exists(n-1,m-1),"rebuilt"); sym_reach("rows"); }
  else { create(A,mode,1,1); look(A,1,1); create(A,mode,n,m); look(A,n,m); sym_reach("no rows"); }
}
