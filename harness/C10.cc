// C10: index sets are sets and export exactly their pattern
// BOUNDS: index sets of 1 row x columns 0..4 with 4 (thorough: 6) insertions of symbolic columns and of 3 rows x 3 columns with 2 (thorough: 3) insertions at symbolic positions, interleaved with an import of a matrix of any 2x2 pattern at any offset; row size limits 0..3 (vector/set switch at every point); copies and resizing; export into fresh and into previously built matrices of every build mode
#include "mat.h"
#include <dune/istl/matrixindexset.hh>
using namespace Dune; using namespace H;
typedef BCRSMatrix<double> Mat;
template<int n,int m> static void check(const MatrixIndexSet& s,const Pat<n,m>& w){
  SYM_EQ(s.rows(),(unsigned)n,"rows"); SYM_EQ(s.cols(),(unsigned)m,"cols"); long total=0;
  for(int i=0;i<n;i++){ long c=0; for(int j=0;j<m;j++) c+=w[i][j]; total+=c; SYM_EQ((long)s.rowsize(i),c,"row size");
    std::visit([&](const auto& r){ long k=0,last=-1; for(auto col:r){ SYM_ASSERT((long)col>last,"columns of a row are sorted and unique"); last=col; bool in=false; for(int j=0;j<m;j++) if(j==(long)col) in=w[i][j]; SYM_ASSERT(in,"only inserted positions are contained"); k++; } SYM_EQ(k,c,"every inserted position is contained"); },s.columnIndices(i)); }
  SYM_EQ((long)s.size(),total,"size");
}
// one row: every order of insertion, duplicates, every switch point
SYM_HARNESS(row,SYM_REAL,"done"){ const int m=5; long lim=sym_concrete_l(sym_int("maxVectorSize",0,3)); MatrixIndexSet s(1,m,lim); Pat<1,m> w; int K=sym_tier()?6:4;
  for(int k=0;k<K;k++){ long c=sym_int("col",0,m-1); s.add(0,c); for(int j=0;j<m;j++) if(j==c) w[0][j]=true; } check(s,w); Mat A; s.exportIdx(A); samePattern(A,w,"exported pattern"); sym_reach("done"); }
// several rows, import at an offset between the insertions, copies
SYM_HARNESS(history,SYM_REAL,"imported,added"){ const int n=3; long lim=sym_concrete_l(sym_int("maxVectorSize",0,2)); MatrixIndexSet s(lim); s.resize(n,n); Pat<n,n> w; int K=sym_tier()?3:2; long when=sym_concrete_l(sym_int("import before step",0,K));
  for(int k=0;k<=K;k++){ if(k==when){ auto p=pattern<2,2>(); Mat A; build(A,p); long ro=sym_concrete_l(sym_int("rowOffset",0,1)),co=sym_concrete_l(sym_int("colOffset",0,1)); if(k%2==0||ro||co) s.import(A,ro,co); else s.import(A); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(p[i][j]) w[i+ro][j+co]=true; samePattern(A,p,"imported matrix unchanged"); sym_reach("imported"); }
    if(k<K){ long r=sym_concrete_l(sym_int("row",0,n-1)),c=sym_int("col",0,n-1); s.add(r,c); for(int j=0;j<n;j++) if(j==c) w[r][j]=true; sym_reach("added"); } }
  check(s,w); MatrixIndexSet t(s); t.add(0,0); check(s,w); MatrixIndexSet u; u=s; check(u,w); }
// export into matrices with a history
SYM_HARNESS(exports,SYM_REAL,"done"){ const int n=2,m=3; long lim=sym_concrete_l(sym_int("maxVectorSize",0,2)); MatrixIndexSet s(n,m,lim); auto w=pattern<n,m>(); bool back=sym_bool("descending"); for(int i=0;i<n;i++) for(int j=0;j<m;j++){ int c=back?m-1-j:j; if(w[i][c]) s.add(i,c); }
  check(s,w); long mode=sym_concrete_l(sym_int("history",0,NMODES)); Mat A; if(mode<IMPLICIT||mode==RANDOM_NNZ) build(A,full<3,2>(),(int)mode); s.exportIdx(A); samePattern(A,w,"exported pattern"); long k=0; for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) A[i][j]=(double)k++; k=0; for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(w[i][j]) SYM_EQ(A[i][j],(double)k++,"entries have storage of their own"); check(s,w);
  Mat B; s.exportIdx(B); samePattern(B,w,"second export"); sym_reach("done"); }
// resizing
SYM_HARNESS(resize,SYM_REAL,"done"){ MatrixIndexSet s; SYM_EQ(s.rows(),0u,"default"); SYM_EQ(s.size(),0u,"default"); long n=sym_concrete_l(sym_int("n",0,3)),m=sym_int("m",0,4); s.resize(n,m); SYM_EQ((long)s.rows(),n,"rows"); SYM_EQ((long)s.cols(),m,"cols"); SYM_EQ(s.size(),0u,"no entries"); Mat A; sym_assume(m>0||n==0); s.exportIdx(A); SYM_EQ((long)A.N(),n,"N"); SYM_EQ((long)A.M(),m,"M"); SYM_EQ(A.nonzeroes(),0u,"nonzeroes"); sym_reach("done"); }
