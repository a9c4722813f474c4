// C03: copies of a sparse matrix are equal to and independent of their source
// BOUNDS: 2x3 sources with all 64 patterns in 6 construction modes, 2x2 and 3x3 targets in all modes and states (empty, built, same or other size), symbolic values; 2x2 block entries; chains copy-of-copy; destruction and rebuild of one side
#include "mat.h"
using namespace Dune; using namespace H;
typedef BCRSMatrix<double> M;
template<class Mat,class P> static void check(const Mat& A,const P& w,const double (&v)[2][3],const char*l){ samePattern(A,w,l); for(int i=0;i<2;i++) for(int j=0;j<3;j++) if(w[i][j]) sym_assert_eq_d(A[i][j],v[i][j],l); }
static void vals(M& A,const Pat<2,3>& w,double (&v)[2][3],const char*nm){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) if(w[i][j]){ v[i][j]=sym_real(nm); A[i][j]=v[i][j]; } }

SYM_HARNESS(copy,SYM_REAL,"copied,source gone,source rebuilt"){
  auto w=pattern<2,3>(); int mode=sym_concrete_l(sym_int("mode",0,NMODES-1)); auto A=std::make_unique<M>(); build(*A,w,mode); double v[2][3],u[2][3]; vals(*A,w,v,"v");
  if(sym_bool("count")) (void)A->nonzeroes();
  M B(*A); sym_reach("copied");
  check(*A,w,v,"source unchanged by copy"); check(B,w,v,"copy equals source");
  for(int i=0;i<2;i++) for(int j=0;j<3;j++) if(w[i][j]) SYM_ASSERT(&(*A)[i][j]!=&B[i][j],"values are not shared");
  vals(B,w,u,"u"); check(*A,w,v,"source unaffected by writing to the copy"); 
  *A*=2.0; for(auto&r:v) for(auto&x:r) x*=2.0; check(*A,w,v,"scaled source"); check(B,w,u,"copy unaffected by scaling the source");
  M C(B); check(C,w,u,"copy of a copy");
  long fate=sym_concrete_l(sym_int("fate",0,2));
  if(fate==0){ A.reset(); sym_reach("source gone"); }
  else if(fate==1){ bool rw=(mode==ROWWISE||mode==ROWWISE_NNZ); A->setSize(2,3); if(rw){ int i=0; for(auto it=A->createbegin();it!=A->createend();++it,++i) it.insert((i+1)%3); } else if(mode==IMPLICIT){ A->entry(0,1)=1; A->compress(); } else { A->setrowsize(0,1); A->setrowsize(1,1); A->endrowsizes(); A->addindex(0,1); A->addindex(1,2); A->endindices(); } (*A)=7.0; sym_reach("source rebuilt"); }
  else { *A=0.0; }
  check(B,w,u,"copy survives the source"); check(C,w,u,"second copy survives the source");
  B=3.0; check(C,w,u,"second copy unaffected");
  C*=0.5; for(auto&r:u) for(auto&x:r) x*=0.5; check(C,w,u,"copy can be scaled");
}
SYM_HARNESS(assign,SYM_REAL,"empty target,same rows,other rows,from empty,self"){
  auto w=pattern<2,3>(); int mode=sym_concrete_l(sym_int("mode",0,NMODES-1)); M A; build(A,w,mode); double v[2][3],u[2][3]; vals(A,w,v,"v");
  M B; long t=sym_concrete_l(sym_int("target",0,3)); int tm=0;
  if(t==1){ tm=sym_concrete_l(sym_int("tmode",0,NMODES-1)); Pat<2,3> p; p[0][1]=p[0][2]=true; p[1][0]=sym_bool("tw"); build(B,p,tm); B=1.0; sym_reach("same rows"); }
  else if(t==2){ tm=sym_concrete_l(sym_int("tmode",0,NMODES-1)); Pat<3,2> p; p[0][1]=p[2][0]=true; p[1][0]=sym_bool("tw"); build(B,p,tm); B=1.0; sym_reach("other rows"); }
  else if(t==3){ B=A; B=B; sym_reach("self"); }
  else sym_reach("empty target");
  B=A;
  check(A,w,v,"source unchanged by assignment"); check(B,w,v,"target equals source");
  vals(B,w,u,"u"); check(A,w,v,"source unaffected by writing to the target"); A/=2.0; for(auto&r:v) for(auto&x:r) x/=2.0; check(A,w,v,"source scaled"); check(B,w,u,"target unaffected");
  if(sym_bool("back")){ A=B; check(A,w,u,"assigned back"); check(B,w,u,"source of the second assignment"); A=2.0; check(B,w,u,"independent after assigning back"); }
  M E; A=E; SYM_EQ(A.N(),0,"empty assigned"); SYM_EQ(A.nonzeroes(),0,"empty assigned"); sym_reach("from empty"); check(B,w,u,"target survives");
}
SYM_HARNESS(blocks,SYM_REAL,"done"){
  typedef FieldMatrix<double,2,2> Bl; typedef BCRSMatrix<Bl> MB; auto w=pattern<2,2>(); int mode=sym_concrete_l(sym_int("mode",0,NMODES-1)); MB A; build(A,w,mode); fillvals(A,w); Bl v[2][2]; for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) v[i][j]=A[i][j];
  MB B(A),C; C=A; samePattern(A,w,"source pattern"); samePattern(B,w,"copy pattern"); samePattern(C,w,"target pattern"); A=0.0;
  for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ HEQ(B[i][j],v[i][j],"copied block"); HEQ(C[i][j],v[i][j],"assigned block"); } sym_reach("done");
}
// entries that own memory themselves: no double free, no leak of identity
SYM_HARNESS(nested,SYM_REAL,"done"){
  typedef BCRSMatrix<M> MM; auto w=pattern<2,2>(); int mode=sym_concrete_l(sym_int("mode",0,3)); MM A; build(A,w,mode); double v[2][2];
  Pat<1,1> one; one[0][0]=true; for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ M e; build(e,one,ROWWISE); v[i][j]=sym_real("v"); e[0][0]=v[i][j]; A[i][j]=e; }
  { MM B(A); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ SYM_EQ(B[i][j][0][0],v[i][j],"nested copy"); B[i][j][0][0]=1.0; } }
  for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) SYM_EQ(A[i][j][0][0],v[i][j],"source keeps nested entries");
  if(sym_bool("assign")){ MM C; C=A; A.setSize(0,0); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]) SYM_EQ(C[i][j][0][0],v[i][j],"nested assignment"); }
  sym_reach("done");
}
