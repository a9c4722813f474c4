// C12: row iterators of dense and identity matrices
// BOUNDS: dense matrices of 0..3 rows and 1..2 columns (numbers and 2x2 blocks), scaled identity matrices of size 1..3, all values, every pair of positions of copied and assigned iterators
#include "flat.h"
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
using namespace Dune; using namespace H;
static bool sameb(double a,double b){ return a==b; } template<class B> static bool sameb(const B& a,const B& b){ bool s=true; for(std::size_t i=0;i<a.N();i++) for(std::size_t j=0;j<a.M();j++) s=s&&a[i][j]==b[i][j]; return s; }
template<class M> static void walk(M& A,int n,const std::vector<int>& rows,int t){ std::vector<int> s; auto note=[&](auto& it){ SYM_EQ((int)it.index(),n-1<(int)it.index()?-1:(int)it.index(),"row number"); s.push_back(it.index()); SYM_ASSERT(&(*it)[0]==&A[it.index()][0],"row of the iterator"); SYM_ASSERT(it->size()==A[it.index()].size(),"size of the row"); };
  if(t==0) for(auto it=A.begin();it!=A.end();++it) note(it); else for(auto it=A.beforeEnd();it!=A.beforeBegin();--it) note(it);
  if(t) std::reverse(s.begin(),s.end()); SYM_ASSERT(s==rows,"every row once, in order"); }
template<class B,int c> static void dense_(){ int n=sym_concrete_l(sym_int("rows",0,3)); Matrix<B> A(n,c); std::vector<B> v; for(int i=0;i<n;i++) for(int j=0;j<c;j++){ fill(A[i][j],"a"); v.push_back(A[i][j]); } const Matrix<B>& C=A; std::vector<int> rows; for(int i=0;i<n;i++) rows.push_back(i);
  walk(A,n,rows,0); walk(A,n,rows,1); walk(C,n,rows,0); walk(C,n,rows,1);
  if(n){ int p=sym_concrete_l(sym_int("p",0,n-1)),q=sym_concrete_l(sym_int("q",0,n-1)); auto i=A.begin(),j=A.begin(); for(int k=0;k<p;k++) ++i; for(int k=0;k<q;k++) ++j; typename Matrix<B>::ConstRowIterator a(i),b(j),d; SYM_ASSERT((a==b)==(p==q)&&(a!=b)==(p!=q)&&(i==j)==(p==q)&&(i!=j)==(p!=q)&&(a==j)==(p==q)&&(i==b)==(p==q)&&(i!=b)==(p!=q)&&(a!=j)==(p!=q),"comparison");
    auto at=[&](auto& it,int k){ SYM_ASSERT((int)it.index()==k&&&(*it)[0]==&A[k][0],"assigned iterator"); };
    int w=sym_concrete_l(sym_int("kind",0,6)); if(w==0){ a=b; at(a,q); } if(w==1){ a=j; at(a,q); } if(w==2){ i=j; at(i,q); } if(w==3){ d=b; at(d,q); } if(w==4){ typename Matrix<B>::ConstRowIterator e(b); ++e; at(b,q); } if(w==5){ d=std::move(b); at(d,q); } if(w==6){ i=std::move(j); at(i,q); typename Matrix<B>::RowIterator f; f=i; at(f,q); } }
  for(int i=0;i<n;i++) for(int j=0;j<c;j++) SYM_ASSERT(sameb(A[i][j],v[i*c+j]),"iterators change no entry"); sym_reach("done"); }
SYM_HARNESS(rows_dense,SYM_REAL,"done"){ dense_<double,2>(); }
SYM_HARNESS(rows_dense1,SYM_REAL,"done"){ dense_<double,1>(); }
SYM_HARNESS(rows_blocks,SYM_REAL,"done"){ dense_<FieldMatrix<double,2,2>,2>(); }
template<int n> static void ident(){ double s=sym_real("s"); ScaledIdentityMatrix<double,n> A(s); const auto& C=A; auto walk=[&](auto& M,bool back){ int k=back?n-1:0,cnt=0; auto look=[&](auto& it){ SYM_EQ((int)it.index(),k,"row number"); int in=0; for(auto j=it->begin();j!=it->end();++j){ SYM_EQ((int)j.index(),k,"only the diagonal"); SYM_EQ((double)*j,s,"entry"); in++; } SYM_EQ(in,1,"one entry for each row"); cnt++; k+=back?-1:1; };
    if(back) for(auto it=M.beforeEnd();it!=M.beforeBegin();--it) look(it); else for(auto it=M.begin();it!=M.end();++it) look(it); SYM_EQ(cnt,n,"every row once"); }; walk(A,false); walk(A,true); walk(C,false); walk(C,true);
  double t=sym_real("t"); ScaledIdentityMatrix<double,n> D(t); SYM_ASSERT((A==D)==(s==t)&&(A!=D)==(s!=t),"comparison"); SYM_ASSERT(A.identical(A)&&!A.identical(D),"identical"); FieldMatrix<double,n,n> F; F=A; for(int i=0;i<n;i++) for(int j=0;j<n;j++) SYM_EQ(F[i][j],i==j?s:0.0,"assigned to a dense matrix"); SYM_EQ(A.scalar(),s,"scalar"); SYM_EQ(A.diagonal(n-1),s,"diagonal"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) SYM_ASSERT(A.exists(i,j)==(i==j),"exists"); sym_reach("done"); }
SYM_HARNESS(rows_ident1,SYM_REAL,"done"){ ident<1>(); }
SYM_HARNESS(rows_ident3,SYM_REAL,"done"){ ident<3>(); }
