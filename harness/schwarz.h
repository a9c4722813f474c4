// overlapping Schwarz sweeps against their definition
#pragma once
#include "direct.h"
#include "ref.h"
#include <dune/istl/overlappingschwarz.hh>
namespace H {
enum { RECORDED, ILU0, EXACT };
template<int n> Pat<n,n> shape(){ if(sym_tier()) return pattern<n,n>(true); int s=sym_concrete_l(sym_int("shape",0,3)); Pat<n,n> p=full<n,n>(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(s==1) p[i][j]=std::abs(i-j)<2; else if(s==2) p[i][j]=i==j||i>j||(i==0&&j==n-1); else if(s==3) p[i][j]=i==j||i+j==n-1||(i==0&&j==1); return p; }
template<int kind,class M,class X,class Mode,class TD,int n,bool flyonly,bool fixed=false> void schwarz(){ mock::resetAll(); typedef typename M::block_type B; typedef typename BS<B>::K K; constexpr int b=BS<B>::n; typedef SeqOverlappingSchwarz<M,X,Mode,TD> S; {
   auto w=shape<n>(); M A; build(A,w); fillvals(A,w); if constexpr(fixed){ int t=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i][j]) for(int p=0;p<b;p++) for(int q=0;q<b;q++){ t=(t*5+3)%16; A[i][j][p][q]=sym_exact_d((i==j&&p==q?8:0)+t*0.25-1); } } DM<K> D=dense(A); const int nd=kind==RECORDED&&sym_tier()?3:2; std::vector<std::set<std::size_t>> dom(nd); for(auto& d:dom){ int m=sym_concrete_l(sym_int("domain",1,(1<<n)-1)); for(int i=0;i<n;i++) if(m>>i&1) d.insert(i); }
   std::vector<LU<K>> lu; if(kind!=RECORDED) for(auto& I:dom){ int nb=I.size(); std::vector<std::vector<bool>> lw(nb,std::vector<bool>(nb,true)); if(kind==ILU0){ std::vector<int> g(I.begin(),I.end()); for(int i=0;i<nb;i++) for(int j=0;j<nb;j++) lw[i][j]=w[g[i]][g[j]]; } lu.push_back(ilu(sub(D,I,b),lw,b)); }
   bool fly=flyonly||decided(sym_bool("onTheFly")); K w0; fill(w0,"relax"); std::unique_ptr<S> s;
   if(decided(sym_bool("byDomain"))){ typename S::subdomain_vector sd; for(auto& d:dom) sd.push_back(typename S::subdomain_type(d.begin(),d.end())); s.reset(new S(A,sd,w0,fly)); } else { typename S::rowtodomain_vector r(n); for(int i=0;i<n;i++) for(int d=0;d<nd;d++) if(dom[d].count(i)) r[i].push_back(d); s.reset(new S(A,r,w0,fly)); }
   for(int round=0;round<(kind==RECORDED?2:1);round++){ X v(n),d(n); fillv(v,"v"); fillv(d,"d"); auto x=flat<K>(v),rhs=flat<K>(d); auto N=mock::calls<K>().size(); Preconditioner<X,X>* q=s.get(); q->pre(v,d); q->apply(v,d); eqv(flat<K>(d),rhs,"defect unchanged"); std::size_t c=N; DV<K> sum(n*b,K(0)); bool additive=std::is_same_v<Mode,AdditiveSchwarzMode>,sym=std::is_same_v<Mode,SymmetricMultiplicativeSchwarzMode>;
     for(int step=0;step<(sym?2*nd:nd);step++){ auto& I=dom[step<nd?step:2*nd-1-step]; std::vector<int> ix; for(auto i:I) for(int p=0;p<b;p++) ix.push_back(i*b+p); auto L=sub(D,I,b); int m=ix.size(); DV<K> r(m); auto Ax=mul(D,x); for(int k=0;k<m;k++) r[k]=rhs[ix[k]]-Ax[ix[k]];
       DV<K> u; if(kind==RECORDED){ auto& C=mock::calls<K>(); SYM_ASSERT(C.size()>c,"one solve for each subdomain"); if(C.size()<=c) sym_cut(); eqm(C[c].A,L,"local matrix"); eqv(C[c].b,r,"local defect"); u=C[c].x; c++; }
       else u=lu[step<nd?step:2*nd-1-step].solve(r);
       for(int k=0;k<m;k++) if(additive) sum[ix[k]]+=u[k]; else x[ix[k]]+=w0*u[k]; }
     if(additive) for(int i=0;i<n*b;i++) x[i]+=w0*sum[i]; if(kind==RECORDED) SYM_ASSERT(mock::calls<K>().size()==c,"one solve for each subdomain"); eqv(flat<K>(v),x,"update"); auto fv=flat<K>(v); q->post(v); eqv(flat<K>(v),fv,"post keeps the update"); }
   SYM_ASSERT(s->category()==SolverCategory::sequential,"category"); eqm(dense(A),D,"matrix unchanged"); }
  if(kind==RECORDED) mock::allReleased("everything released"); sym_reach("done"); }
}
typedef AdditiveSchwarzMode Add; typedef MultiplicativeSchwarzMode Mul; typedef SymmetricMultiplicativeSchwarzMode Sym;
