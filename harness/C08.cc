// C08: variable block vectors keep their layout
// BOUNDS: 0..3 blocks of 0..3 entries, entries double and FieldVector<2>; histories of 3 (thorough: 4) operations out of copy, move, assign, swap, resize (both forms), creation, scalar assignment and element writes on two vectors against a model
#include "flat.h"
#include <dune/istl/vbvector.hh>
using namespace Dune; using namespace H;
typedef VariableBlockVector<double> V; typedef std::vector<std::vector<double>> Ref;
template<class W> static void create(W& v,const std::vector<long>& s,bool star){ long i=0; for(auto it=v.createbegin();it!=v.createend();++it,++i){ SYM_EQ((long)it.index(),i,"create index"); if(star) *it=s[i]; else it.setblocksize(s[i]); SYM_EQ((long)std::size_t(*it),s[i],"block size reads back"); } SYM_EQ(i,(long)s.size(),"create count"); }
static std::vector<long> layout(int max,int bl,const char*nm="bs"){ long n=sym_concrete_l(sym_int("blocks",0,max)); std::vector<long> s(n); for(auto&x:s) x=sym_concrete_l(sym_int(nm,0,bl)); return s; }
static void same(V& v,const Ref& r,const char* l){
  const V& c=v; sym_assert_eq_l(v.N(),r.size(),l); sym_assert_eq_l(v.size(),r.size(),l); long t=0; for(auto&b:r) t+=b.size(); sym_assert_eq_l(v.dim(),t,l);
  std::vector<const double*> seen; std::size_t k=0;
  for(auto it=v.begin();it!=v.end();++it,++k){ sym_assert_eq_l(it.index(),k,l); sym_assert_eq_l(it->size(),r[k].size(),l); for(std::size_t i=0;i<r[k].size();i++){ sym_assert_eq_d((*it)[i],r[k][i],l); sym_assert_b(&(*it)[i]==&c[k][i],l); for(auto p:seen) sym_assert_b(p!=&c[k][i],l); seen.push_back(&c[k][i]); } }
  sym_assert_eq_l(k,r.size(),l); k=0; for(auto it=c.begin();it!=c.end();++it,++k){ sym_assert_eq_l(it.index(),k,l); sym_assert_eq_l(c[k].N(),r[k].size(),l); } sym_assert_eq_l(k,r.size(),l);
  if(r.size()){ for(auto it=v.beforeEnd();it!=v.beforeBegin();--it){ k--; sym_assert_eq_l((long)it.index(),k,l); sym_assert_b(&*it==&v[k],l); } sym_assert_eq_l(k,0,l); k=r.size(); for(auto it=c.beforeEnd();it!=c.beforeBegin();--it){ k--; sym_assert_eq_l((long)it.index(),k,l); } sym_assert_eq_l(k,0,l); }
  for(std::size_t i=0;i<=r.size();i++){ auto f=v.find(i); auto g=c.find(i); sym_assert_b((f==v.end())==(i>=r.size()),l); sym_assert_b((g==c.end())==(i>=r.size()),l); sym_assert_eq_l(f.index(),i,l); if(i<r.size()) sym_assert_b(&*f==&v[i],l); }
  sym_assert_eq_l(v.end().index(),r.size(),l);
}
static void fillr(V& v,Ref& r,const char*nm="v"){ for(std::size_t i=0;i<r.size();i++) for(std::size_t j=0;j<r[i].size();j++){ double x=sym_real(nm); v[i][j]=x; r[i][j]=x; } }
SYM_HARNESS(creation,SYM_REAL,"done"){
  auto s=layout(3,3); V v(s.size()); create(v,s,sym_bool("star")); Ref r; for(long b:s) r.emplace_back(b,0.0); fillr(v,r); same(v,r,"created"); V c(v); same(c,r,"copied"); V m(std::move(c)); same(m,r,"moved"); c=m; same(c,r,"assigned"); for(auto b=m.begin();b!=m.end();++b) *b=3.0; same(v,r,"source unaffected"); same(c,r,"other copy unaffected"); for(auto&b:r) for(auto&x:b) x=3.0; same(m,r,"block scalar assignment"); v=7.0; for(auto&b:r) for(auto&x:b) x=7.0; same(v,r,"scalar assignment"); sym_reach("done");
}
SYM_HARNESS(uniform,SYM_REAL,"done"){ long n=sym_concrete_l(sym_int("n",0,3)),b=sym_concrete_l(sym_int("b",0,3)); V v(n,b); Ref r(n,std::vector<double>(b,0.0)); same(v,r,"value initialized uniform blocks"); fillr(v,r); same(v,r,"uniform blocks"); V u; long n2=sym_concrete_l(sym_int("n2",0,3)),b2=sym_concrete_l(sym_int("b2",0,3)); u.resize(n,b); u.resize(n2,b2); Ref q(n2,std::vector<double>(b2,0.0)); fillr(u,q); same(u,q,"resized uniform blocks"); sym_reach("done"); }
SYM_HARNESS(histories,SYM_REAL,"create,copy,resize"){
  V v[2]; Ref r[2];
  for(int k=0;k<3+(sym_tier()?1:0);k++){
    long op=sym_concrete_l(sym_int("op",0,7)); int a=sym_bool("which"),b=1-a;
    switch(op){
     case 0:{ auto s=layout(2,1); v[a].resize(s.size()); create(v[a],s,false); r[a].clear(); for(long x:s) r[a].emplace_back(x,0.0); fillr(v[a],r[a]); sym_reach("create"); break; }
     case 1:{ long n=sym_concrete_l(sym_int("n",0,2)),m=sym_concrete_l(sym_int("m",1,2)); v[a].resize(n,m); r[a].assign(n,std::vector<double>(m)); fillr(v[a],r[a]); sym_reach("resize"); break; }
     case 2: v[a]=v[b]; r[a]=r[b]; sym_reach("copy"); break;
     case 3: v[a].swap(v[b]); r[a].swap(r[b]); break;
     case 4:{ V t(std::move(v[a])); SYM_EQ(v[a].N(),0,"moved from"); v[a]=std::move(v[b]); v[b]=t; std::swap(r[a],r[b]); break; }
     case 5:{ double s=sym_real("s"); v[a]=s; for(auto&x:r[a]) for(auto&y:x) y=s; break; }
     case 6:{ v[a]=*&v[a]; V t(v[a]); t=5.0; break; }
     case 7:{ if(r[a].empty()||r[a].back().empty()) return; double s=sym_real("w"); v[a][r[a].size()-1][r[a].back().size()-1]=s; r[a].back().back()=s; break; }
    }
    same(v[0],r[0],"first vector"); same(v[1],r[1],"second vector");
  }
}
SYM_HARNESS(reallocate,SYM_REAL,"done"){ // creation cannot be interrupted into a usable vector, and a finished one stays
  V v(2); { auto it=v.createbegin(); it.setblocksize(1); ++it; it.setblocksize(2); auto jt=it; ++jt; } SYM_EQ(v.dim(),3,"allocated when the last block is passed"); v[1][1]=sym_real("x"); double x=v[1][1]; { auto e=v.createend(); (void)e; } SYM_EQ(v[1][1],x,"end iterator does not touch the vector"); v[0][0]=1; SYM_EQ(v[1][1],x,"blocks disjoint"); sym_reach("done"); }
SYM_HARNESS(blocks,SYM_REAL,"done"){ typedef VariableBlockVector<FieldVector<double,2>> W; auto s=layout(2,2); W v(s.size()); create(v,s,true); fillv(v,"v"); auto f=flat<double>(v); W c(v); eqv(flat<double>(c),f,"copy"); SYM_EQ(v.dim(),f.size(),"dim"); v=0.0; eqv(flat<double>(c),f,"independent"); if(s.size()&&s[0]){ BlockVector<FieldVector<double,2>> b=c[0]; for(long i=0;i<s[0];i++) HEQ(b[i],c[0][i],"autonomous block copy"); b=0.0; eqv(flat<double>(c),f,"autonomous"); } sym_reach("done"); }
