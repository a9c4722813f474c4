// exact multivariate polynomials over Q, used as a normal form for real expressions
#pragma once
#include <gmpxx.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <cstdint>
#include <string>

typedef std::vector<uint32_t> Mono; // sorted (var<<8 | exp)
inline unsigned mdeg(const Mono&m){ unsigned d=0; for(auto x:m) d+=x&255; return d; }
// graded lex, true if a is larger than b
inline int mcmp(const Mono&a,const Mono&b){
  unsigned da=mdeg(a),db=mdeg(b); if(da!=db) return da>db?1:-1;
  size_t i=0; for(;i<a.size()&&i<b.size();++i){
    uint32_t va=a[i]>>8,vb=b[i]>>8; if(va!=vb) return va<vb?1:-1;
    uint32_t ea=a[i]&255,eb=b[i]&255; if(ea!=eb) return ea>eb?1:-1; }
  if(a.size()!=b.size()) return a.size()>b.size()?1:-1;
  return 0; }
struct MGreater{ bool operator()(const Mono&a,const Mono&b)const{ return mcmp(a,b)>0; } };
struct MHash{ size_t operator()(const Mono&a)const{ size_t h=1469598103934665603ull; for(auto x:a){h^=x;h*=1099511628211ull;} return h; } };
inline Mono mmul(const Mono&a,const Mono&b){
  Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
  while(i<a.size()||j<b.size()){
    if(j>=b.size()||(i<a.size()&&(a[i]>>8)<(b[j]>>8))) r.push_back(a[i++]);
    else if(i>=a.size()||(b[j]>>8)<(a[i]>>8)) r.push_back(b[j++]);
    else { r.push_back(a[i]+(b[j]&255)); ++i;++j; } }
  return r; }
inline bool mdiv(const Mono&a,const Mono&b,Mono&r){ r.clear(); size_t i=0,j=0;
  while(i<a.size()){ if(j<b.size()&&(b[j]>>8)==(a[i]>>8)){ uint32_t ea=a[i]&255,eb=b[j]&255; if(ea<eb) return false; if(ea>eb) r.push_back(a[i]-eb); ++i;++j; } else if(j<b.size()&&(b[j]>>8)<(a[i]>>8)) return false; else r.push_back(a[i++]); }
  return j==b.size(); }

struct Poly { // terms sorted decreasing
  std::vector<std::pair<Mono,mpq_class>> t;
  bool zero()const{return t.empty();}
  bool isconst()const{return t.empty()||(t.size()==1&&t[0].first.empty());}
  mpq_class constant()const{return t.empty()?mpq_class(0):t[0].second;}
  bool operator==(const Poly&o)const{ return t==o.t; }
  unsigned deg()const{ return t.empty()?0:mdeg(t[0].first); }
  size_t hash()const{ size_t h=t.size(); MHash mh; for(auto&x:t){ h=h*1000003ull^mh(x.first); h=h*1000003ull^(mpz_get_ui(x.second.get_num_mpz_t())*31+mpz_get_ui(x.second.get_den_mpz_t())+(sgn(x.second)<0?7:0)); } return h; }
};
struct PolyTooBig{};
extern size_t g_polyLimit;
inline Poly pconst(const mpq_class&c){ Poly p; if(c!=0) p.t.push_back({Mono(),c}); return p; }
inline Poly pvar(uint32_t v){ Poly p; p.t.push_back({Mono{(v<<8)|1},mpq_class(1)}); return p; }
inline Poly paddmul(const Poly&a,const Poly&b,int sb){ // a + sb*b
  Poly r; r.t.reserve(a.t.size()+b.t.size()); size_t i=0,j=0;
  while(i<a.t.size()||j<b.t.size()){
    int c; if(i>=a.t.size()) c=-1; else if(j>=b.t.size()) c=1; else c=mcmp(a.t[i].first,b.t[j].first);
    if(c>0) r.t.push_back(a.t[i++]); else if(c<0){ r.t.push_back(b.t[j]); if(sb<0) r.t.back().second=-r.t.back().second; ++j; }
    else { mpq_class s=sb<0?mpq_class(a.t[i].second-b.t[j].second):mpq_class(a.t[i].second+b.t[j].second); if(s!=0) r.t.push_back({a.t[i].first,s}); ++i;++j; } }
  return r; }
inline Poly pscale(const Poly&a,const mpq_class&c){ Poly r; if(c==0) return r; r=a; if(c==1) return r; for(auto&x:r.t) x.second*=c; return r; }
inline Poly pfromMap(std::unordered_map<Mono,mpq_class,MHash>&m){ Poly r; r.t.reserve(m.size()); for(auto&x:m) if(x.second!=0) r.t.push_back({x.first,x.second}); std::sort(r.t.begin(),r.t.end(),[](auto&a,auto&b){return mcmp(a.first,b.first)>0;}); return r; }
// s^2 -> argument reduction
extern std::unordered_map<uint32_t,Poly> g_sqrtArg; // var -> arg
inline bool needsReduce(const Mono&m){ if(g_sqrtArg.empty()) return false; for(auto x:m) if((x&255)>=2&&g_sqrtArg.count(x>>8)) return true; return false; }
inline Poly pmul(const Poly&a,const Poly&b);
inline Poly preduce(std::unordered_map<Mono,mpq_class,MHash>&m){
  for(;;){
    std::vector<std::pair<Mono,mpq_class>> bad;
    for(auto it=m.begin();it!=m.end();){ if(it->second==0){it=m.erase(it);continue;} if(needsReduce(it->first)){ bad.push_back(*it); it=m.erase(it);} else ++it; }
    if(bad.empty()) break;
    for(auto&b:bad){ Mono r; Poly f=pconst(b.second); 
      for(auto x:b.first){ uint32_t v=x>>8,e=x&255; auto it=g_sqrtArg.find(v); if(e>=2&&it!=g_sqrtArg.end()){ for(uint32_t k=0;k<e/2;++k) f=pmul(f,it->second); if(e&1) r.push_back((v<<8)|1);} else r.push_back(x); }
      for(auto&t:f.t){ m[mmul(r,t.first)]+=t.second; if(m.size()>g_polyLimit) throw PolyTooBig(); } }
  }
  return pfromMap(m); }
inline Poly pmul(const Poly&a,const Poly&b){
  if(a.zero()||b.zero()) return Poly();
  if(a.isconst()) return pscale(b,a.t[0].second); if(b.isconst()) return pscale(a,b.t[0].second);
  std::unordered_map<Mono,mpq_class,MHash> m; bool red=false;
  if(a.t.size()*b.t.size()>40*g_polyLimit) throw PolyTooBig();
  for(auto&x:a.t) for(auto&y:b.t){ Mono k=mmul(x.first,y.first); if(!red&&needsReduce(k)) red=true; m[k]+=x.second*y.second; if(m.size()>g_polyLimit) throw PolyTooBig(); }
  if(red) return preduce(m);
  return pfromMap(m); }
// exact division in the polynomial ring; false if not divisible
inline bool pdivides(const Poly&p,const Poly&q,Poly&out){
  if(q.zero()) return false; if(p.zero()){ out=Poly(); return true; }
  if(q.isconst()){ out=pscale(p,1/q.t[0].second); return true; }
  if(p.deg()<q.deg()) return false;
  // per variable degree filter and trailing monomial filter
  Mono tmp; if(!mdiv(p.t[0].first,q.t[0].first,tmp)) return false; if(!mdiv(p.t.back().first,q.t.back().first,tmp)) return false;
  std::map<Mono,mpq_class,MGreater> r; for(auto&x:p.t) r[x.first]=x.second;
  Poly res; size_t steps=0;
  while(!r.empty()){
    auto it=r.begin(); Mono k; if(!mdiv(it->first,q.t[0].first,k)) return false;
    mpq_class c=it->second/q.t[0].second; res.t.push_back({k,c});
    for(auto&y:q.t){ Mono m=mmul(k,y.first); auto f=r.find(m); mpq_class d=c*y.second; if(f==r.end()) r.emplace(m,-d); else { f->second-=d; if(f->second==0) r.erase(f);} }
    if(++steps>g_polyLimit||r.size()>4*g_polyLimit) return false;
  }
  out=res; return true; }
// polynomial square root; false if not a perfect square
inline bool psqrtq(const mpq_class&c,mpq_class&r){ if(c<0) return false; mpz_class n=c.get_num(),d=c.get_den(); if(!mpz_perfect_square_p(n.get_mpz_t())||!mpz_perfect_square_p(d.get_mpz_t())) return false; mpz_class a,b; mpz_sqrt(a.get_mpz_t(),n.get_mpz_t()); mpz_sqrt(b.get_mpz_t(),d.get_mpz_t()); r=mpq_class(a,b); return true; }
inline bool psqrt(const Poly&p,Poly&out){
  if(p.zero()){out=Poly();return true;}
  auto half=[&](const Mono&m,Mono&r){ r.clear(); for(auto x:m){ if(x&1) return false; r.push_back((x>>8<<8)|((x&255)/2)); } return true; };
  Mono m; mpq_class c; if(!half(p.t[0].first,m)||!psqrtq(p.t[0].second,c)) return false; Mono mm; if(!half(p.t.back().first,mm)) return false;
  Poly q; q.t.push_back({m,c}); Poly lead=q; Poly r=paddmul(p,pmul(q,q),-1); size_t n=0;
  while(!r.zero()){ Mono k; if(!mdiv(r.t[0].first,m,k)) return false; Poly t; t.t.push_back({k,r.t[0].second/(2*c)}); if(mcmp(k,q.t.back().first)>=0) return false;
    // r -= 2*q*t + t*t
    Poly s=paddmul(pscale(pmul(q,t),2),pmul(t,t),1); r=paddmul(r,s,-1); q.t.push_back(t.t[0]); if(++n>200) return false; }
  out=q; return true; }
