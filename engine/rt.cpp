// Runtime of the symbolic engine: expression DAG, shadow memory, path
// exploration, z3 queries.  Compiled without sanitizers.
#include <z3.h>
#include "poly.h"
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <string>
#include <set>
#include <unordered_set>
#include <deque>
#include <chrono>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <poll.h>

size_t g_polyLimit=6000;
std::unordered_map<uint32_t,Poly> g_sqrtArg;

extern "C" { void* __sym_args[96]; void* __sym_rets[96]; void* __sym_callee; long __sym_retok; 
 extern const char __sym_sites[]; extern const char __sym_fns[]; extern const char __sym_encoded[]; 
 int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
 void __asan_handle_no_return() __attribute__((weak)); 
 const char* __asan_default_options(){ return "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=4:allocator_may_return_null=0:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:exitcode=66:handle_abort=0:max_allocation_size_mb=2000"; }
}

enum Sort:uint8_t{ SBOOL,SBV,SREAL,SFP,SOPAQUE,SSPEC };
enum Op:uint8_t{ O_CONST,O_VAR, O_NOT,O_AND,O_OR,O_XOR, O_ITE, O_EQ,O_ULT,O_ULE,O_SLT,O_SLE, O_RCMP,
  O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_SHL,O_LSHR,O_ASHR,O_BAND,O_BOR,O_BXOR,O_ZEXT,O_SEXT,O_EXTRACT,O_CONCAT,
  O_RAT, O_FADD,O_FSUB,O_FMUL,O_FDIV,O_FNEG,O_FABS,O_FSQRT,O_FEQ,O_FLT,O_FLE,O_FNAN,O_FINF,O_FZERO, O_FROUND32, O_FNEGSIGN, O_FTOI, O_OPQ };

struct Rat { Poly n; std::vector<std::pair<uint32_t,uint32_t>> d; }; // d: factor id, exponent

struct alignas(16) Expr { Sort s; Op op; uint16_t w; uint32_t id; Expr*k[3]; uint64_t c; Rat*rat; Poly*poly; const std::vector<uint32_t>*vars; Z3_ast z; uint32_t zgen; };
static Z3_ast const ZNULL=nullptr;

static bool in_rt=false;
struct RT{ bool o; RT():o(in_rt){in_rt=true;} ~RT(){in_rt=o;} };

// ---------------------------------------------------------------- statistics
struct Stats { long paths=0,complete=0,cut=0,branches=0,forks=0,queries=0,sat=0,unsat=0,unknown=0,cachehits=0,asserts=0,asserts_trivial=0,inconclusive=0,implied=0,selfbad=0,selfok=0,maxpc=0,toobig=0,fixedimp=0,deferred=0; double solver_s=0; } st;
static std::map<std::string,long> incReasons;
static std::map<std::string,long> labelCount; // assertion label -> symbolic evaluations
static std::map<std::string,long> reachCount;
static std::map<int,long> siteForks;
static std::vector<std::string> siteTab,fnTab; static std::vector<uint8_t> fnHit;
static void inconclusive(const std::string&why);

// ---------------------------------------------------------------- vars
enum VK{ V_INT,V_BOOL,V_REAL,V_FP,V_SQRT };
struct Var { VK k; std::string name; long lo,hi; unsigned w; Poly arg; };
static std::vector<Var> vars; // engine variables (global ids)
static std::map<std::string,uint32_t> varByName;
struct Val { uint64_t u=0; mpq_class q; bool set=false; };
static std::vector<Val> cur; // current input value per var

// ---------------------------------------------------------------- varsets
static std::set<std::vector<uint32_t>> vsets;
static const std::vector<uint32_t>* vsIntern(std::vector<uint32_t> v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return &*vsets.insert(std::move(v)).first; }
static const std::vector<uint32_t>* vsUnion(const std::vector<uint32_t>*a,const std::vector<uint32_t>*b){ if(!a||a==b||a->empty()) return b; if(!b||b->empty()) return a; if(std::includes(a->begin(),a->end(),b->begin(),b->end())) return a; std::vector<uint32_t> r; std::set_union(a->begin(),a->end(),b->begin(),b->end(),std::back_inserter(r)); return vsIntern(r); }

// ---------------------------------------------------------------- factors & hash-consing
struct PolyPtrHash{ size_t operator()(const Poly*p)const{return p->hash();} }; struct PolyPtrEq{ bool operator()(const Poly*a,const Poly*b)const{return *a==*b;} };
static std::unordered_map<const Poly*,uint32_t,PolyPtrHash,PolyPtrEq> facIdx; static std::deque<Poly> facs;
static uint32_t facId(const Poly&p){ auto it=facIdx.find(&p); if(it!=facIdx.end()) return it->second; facs.push_back(p); facIdx[&facs.back()]=facs.size()-1; return facs.size()-1; }

struct Key{ Sort s;Op op;uint16_t w;Expr*k[3];uint64_t c; bool operator==(const Key&o)const{return s==o.s&&op==o.op&&w==o.w&&k[0]==o.k[0]&&k[1]==o.k[1]&&k[2]==o.k[2]&&c==o.c;} };
struct KeyH{ size_t operator()(const Key&k)const{ size_t h=(size_t)k.s*131+k.op*31+k.w; for(auto*x:k.k) h=h*1000003ull^((size_t)x>>4); return h*1000003ull^k.c; } };
static std::unordered_map<Key,Expr*,KeyH> cons;
static std::vector<Expr*> arena; static char*arenaP=nullptr,*arenaE=nullptr; static uint32_t nextId=1;
static Expr* alloc(){ if(arenaP==arenaE){ size_t n=sizeof(Expr)*65536; arenaP=(char*)mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); arenaE=arenaP+n; } Expr*e=(Expr*)arenaP; arenaP+=sizeof(Expr); memset((void*)e,0,sizeof(Expr)); e->id=nextId++; return e; }
static Expr* mk(Sort s,Op op,unsigned w,Expr*a=nullptr,Expr*b=nullptr,Expr*d=nullptr,uint64_t c=0){
  Key k{s,op,(uint16_t)w,{a,b,d},c}; auto it=cons.find(k); if(it!=cons.end()) return it->second;
  Expr*e=alloc(); e->s=s;e->op=op;e->w=w;e->k[0]=a;e->k[1]=b;e->k[2]=d;e->c=c;
  const std::vector<uint32_t>*v=vsIntern({}); for(auto*x:e->k) if(x) v=vsUnion(v,x->vars);
  if(op==O_VAR) v=vsIntern({(uint32_t)c}); e->vars=v; cons[k]=e; return e; }
static uint64_t mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }
static Expr* bvc(uint64_t v,unsigned w){ return mk(SBV,O_CONST,w,nullptr,nullptr,nullptr,v&mask(w)); }
static Expr* bc(bool b){ return mk(SBOOL,O_CONST,1,nullptr,nullptr,nullptr,b); }
static Expr* OPQ(){ return mk(SOPAQUE,O_OPQ,0); }
static Expr* spec(double d){ uint64_t u; memcpy(&u,&d,8); return mk(SSPEC,O_CONST,64,nullptr,nullptr,nullptr,u); }
static double asD(uint64_t u){ double d; memcpy(&d,&u,8); return d; }
static uint64_t asU(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
static bool isC(Expr*e){ return e->op==O_CONST; }
static bool opq(Expr*e){ return e&&e->s==SOPAQUE; }

static const std::vector<uint32_t>* polyVars(const Poly&p,const std::vector<uint32_t>*acc){ std::vector<uint32_t> v; for(auto&t:p.t) for(auto x:t.first) v.push_back(x>>8); std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); const std::vector<uint32_t>*r=acc; std::vector<uint32_t> ext=v; for(auto x:v) if(vars[x].k==V_SQRT){ auto*q=polyVars(vars[x].arg,nullptr); if(q) ext.insert(ext.end(),q->begin(),q->end()); } auto*w=vsIntern(ext); return r?vsUnion(r,w):w; }

// Real expressions
static std::map<std::string,Expr*> dummy;
struct RatKey{ const Rat*r; bool operator==(const RatKey&o)const{ return r->d==o.r->d&&r->n==o.r->n; } };
struct RatH{ size_t operator()(const RatKey&k)const{ size_t h=k.r->n.hash(); for(auto&x:k.r->d) h=h*1000003ull^(x.first*64+x.second); return h; } };
static std::unordered_map<RatKey,Expr*,RatH> ratCons;
static Expr* mkRat(Rat&&r){
  if(r.n.zero()) r.d.clear();
  RatKey k{&r}; auto it=ratCons.find(k); if(it!=ratCons.end()) return it->second;
  Expr*e=alloc(); e->s=SREAL;e->op=O_RAT;e->w=64; e->rat=new Rat(std::move(r)); const std::vector<uint32_t>*v=polyVars(e->rat->n,nullptr); for(auto&f:e->rat->d) v=polyVars(facs[f.first],v); e->vars=v; ratCons[RatKey{e->rat}]=e; return e; }
static Rat ratc(const mpq_class&q){ Rat r; r.n=pconst(q); return r; }
static Rat ratd(double d){ return ratc(mpq_class(d)); }
static bool ratIsC(const Rat&r){ return r.d.empty()&&r.n.isconst(); }
static Poly facPow(uint32_t f,unsigned e){ Poly p=facs[f]; for(unsigned i=1;i<e;++i) p=pmul(p,facs[f]); return p; }
static Poly denPoly(const Rat&r){ Poly p=pconst(1); for(auto&f:r.d) p=pmul(p,facPow(f.first,f.second)); return p; }
static void ratCancel(Rat&r){
  if(r.n.zero()){ r.d.clear(); return; }
  for(size_t i=0;i<r.d.size();){ Poly q; bool any=false; while(r.d[i].second>0&&pdivides(r.n,facs[r.d[i].first],q)){ r.n=q; r.d[i].second--; any=true; }
    (void)any; if(r.d[i].second==0) r.d.erase(r.d.begin()+i); else ++i; } }
static void addFac(Rat&r,uint32_t f,unsigned e){ for(auto it=r.d.begin();it!=r.d.end();++it){ if(it->first==f){it->second+=e;return;} if(it->first>f){ r.d.insert(it,{f,e}); return; } } r.d.push_back({f,e}); }
static Rat ratAdd(const Rat&a,const Rat&b,int sb){
  if(a.d==b.d){ Rat r; r.n=paddmul(a.n,b.n,sb); r.d=a.d; if(!r.d.empty()) ratCancel(r); return r; }
  Rat r; Poly ma=pconst(1),mb=pconst(1); size_t i=0,j=0;
  while(i<a.d.size()||j<b.d.size()){
    if(j>=b.d.size()||(i<a.d.size()&&a.d[i].first<b.d[j].first)){ mb=pmul(mb,facPow(a.d[i].first,a.d[i].second)); r.d.push_back(a.d[i]); ++i; }
    else if(i>=a.d.size()||b.d[j].first<a.d[i].first){ ma=pmul(ma,facPow(b.d[j].first,b.d[j].second)); r.d.push_back(b.d[j]); ++j; }
    else { unsigned ea=a.d[i].second,eb=b.d[j].second; if(ea>eb) mb=pmul(mb,facPow(a.d[i].first,ea-eb)); else if(eb>ea) ma=pmul(ma,facPow(a.d[i].first,eb-ea)); r.d.push_back({a.d[i].first,std::max(ea,eb)}); ++i;++j; } }
  r.n=paddmul(pmul(a.n,ma),pmul(b.n,mb),sb); ratCancel(r); return r; }
static Rat ratMul(const Rat&a,const Rat&b){
  Rat x=a,y=b; // cross cancel
  if(!y.d.empty()){ Rat t; t.n=x.n;t.d=y.d; ratCancel(t); x.n=t.n; y.d=t.d; }
  if(!x.d.empty()){ Rat t; t.n=y.n;t.d=x.d; ratCancel(t); y.n=t.n; x.d=t.d; }
  Rat r; r.n=pmul(x.n,y.n); if(r.n.zero()) return r; r.d=x.d; for(auto&f:y.d) addFac(r,f.first,f.second); 
  if(!r.d.empty()&&!g_sqrtArg.empty()) ratCancel(r);
  return r; }
static Rat ratInv(const Rat&b){ // b.n nonzero on this path
  Rat r; r.n=pconst(1); for(auto&f:b.d) r.n=pmul(r.n,facPow(f.first,f.second));
  Poly n=b.n; mpq_class lc=n.t[0].second; n=pscale(n,1/lc); r.n=pscale(r.n,1/lc);
  // monomial content
  Mono g=n.t[0].first; for(auto&t:n.t){ Mono h; for(auto x:g) for(auto y:t.first) if((x>>8)==(y>>8)) h.push_back((x>>8<<8)|std::min(x&255,y&255)); g=h; }
  if(!g.empty()){ Poly q; for(auto&t:n.t){ Mono k; mdiv(t.first,g,k); q.t.push_back({k,t.second}); } std::sort(q.t.begin(),q.t.end(),[](auto&a,auto&b){return mcmp(a.first,b.first)>0;}); n=q; for(auto x:g) addFac(r,facId(pvar(x>>8)),x&255); }
  // split by known factors
  if(!n.isconst()){ for(size_t f=0;f<facs.size()&&f<200&&!n.isconst();++f){ if(facs[f].isconst()||facs[f].t.size()<2||facs[f].deg()>=n.deg()) continue; Poly q; while(n.deg()>=facs[f].deg()&&pdivides(n,facs[f],q)){ n=q; addFac(r,f,1);} }
    if(!n.isconst()){ mpq_class l2=n.t[0].second; n=pscale(n,1/l2); r.n=pscale(r.n,1/l2); addFac(r,facId(n),1);} else r.n=pscale(r.n,1/n.constant()); }
  else r.n=pscale(r.n,1/n.constant());
  return r; }

// ---------------------------------------------------------------- exact / approximate evaluation under current inputs
static uint64_t evEpoch=1; static std::unordered_map<uint32_t,std::pair<uint64_t,long double>> sqrtVal;
static bool polyHasSqrt(const Poly&p){ for(auto&t:p.t) for(auto x:t.first) if(vars[x>>8].k==V_SQRT) return true; return false; }
static mpq_class evalExact(const Poly&p){ mpq_class r=0; for(auto&t:p.t){ mpq_class m=t.second; for(auto x:t.first) for(unsigned i=0;i<(x&255);++i) m*=cur[x>>8].q; r+=m; } return r; }
static long double toLD(const mpq_class&q){ if(q==0) return 0; mpf_class f(q,96); long e; double d=mpf_get_d_2exp(&e,f.get_mpf_t()); return ldexpl(d,(int)std::max(-16000L,std::min(16000L,e))); }
static long double evalApprox(const Poly&p,long double&mag){ long double r=0; mag=0; for(auto&t:p.t){ long double m=toLD(t.second); for(auto x:t.first){ uint32_t v=x>>8; long double b; if(vars[v].k==V_SQRT){ auto it=sqrtVal.find(v); if(it!=sqrtVal.end()&&it->second.first==evEpoch) b=it->second.second; else { long double mg; long double a; if(!polyHasSqrt(vars[v].arg)){ a=0; mpq_class q=evalExact(vars[v].arg); a=toLD(q); } else a=evalApprox(vars[v].arg,mg); b=a<=0?0:sqrtl(a); sqrtVal[v]={evEpoch,b}; } } else b=toLD(cur[v].q); for(unsigned i=0;i<(x&255);++i) m*=b; } r+=m; mag+=fabsl(m);} return r; }
static int evalSign(const Poly&p){ if(!polyHasSqrt(p)) return sgn(evalExact(p)); long double mg; long double v=evalApprox(p,mg); if(fabsl(v)<=1e-14L*mg) return 0; return v<0?-1:v>0; }
static double evalRatD(const Rat&r){ long double mg; long double n=evalApprox(r.n,mg); for(auto&f:r.d){ long double d=evalApprox(facs[f.first],mg); for(unsigned i=0;i<f.second;++i) n/=d; } return n; }

static uint64_t evalBV(Expr*e); static bool evalBool(Expr*e); static double evalFP(Expr*e);
static bool evalBool(Expr*e){ switch(e->op){ case O_CONST:return e->c; case O_VAR:return cur[e->c].u; case O_NOT:return !evalBool(e->k[0]); case O_AND:return evalBool(e->k[0])&&evalBool(e->k[1]); case O_OR:return evalBool(e->k[0])||evalBool(e->k[1]); case O_XOR:return evalBool(e->k[0])!=evalBool(e->k[1]); case O_ITE:return evalBool(e->k[0])?evalBool(e->k[1]):evalBool(e->k[2]);
  case O_EQ: if(e->k[0]->s==SBOOL) return evalBool(e->k[0])==evalBool(e->k[1]); return evalBV(e->k[0])==evalBV(e->k[1]);
  case O_ULT:return evalBV(e->k[0])<evalBV(e->k[1]); case O_ULE:return evalBV(e->k[0])<=evalBV(e->k[1]);
  case O_SLT:return sx(evalBV(e->k[0]),e->k[0]->w)<sx(evalBV(e->k[1]),e->k[0]->w); case O_SLE:return sx(evalBV(e->k[0]),e->k[0]->w)<=sx(evalBV(e->k[1]),e->k[0]->w);
  case O_RCMP:{ int s=evalSign(*e->poly); return e->c==0?s<0:e->c==1?s<=0:s==0; }
  case O_FEQ:return evalFP(e->k[0])==evalFP(e->k[1]); case O_FLT:return evalFP(e->k[0])<evalFP(e->k[1]); case O_FLE:return evalFP(e->k[0])<=evalFP(e->k[1]); case O_FNAN:return std::isnan(evalFP(e->k[0])); case O_FINF:return std::isinf(evalFP(e->k[0])); case O_FZERO:return evalFP(e->k[0])==0; case O_FNEGSIGN:return std::signbit(evalFP(e->k[0]));
  default:return false; } }
static uint64_t evalBV(Expr*e){ unsigned w=e->w; auto A=[&]{return evalBV(e->k[0]);}; auto B=[&]{return evalBV(e->k[1]);}; uint64_t r=0; switch(e->op){ case O_CONST:return e->c; case O_VAR:r=cur[e->c].u;break; case O_ADD:r=A()+B();break; case O_SUB:r=A()-B();break; case O_MUL:r=A()*B();break; case O_UDIV:{auto b=B(); r=b?A()/b:~0ull;break;} case O_UREM:{auto b=B(); r=b?A()%b:A();break;} case O_SDIV:{int64_t b=sx(B(),w),a=sx(A(),w); r=b==0?(a<0?1:~0ull):b==-1?-(uint64_t)a:(uint64_t)(a/b);break;} case O_SREM:{int64_t b=sx(B(),w),a=sx(A(),w); r=b==0?a:b==-1?0:a%b;break;} case O_SHL:{auto b=B(); r=b>=w?0:A()<<b;break;} case O_LSHR:{auto b=B(); r=b>=w?0:A()>>b;break;} case O_ASHR:{auto b=B(); r=(uint64_t)(sx(A(),w)>>(b>=w?w-1:b));break;} case O_BAND:r=A()&B();break; case O_BOR:r=A()|B();break; case O_BXOR:r=A()^B();break; case O_ZEXT:r=A();break; case O_SEXT:r=sx(A(),e->k[0]->w);break; case O_EXTRACT:r=A()>>e->c;break; case O_CONCAT:r=(A()<<e->k[1]->w)|B();break; case O_ITE:r=evalBool(e->k[0])?evalBV(e->k[1]):evalBV(e->k[2]);break; case O_FTOI: r=(uint64_t)(int64_t)evalFP(e->k[0]);break; default:break; } return r&mask(w); }
static double evalFP(Expr*e){ switch(e->op){ case O_CONST:return asD(e->c); case O_VAR:return asD(cur[e->c].u); case O_FADD:return evalFP(e->k[0])+evalFP(e->k[1]); case O_FSUB:return evalFP(e->k[0])-evalFP(e->k[1]); case O_FMUL:return evalFP(e->k[0])*evalFP(e->k[1]); case O_FDIV:return evalFP(e->k[0])/evalFP(e->k[1]); case O_FNEG:return -evalFP(e->k[0]); case O_FABS:return fabs(evalFP(e->k[0])); case O_FSQRT:return sqrt(evalFP(e->k[0])); case O_ITE:return evalBool(e->k[0])?evalFP(e->k[1]):evalFP(e->k[2]); case O_FROUND32:return (float)evalFP(e->k[0]); default:return 0; } }

// ---------------------------------------------------------------- bool builders
static Expr* bNot(Expr*a){ if(a->op==O_CONST) return bc(!a->c); if(a->op==O_NOT) return a->k[0]; return mk(SBOOL,O_NOT,1,a); }
static Expr* bAnd(Expr*a,Expr*b){ if(isC(a)) return a->c?b:a; if(isC(b)) return b->c?a:b; if(a==b) return a; if(a==bNot(b)) return bc(false); if(a->id>b->id) std::swap(a,b); return mk(SBOOL,O_AND,1,a,b); }
static Expr* bOr(Expr*a,Expr*b){ if(isC(a)) return a->c?a:b; if(isC(b)) return b->c?b:a; if(a==b) return a; if(a==bNot(b)) return bc(true); if(a->id>b->id) std::swap(a,b); return mk(SBOOL,O_OR,1,a,b); }
static Expr* bXor(Expr*a,Expr*b){ if(isC(a)) return a->c?bNot(b):b; if(isC(b)) return b->c?bNot(a):a; if(a==b) return bc(false); if(a->id>b->id) std::swap(a,b); return mk(SBOOL,O_XOR,1,a,b); }
static Expr* ite(Expr*c,Expr*a,Expr*b);
static Expr* eq(Expr*a,Expr*b){
  if(a==b) return bc(true); if(isC(a)&&isC(b)) return bc(a->c==b->c); if(isC(a)) std::swap(a,b);
  if(a->s==SBOOL){ return bNot(bXor(a,b)); }
  if(isC(b)){
    if(a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])){ bool x=a->k[1]->c==b->c,y=a->k[2]->c==b->c; if(x&&y) return bc(true); if(x) return a->k[0]; if(y) return bNot(a->k[0]); return bc(false); }
    if(a->op==O_ITE){ if(isC(a->k[1])||isC(a->k[2])) return bOr(bAnd(a->k[0],eq(a->k[1],b)),bAnd(bNot(a->k[0]),eq(a->k[2],b))); }
    if(a->op==O_ZEXT){ if(b->c>mask(a->k[0]->w)) return bc(false); return eq(a->k[0],bvc(b->c,a->k[0]->w)); }
    if(a->op==O_SEXT){ int64_t v=sx(b->c,a->w); if(sx((uint64_t)v,a->k[0]->w)!=v) return bc(false); return eq(a->k[0],bvc(v,a->k[0]->w)); }
    if(a->op==O_ADD&&isC(a->k[1])) return eq(a->k[0],bvc(b->c-a->k[1]->c,a->w));
  }
  if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return eq(a->k[0],b->k[0]);
  if(a->op==O_ADD&&b->op==O_ADD&&isC(a->k[1])&&a->k[1]==b->k[1]) return eq(a->k[0],b->k[0]);
  if(a->id>b->id) std::swap(a,b); return mk(SBOOL,O_EQ,1,a,b); }
static uint64_t umax(Expr*a){ if(isC(a)) return a->c; if(a->op==O_ZEXT) return umax(a->k[0]); if(a->op==O_VAR&&vars[a->c].k==V_INT) return std::min<uint64_t>((uint64_t)(vars[a->c].hi-vars[a->c].lo),mask(a->w)); if(a->op==O_ITE) return std::max(umax(a->k[1]),umax(a->k[2])); if(a->op==O_ADD){ uint64_t x=umax(a->k[0]),y=umax(a->k[1]); if(x<=mask(a->w)-y) return x+y; } if(a->op==O_MUL){ uint64_t x=umax(a->k[0]),y=umax(a->k[1]); unsigned __int128 p=(unsigned __int128)x*y; if(p<=mask(a->w)) return (uint64_t)p; } if(a->op==O_BAND) return std::min(umax(a->k[0]),umax(a->k[1])); return mask(a->w); }
static Expr* ult(Expr*a,Expr*b){ if(a==b) return bc(false); if(isC(a)&&isC(b)) return bc(a->c<b->c); if(isC(b)&&b->c==0) return bc(false); if(isC(b)&&umax(a)<b->c) return bc(true); if(isC(a)&&umax(b)<=a->c) return bc(false);
  if(isC(b)&&a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],bc(a->k[1]->c<b->c),bc(a->k[2]->c<b->c)); return mk(SBOOL,O_ULT,1,a,b); }
static Expr* ule(Expr*a,Expr*b){ return bNot(ult(b,a)); }
static Expr* slt(Expr*a,Expr*b){ if(a==b) return bc(false); if(isC(a)&&isC(b)) return bc(sx(a->c,a->w)<sx(b->c,b->w)); unsigned w=a->w; uint64_t sm=1ull<<(w-1); if(umax(a)<sm&&umax(b)<sm) return ult(a,b);
  if(isC(b)&&a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],bc(sx(a->k[1]->c,w)<sx(b->c,w)),bc(sx(a->k[2]->c,w)<sx(b->c,w))); return mk(SBOOL,O_SLT,1,a,b); }
static Expr* ite(Expr*c,Expr*a,Expr*b){ if(isC(c)) return c->c?a:b; if(a==b) return a; if(c->op==O_NOT) return ite(c->k[0],b,a);
  if(a->s==SBOOL){ if(isC(a)) return a->c?bOr(c,b):bAnd(bNot(c),b); if(isC(b)) return b->c?bOr(bNot(c),a):bAnd(c,a); return mk(SBOOL,O_ITE,1,c,a,b);} return mk(a->s,O_ITE,a->w,c,a,b); }
static Expr* zext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return bvc(a->c,w); if(a->op==O_ZEXT) return zext(a->k[0],w); if(a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],zext(a->k[1],w),zext(a->k[2],w)); return mk(SBV,O_ZEXT,w,a); }
static Expr* sext(Expr*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return bvc((uint64_t)sx(a->c,a->w),w); if(umax(a)<(1ull<<(a->w-1))) return zext(a,w); if(a->op==O_SEXT) return sext(a->k[0],w); if(a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],sext(a->k[1],w),sext(a->k[2],w)); return mk(SBV,O_SEXT,w,a); }
static Expr* bvbin(Op op,Expr*a,Expr*b);
static Expr* extract(Expr*a,unsigned lo,unsigned w){ if(lo==0&&w==a->w) return a; if(isC(a)) return bvc(a->c>>lo,w);
  if(a->op==O_ZEXT){ unsigned iw=a->k[0]->w; if(lo>=iw) return bvc(0,w); if(lo+w<=iw) return extract(a->k[0],lo,w); if(lo==0) return zext(a->k[0],w); }
  if(a->op==O_SEXT&&lo==0){ unsigned iw=a->k[0]->w; if(w<=iw) return extract(a->k[0],0,w); return sext(a->k[0],w); }
  if(a->op==O_EXTRACT) return extract(a->k[0],a->c+lo,w);
  if(a->op==O_CONCAT){ unsigned l=a->k[1]->w; if(lo+w<=l) return extract(a->k[1],lo,w); if(lo>=l) return extract(a->k[0],lo-l,w); }
  if(a->op==O_ITE&&(isC(a->k[1])||isC(a->k[2]))) return ite(a->k[0],extract(a->k[1],lo,w),extract(a->k[2],lo,w));
  if(lo==0&&(a->op==O_ADD||a->op==O_SUB||a->op==O_MUL||a->op==O_BAND||a->op==O_BOR||a->op==O_BXOR)) return bvbin(a->op,extract(a->k[0],0,w),extract(a->k[1],0,w));
  return mk(SBV,O_EXTRACT,w,a,nullptr,nullptr,lo); }
static Expr* concat(Expr*h,Expr*l){ if(isC(h)&&isC(l)) return bvc((h->c<<l->w)|l->c,h->w+l->w); if(isC(h)&&h->c==0) return zext(l,h->w+l->w); if(h->op==O_EXTRACT&&l->op==O_EXTRACT&&h->k[0]==l->k[0]&&h->c==l->c+l->w) return extract(h->k[0],l->c,h->w+l->w); return mk(SBV,O_CONCAT,h->w+l->w,h,l); }
static uint64_t cev(Op op,uint64_t a,uint64_t b,unsigned w){ Expr ea{},eb{},e{}; ea.op=eb.op=O_CONST; ea.c=a;eb.c=b;ea.w=eb.w=w;e.op=op;e.w=w;e.k[0]=&ea;e.k[1]=&eb; return evalBV(&e); }
static Expr* bvbin(Op op,Expr*a,Expr*b){ unsigned w=a->w;
  if(isC(a)&&isC(b)) return bvc(cev(op,a->c,b->c,w),w);
  if(isC(a)&&(op==O_ADD||op==O_MUL||op==O_BAND||op==O_BOR||op==O_BXOR)) std::swap(a,b);
  // push constants through ite of constants
  if(isC(b)&&a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return ite(a->k[0],bvbin(op,a->k[1],b),bvbin(op,a->k[2],b));
  if(isC(a)&&b->op==O_ITE&&isC(b->k[1])&&isC(b->k[2])) return ite(b->k[0],bvbin(op,a,b->k[1]),bvbin(op,a,b->k[2]));
  if(isC(b)){ uint64_t c=b->c; switch(op){
    case O_ADD: if(c==0) return a; if(a->op==O_ADD&&isC(a->k[1])) return bvbin(O_ADD,a->k[0],bvc(a->k[1]->c+c,w)); break;
    case O_SUB: return bvbin(O_ADD,a,bvc(-c,w));
    case O_MUL: if(c==0) return b; if(c==1) return a; break;
    case O_SHL: if(c==0) return a; if(c>=w) return bvc(0,w); return bvbin(O_MUL,a,bvc(1ull<<c,w));
    case O_LSHR: if(c==0) return a; if(c>=w) return bvc(0,w); return zext(extract(a,c,w-c),w);
    case O_ASHR: if(c==0) return a; if(umax(a)<(1ull<<(w-1))) return bvbin(O_LSHR,a,b); break;
    case O_BAND: if(c==0) return b; if(c==mask(w)) return a; if((c&(c+1))==0){ unsigned n=0; while((c>>n)&1) ++n; return zext(extract(a,0,n),w);} break;
    case O_BOR: if(c==0) return a; if(c==mask(w)) return b; break;
    case O_BXOR: if(c==0) return a; break;
    case O_UDIV: if(c==1) return a; break;
    case O_UREM: if(c==1) return bvc(0,w); break; case O_SDIV: if(c==1) return a; if(umax(a)<(1ull<<(w-1))&&c<(1ull<<(w-1))) return bvbin(O_UDIV,a,b); break; case O_SREM: if(umax(a)<(1ull<<(w-1))&&c<(1ull<<(w-1))&&c>0) return bvbin(O_UREM,a,b); break;
    default:break; } }
  if(a==b){ if(op==O_SUB||op==O_BXOR) return bvc(0,w); if(op==O_BAND||op==O_BOR) return a; }
  if(op==O_SUB&&a->op==O_ADD&&b->op==O_ADD&&isC(a->k[1])&&isC(b->k[1])) return bvbin(O_ADD,bvbin(O_SUB,a->k[0],b->k[0]),bvc(a->k[1]->c-b->k[1]->c,w));
  if((op==O_ADD||op==O_MUL||op==O_BAND||op==O_BOR||op==O_BXOR)&&!isC(b)&&a->id>b->id) std::swap(a,b);
  return mk(SBV,op,w,a,b); }
static Expr* b2bv(Expr*a,unsigned w){ return ite(a,bvc(1,w),bvc(0,w)); }
static Expr* bv2b(Expr*a){ // low bit
  Expr*x=extract(a,0,1); return eq(x,bvc(1,1)); }

static Expr* rcmp(int rel,Poly p){ // 0: p<0 1: p<=0 2: p==0
  if(p.isconst()){ int s=sgn(p.constant()); return bc(rel==0?s<0:rel==1?s<=0:s==0); }
  mpq_class lc=p.t[0].second; if(rel==2) p=pscale(p,1/lc); else p=pscale(p,1/abs(lc));
  bool neg=false; if(rel!=2&&p.t[0].second<0){ // p<0 with negative lc: -p>0 == not(-p<=0)
    p=pscale(p,-1); neg=true; rel=1-rel; }
  // single even-power monomial
  if(p.t.size()==1){ bool even=true; for(auto x:p.t[0].first) if(x&1) even=false; if(even&&rel==0) return bc(neg); 
    if(rel==2||(even&&rel==1)){ Mono m; for(auto x:p.t[0].first) m.push_back((x>>8<<8)|1); p.t[0].first=m; rel=2; 
      if(m.size()>1){ Expr*r=bc(false); for(auto x:m){ Poly q=pvar(x>>8); r=bOr(r,rcmp(2,q)); } return neg?bNot(r):r; } } }
  uint32_t id=facId(p); Key k{SBOOL,O_RCMP,1,{nullptr,nullptr,nullptr},(uint64_t)rel|((uint64_t)id<<2)};
  auto it=cons.find(k); Expr*e; if(it!=cons.end()) e=it->second; else { e=alloc(); e->s=SBOOL;e->op=O_RCMP;e->w=1;e->c=rel; e->poly=&facs[id]; e->vars=polyVars(p,nullptr); cons[k]=e; }
  return neg?bNot(e):e; }

// ---------------------------------------------------------------- z3
static Z3_context ctx; static uint32_t zgen=1; static unsigned rlimitReal=40000000,rlimitBV=40000000; 
static std::vector<Z3_ast> varZ;
static Z3_sort bvS(unsigned w){ return Z3_mk_bv_sort(ctx,w); }
static Z3_ast zvar(uint32_t v){ if(varZ.size()<=v) varZ.resize(v+1,ZNULL); if(varZ[v]) return varZ[v]; Z3_symbol s=Z3_mk_string_symbol(ctx,(vars[v].name+"#"+std::to_string(v)).c_str()); Z3_sort so=vars[v].k==V_INT?bvS(vars[v].w):vars[v].k==V_BOOL?Z3_mk_bool_sort(ctx):vars[v].k==V_FP?bvS(64):Z3_mk_real_sort(ctx); return varZ[v]=Z3_mk_const(ctx,s,so); }
static Z3_ast zpoly(const Poly&p){ if(p.zero()) return Z3_mk_numeral(ctx,"0",Z3_mk_real_sort(ctx)); std::vector<Z3_ast> ts; for(auto&t:p.t){ std::vector<Z3_ast> fs; if(t.second!=1||t.first.empty()) fs.push_back(Z3_mk_numeral(ctx,t.second.get_str().c_str(),Z3_mk_real_sort(ctx))); for(auto x:t.first) for(unsigned i=0;i<(x&255);++i) fs.push_back(zvar(x>>8)); ts.push_back(fs.size()==1?fs[0]:Z3_mk_mul(ctx,fs.size(),fs.data())); } return ts.size()==1?ts[0]:Z3_mk_add(ctx,ts.size(),ts.data()); }
static Z3_ast rm(){ return Z3_mk_fpa_rne(ctx); }
static Z3_ast tr(Expr*e){
  if(e->z&&e->zgen==zgen) return e->z; Z3_ast r=ZNULL; auto A=[&]{return tr(e->k[0]);}; auto B=[&]{return tr(e->k[1]);};
  switch(e->op){
  case O_CONST: if(e->s==SBOOL) r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx); else if(e->s==SBV) r=Z3_mk_unsigned_int64(ctx,e->c,bvS(e->w)); else r=Z3_mk_fpa_to_fp_bv(ctx,Z3_mk_unsigned_int64(ctx,e->c,bvS(64)),Z3_mk_fpa_sort_double(ctx)); break;
  case O_VAR: r=zvar(e->c); if(e->s==SFP) r=Z3_mk_fpa_to_fp_bv(ctx,r,Z3_mk_fpa_sort_double(ctx)); break;
  case O_NOT: r=Z3_mk_not(ctx,A()); break; case O_AND:{Z3_ast x[2]={A(),B()}; r=Z3_mk_and(ctx,2,x);break;} case O_OR:{Z3_ast x[2]={A(),B()}; r=Z3_mk_or(ctx,2,x);break;} case O_XOR: r=Z3_mk_xor(ctx,A(),B()); break;
  case O_ITE: r=Z3_mk_ite(ctx,A(),B(),tr(e->k[2])); break; case O_EQ: r=Z3_mk_eq(ctx,A(),B()); break;
  case O_ULT: r=Z3_mk_bvult(ctx,A(),B());break; case O_ULE: r=Z3_mk_bvule(ctx,A(),B());break; case O_SLT: r=Z3_mk_bvslt(ctx,A(),B());break; case O_SLE: r=Z3_mk_bvsle(ctx,A(),B());break;
  case O_RCMP:{ Z3_ast p=zpoly(*e->poly),z=Z3_mk_numeral(ctx,"0",Z3_mk_real_sort(ctx)); r=e->c==0?Z3_mk_lt(ctx,p,z):e->c==1?Z3_mk_le(ctx,p,z):Z3_mk_eq(ctx,p,z); break; }
  case O_ADD: r=Z3_mk_bvadd(ctx,A(),B());break; case O_SUB: r=Z3_mk_bvsub(ctx,A(),B());break; case O_MUL: r=Z3_mk_bvmul(ctx,A(),B());break; case O_UDIV: r=Z3_mk_bvudiv(ctx,A(),B());break; case O_SDIV: r=Z3_mk_bvsdiv(ctx,A(),B());break; case O_UREM: r=Z3_mk_bvurem(ctx,A(),B());break; case O_SREM: r=Z3_mk_bvsrem(ctx,A(),B());break; case O_SHL: r=Z3_mk_bvshl(ctx,A(),B());break; case O_LSHR: r=Z3_mk_bvlshr(ctx,A(),B());break; case O_ASHR: r=Z3_mk_bvashr(ctx,A(),B());break; case O_BAND: r=Z3_mk_bvand(ctx,A(),B());break; case O_BOR: r=Z3_mk_bvor(ctx,A(),B());break; case O_BXOR: r=Z3_mk_bvxor(ctx,A(),B());break;
  case O_ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->k[0]->w,A());break; case O_SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->k[0]->w,A());break; case O_EXTRACT: r=Z3_mk_extract(ctx,e->c+e->w-1,e->c,A());break; case O_CONCAT: r=Z3_mk_concat(ctx,A(),B());break;
  case O_FADD: r=Z3_mk_fpa_add(ctx,rm(),A(),B());break; case O_FSUB: r=Z3_mk_fpa_sub(ctx,rm(),A(),B());break; case O_FMUL: r=Z3_mk_fpa_mul(ctx,rm(),A(),B());break; case O_FDIV: r=Z3_mk_fpa_div(ctx,rm(),A(),B());break; case O_FNEG: r=Z3_mk_fpa_neg(ctx,A());break; case O_FABS: r=Z3_mk_fpa_abs(ctx,A());break; case O_FSQRT: r=Z3_mk_fpa_sqrt(ctx,rm(),A());break;
  case O_FEQ: r=Z3_mk_fpa_eq(ctx,A(),B());break; case O_FLT: r=Z3_mk_fpa_lt(ctx,A(),B());break; case O_FLE: r=Z3_mk_fpa_leq(ctx,A(),B());break; case O_FNAN: r=Z3_mk_fpa_is_nan(ctx,A());break; case O_FINF: r=Z3_mk_fpa_is_infinite(ctx,A());break; case O_FZERO: r=Z3_mk_fpa_is_zero(ctx,A());break; case O_FNEGSIGN: r=Z3_mk_fpa_is_negative(ctx,A());break;
  case O_FROUND32: r=Z3_mk_fpa_to_fp_float(ctx,rm(),Z3_mk_fpa_to_fp_float(ctx,rm(),A(),Z3_mk_fpa_sort_single(ctx)),Z3_mk_fpa_sort_double(ctx));break;
  case O_FTOI: r=Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),A(),e->w);break;
  default: fprintf(stderr,"tr: bad op %d\n",e->op); abort(); }
  e->zgen=zgen; return e->z=r; }

enum Res{ R_UNSAT,R_SAT,R_UNKNOWN };
struct Model { std::vector<std::pair<uint32_t,Val>> v; };
struct CacheEnt{ Res r; Model m; };
static std::map<std::vector<uint32_t>,CacheEnt> qcache;
static std::string lastZ3Err;
static void z3err(Z3_context c,Z3_error_code e){ lastZ3Err=Z3_get_error_msg(c,e); }

static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static int g_mode=0;
static bool getQ(Z3_model m,Z3_ast v,mpq_class&q){ Z3_ast r; if(!Z3_model_eval(ctx,m,v,true,&r)) return false; if(Z3_is_algebraic_number(ctx,r)) r=Z3_get_algebraic_number_lower(ctx,r,12); const char*s=Z3_get_numeral_string(ctx,r); if(!s||!*s) return false; q=mpq_class(s); q.canonicalize(); return true; }
static unsigned qTimeoutMs=90000; static bool qQuick=false; // qQuick: small limits, an undecided query is not cached
static Z3_solver incS=nullptr; static size_t incN=0; static std::unordered_map<Expr*,Z3_ast> incLit; static std::set<uint32_t> incDom;
// the terms z3 keeps are released by starting over with a fresh context (the expressions are translated again on demand)
static void freshZ3(){ if(incS) Z3_solver_dec_ref(ctx,incS); incS=nullptr; incN=0; incLit.clear(); incDom.clear(); varZ.clear(); ++zgen; if(ctx) Z3_del_context(ctx);
  Z3_config c=Z3_mk_config(); ctx=Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(ctx,z3err); }
static Z3_solver tacticSolver(const char*n){ Z3_tactic t=Z3_mk_tactic(ctx,n); if(!t){ freshZ3(); t=Z3_mk_tactic(ctx,n); if(!t) return Z3_mk_simple_solver(ctx); } Z3_tactic_inc_ref(ctx,t); Z3_solver s=Z3_mk_solver_from_tactic(ctx,t); Z3_tactic_dec_ref(ctx,t); return s; }
static Res solve(const std::vector<Expr*>&cs,Model&m){
  std::vector<uint32_t> key; for(auto*c:cs) key.push_back(c->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=qcache.find(key); if(it!=qcache.end()){ st.cachehits++; m=it->second.m; return it->second.r; }
  static unsigned nsolve=0; if(++nsolve%64==0&&Z3_get_estimated_alloc_size()>(700ull<<20)) freshZ3();
  double t0=now(); const std::vector<uint32_t>*vs=vsIntern({}); for(auto*c:cs) vs=vsUnion(vs,c->vars);
  bool real=false,bv=false,fp=false; for(auto v:*vs){ if(vars[v].k==V_REAL||vars[v].k==V_SQRT) real=true; else if(vars[v].k==V_FP) fp=true; else bv=true; }
  auto build=[&](Z3_solver s){
    for(auto*c:cs) Z3_solver_assert(ctx,s,tr(c));
    for(auto v:*vs){ if(vars[v].k==V_INT&&(uint64_t)(vars[v].hi-vars[v].lo)<mask(vars[v].w)) Z3_solver_assert(ctx,s,Z3_mk_bvule(ctx,zvar(v),Z3_mk_unsigned_int64(ctx,vars[v].hi-vars[v].lo,bvS(vars[v].w))));
      if(vars[v].k==V_SQRT){ Z3_ast z=Z3_mk_numeral(ctx,"0",Z3_mk_real_sort(ctx)); Z3_solver_assert(ctx,s,Z3_mk_ge(ctx,zvar(v),z)); Z3_ast mm[2]={zvar(v),zvar(v)}; Z3_solver_assert(ctx,s,Z3_mk_eq(ctx,Z3_mk_mul(ctx,2,mm),zpoly(vars[v].arg))); } } };
  Res r=R_UNKNOWN;
  auto extractModel=[&](Z3_solver s){ Z3_model mo=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,mo);
      for(auto v:*vs){ if(vars[v].k==V_SQRT) continue; Val x; x.set=true; if(vars[v].k==V_REAL){ if(!getQ(mo,zvar(v),x.q)) x.set=false; } else { Z3_ast a; Z3_model_eval(ctx,mo,zvar(v),true,&a); if(vars[v].k==V_BOOL) x.u=Z3_get_bool_value(ctx,a)==Z3_L_TRUE; else { uint64_t u=0; Z3_get_numeral_uint64(ctx,a,&u); x.u=u; } } if(x.set) m.v.push_back({v,x}); }
      Z3_model_dec_ref(ctx,mo); };
  if(!real&&!fp){ // one persistent incremental solver; constraints are switched on by assumption literals
    if(!incS||incN>3000){ if(incS) Z3_solver_dec_ref(ctx,incS); incS=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,incS); Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),rlimitBV); Z3_solver_set_params(ctx,incS,p); Z3_params_dec_ref(ctx,p); incN=0; incLit.clear(); incDom.clear(); }
    for(auto v:*vs) if(vars[v].k==V_INT&&incDom.insert(v).second&&(uint64_t)(vars[v].hi-vars[v].lo)<mask(vars[v].w)) Z3_solver_assert(ctx,incS,Z3_mk_bvule(ctx,zvar(v),Z3_mk_unsigned_int64(ctx,vars[v].hi-vars[v].lo,bvS(vars[v].w))));
    std::vector<Z3_ast> as; for(auto*c:cs){ auto f=incLit.find(c); if(f==incLit.end()){ Z3_ast l=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,("!a"+std::to_string(c->id)).c_str()),Z3_mk_bool_sort(ctx)); Z3_solver_assert(ctx,incS,Z3_mk_implies(ctx,l,tr(c))); incN++; f=incLit.emplace(c,l).first; } as.push_back(f->second); }
    Z3_lbool b=Z3_solver_check_assumptions(ctx,incS,as.size(),as.data());
    if(b==Z3_L_FALSE) r=R_UNSAT; else if(b==Z3_L_TRUE){ r=R_SAT; extractModel(incS); }
  } else
  for(int att=0;att<2&&r==R_UNKNOWN;++att){
    Z3_solver s;
    if(real&&!bv&&!fp){ if(att==0)s=tacticSolver("qfnra-nlsat"); else s=Z3_mk_simple_solver(ctx); }
    else if(fp){ if(att==1) break; s=tacticSolver("qffp"); }
    else { if(att==1) break; s=Z3_mk_simple_solver(ctx); }
    Z3_solver_inc_ref(ctx,s);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),(real?(att==0?rlimitReal:rlimitReal/4):rlimitBV)/(qQuick?10:1)); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),qQuick?std::min(qTimeoutMs,4000u):qTimeoutMs); if(att==1) Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"arith.solver"),6); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
    build(s); Z3_lbool b=Z3_solver_check(ctx,s);
    if(b==Z3_L_FALSE) r=R_UNSAT; else if(b==Z3_L_TRUE){ r=R_SAT; extractModel(s); }
    Z3_solver_dec_ref(ctx,s);
  }
  double dt=now()-t0; st.solver_s+=dt; st.queries++; if(r==R_SAT) st.sat++; else if(r==R_UNSAT) st.unsat++; else st.unknown++;
  if(getenv("SYM_SLOWQ")&&dt>atof(getenv("SYM_SLOWQ"))){ fprintf(stderr,"slow query %.2fs res %d constraints %zu vars %zu real%d fp%d\n",dt,r,cs.size(),vs->size(),real,fp); if(getenv("SYM_SLOWDUMP")) for(auto*c:cs) fprintf(stderr,"   %s\n",Z3_ast_to_string(ctx,tr(c))); }
  if(!(qQuick&&r==R_UNKNOWN)) qcache[key]={r,m}; return r; }

// ---------------------------------------------------------------- path state
enum DK:uint8_t{ D_BR,D_EQ,D_NEQ };
struct Dec{ DK k; bool dir; bool implied; uint64_t v; };
struct Item{ std::vector<Dec> pre; std::vector<std::pair<std::string,Val>> in; int skipAssume=0; std::vector<Expr*> later; }; // later: constraints whose feasibility is still to be decided
static std::deque<Item> work;
static std::vector<Dec> trace; static size_t pos; static Item curItem; static int assumesSeen;
static std::vector<Expr*> pc; static std::unordered_map<Expr*,bool> known; static std::unordered_map<Expr*,uint64_t> concd;
static std::set<uint32_t> fixedV; static std::vector<uint32_t> pathVars; // order of creation in this path
static std::map<std::string,int> nameCount;
static jmp_buf jb; static int pathEnd; // 1 ok 2 cut 3 violation
static bool pathInc;
static char*shm; static size_t shmN=1<<20;
static long decLimit=200000; 

struct Viol{ std::string label; std::vector<std::string> inputs; };
static std::vector<Viol> viols;

static std::string inputsText(){ std::string s; char b[256]; for(auto v:pathVars){ auto&V=vars[v]; if(V.k==V_INT) snprintf(b,256,"i %s %ld\n",V.name.c_str(),(long)(cur[v].u+V.lo)); else if(V.k==V_BOOL) snprintf(b,256,"b %s %d\n",V.name.c_str(),(int)cur[v].u); else if(V.k==V_REAL) snprintf(b,256,"r %s %a\n",V.name.c_str(),cur[v].q.get_d()); else if(V.k==V_FP) snprintf(b,256,"r %s %a\n",V.name.c_str(),asD(cur[v].u)); s+=b; if(V.k==V_FP&&std::isnan(asD(cur[v].u))){} } return s; }
static void shmWrite(){ std::string s=inputsText(); size_t n=std::min(s.size(),shmN-16); memcpy(shm+8,s.data(),n); shm[8+n]=0; }

static void inconclusive(const std::string&why){ st.inconclusive++; incReasons[why]++; pathInc=true; }
extern "C" { void (*sym_on_end)()=nullptr; void (*sym_after_end)()=nullptr; } // a harness that runs on stacks of its own says how to leave them
static void endPath(int how){ pathEnd=how; in_rt=false; if(sym_on_end) sym_on_end(); if(__asan_handle_no_return) __asan_handle_no_return(); longjmp(jb,1); }

static void sliceFor(const std::vector<uint32_t>*vs,std::vector<Expr*>&out){
  std::vector<char> used(pc.size(),0); bool ch=true; std::set<uint32_t> cl(vs->begin(),vs->end());
  auto hit=[&](Expr*e){ for(auto v:*e->vars) if(cl.count(v)) return true; return false; };
  while(ch){ ch=false; for(size_t i=0;i<pc.size();++i) if(!used[i]&&hit(pc[i])){ used[i]=1; out.push_back(pc[i]); for(auto v:*pc[i]->vars) if(cl.insert(v).second) ch=true; } } }
static Res feasible(Expr*c,Model&m){ if(isC(c)) return c->c?R_SAT:R_UNSAT; std::vector<Expr*> cs; cs.push_back(c); sliceFor(c->vars,cs); return solve(cs,m); }
static void splitPc(Expr*c){ // conjunctions split
  if(isC(c)) return; if(c->op==O_AND){ splitPc(c->k[0]); splitPc(c->k[1]); return; }
  if(c->op==O_NOT&&c->k[0]->op==O_OR){ splitPc(bNot(c->k[0]->k[0])); splitPc(bNot(c->k[0]->k[1])); return; }
  if(c->op==O_NOT){ if(!known.emplace(c->k[0],false).second) return; } else if(!known.emplace(c,true).second) return;
  pc.push_back(c); if((long)pc.size()>st.maxpc) st.maxpc=pc.size();
  if(c->op==O_VAR) fixedV.insert(c->c); else if(c->op==O_NOT&&c->k[0]->op==O_VAR) fixedV.insert(c->k[0]->c); else if(c->op==O_EQ){ if(c->k[0]->op==O_VAR&&isC(c->k[1])) fixedV.insert(c->k[0]->c); else if(c->k[1]->op==O_VAR&&isC(c->k[0])) fixedV.insert(c->k[1]->c); } }
static bool allFixed(Expr*e){ if(e->vars->size()>fixedV.size()) return false; for(auto v:*e->vars) if(!fixedV.count(v)) return false; return true; }
static Item mkItem(const Model&m){ Item it; it.pre=trace; it.in.clear(); std::map<uint32_t,const Val*> mm; for(auto&x:m.v) mm[x.first]=&x.second; for(auto v:pathVars){ auto f=mm.find(v); it.in.push_back({vars[v].name,f==mm.end()?cur[v]:*f->second}); } return it; }

static int brokenState; // -1 not known yet
static bool inputsBroken(){ if(brokenState<0){ brokenState=0; for(auto*c:pc) if(!evalBool(c)){ brokenState=1; break; } } return brokenState==1; }
static bool decide(Expr*c,bool hint,int site){
  if(isC(c)) return c->c;
  if(opq(c)){ inconclusive("branch on a value the engine cannot represent, at "+(site>=0&&site<(int)siteTab.size()?siteTab[site]:std::string("?"))); return hint; }
  if(c->op==O_NOT) return !decide(c->k[0],!hint,site);
  auto kn=known.find(c); if(kn!=known.end()) return kn->second;
  st.branches++;
  if((long)trace.size()>decLimit){ inconclusive("decision limit per path"); endPath(2); }
  if(pos<curItem.pre.size()){ Dec d=curItem.pre[pos++]; if(d.k!=D_BR){ inconclusive("prefix mismatch (branch)"); endPath(2);} trace.push_back(d); if(!d.implied) splitPc(d.dir?c:bNot(c)); else known[c]=d.dir; return d.dir; }
  bool dir=hint; if(g_mode==0&&!c->vars->empty()) dir=evalBool(c);
  Model m; Res r;
  if(!fixedV.empty()&&allFixed(c)){ dir=evalBool(c); r=R_UNSAT; st.fixedimp++; } // every variable pinned to a constant by the path condition
  else { qQuick=true; r=feasible(dir?bNot(c):c,m); qQuick=false; }
  if(r==R_UNSAT){ st.implied++; trace.push_back({D_BR,dir,true,0}); pos=trace.size(); known[c]=dir; return dir; }
  // the inputs of this path may only approximate a solution (irrational model values): then the direction they suggest may be infeasible
  if(g_mode==0&&inputsBroken()){ Model m2; qQuick=true; Res r2=feasible(dir?c:bNot(c),m2); qQuick=false; if(r2==R_UNSAT){ dir=!dir; st.implied++; trace.push_back({D_BR,dir,true,0}); pos=trace.size(); known[c]=dir; return dir; } }
  st.forks++; siteForks[site]++;
  Item it=mkItem(r==R_SAT?m:Model()); it.pre.push_back({D_BR,!dir,false,0}); it.skipAssume=assumesSeen;
  if(r==R_UNKNOWN){ Expr*n=dir?bNot(c):c; it.later.push_back(n); sliceFor(n->vars,it.later); st.deferred++; work.push_front(std::move(it)); } else work.push_back(std::move(it));
  trace.push_back({D_BR,dir,false,0}); pos=trace.size(); splitPc(dir?c:bNot(c)); return dir; }

static uint64_t concretizeE(Expr*e,uint64_t conc,int site){
  if(isC(e)) return e->c; if(e->s==SBOOL) return decide(e,conc&1,site);
  if(e->s!=SBV){ inconclusive("address/size depends on a non-integer symbolic value at "+(site>=0&&site<(int)siteTab.size()?siteTab[site]:"?")); return conc; }
  if(g_mode==0&&e->op==O_ITE&&isC(e->k[1])&&isC(e->k[2])) return decide(e->k[0],(conc&mask(e->w))==e->k[1]->c,site)?e->k[1]->c:e->k[2]->c;
  auto f=concd.find(e); if(f!=concd.end()) return f->second;
  st.branches++;
  while(pos<curItem.pre.size()){ Dec d=curItem.pre[pos++]; trace.push_back(d); Expr*q=eq(e,bvc(d.v,e->w)); if(d.k==D_BR){ inconclusive("prefix mismatch (value)"); endPath(2);} if(d.k==D_NEQ){ splitPc(bNot(q)); continue; } if(!d.implied) splitPc(q); concd[e]=d.v; return d.v; }
  uint64_t v=conc&mask(e->w); Expr*q=eq(e,bvc(v,e->w)); bool imp=true;
  if(!isC(q)){ Model m; Res r; if(!fixedV.empty()&&allFixed(q)){ r=R_UNSAT; st.fixedimp++; } else r=feasible(bNot(q),m); if(r!=R_UNSAT){ imp=false; st.forks++; siteForks[site]++; Item it=mkItem(r==R_SAT?m:Model()); it.pre.push_back({D_NEQ,false,false,v}); it.skipAssume=assumesSeen; if(r==R_SAT) work.push_back(std::move(it)); else inconclusive("unknown at concretization"); } else st.implied++; }
  trace.push_back({D_EQ,true,imp,v}); pos=trace.size(); if(!imp) splitPc(q); concd[e]=v; return v; }

// exact nonzero/sign decisions for reals
static int decideSign(const Poly&p,int site){ if(p.isconst()) return sgn(p.constant()); if(decide(rcmp(2,p),false,site)) return 0; return decide(rcmp(0,p),false,site)?-1:1; }
static bool decideZero(const Poly&p,int site){ if(p.isconst()) return p.zero(); return decide(rcmp(2,p),false,site); }
static int ratSign(const Rat&r,int site){ int s=decideSign(r.n,site); if(!s) return 0; for(auto&f:r.d) if(f.second&1) s*=decideSign(facs[f.first],site); return s; }

struct RV{ bool sp; double d; Rat r; bool bad=false; };
static RV rv(Expr*e,double c){ RV x; x.sp=false; if(!e){ if(!std::isfinite(c)){x.sp=true;x.d=c;} else x.r=ratd(c); return x; } if(e->s==SSPEC){ x.sp=true;x.d=asD(e->c); return x;} if(e->s==SREAL){ x.r=*e->rat; return x; } x.bad=true; return x; }
static Expr* fromD(double d){ if(std::isfinite(d)) return mkRat(ratd(d)); return spec(d); }

static Expr* fpE(Expr*e,double c){ if(!e) return mk(SFP,O_CONST,64,nullptr,nullptr,nullptr,asU(c)); if(e->s==SSPEC) return mk(SFP,O_CONST,64,nullptr,nullptr,nullptr,e->c); if(e->s==SFP) return e; return nullptr; }
static Expr* fpop(Op o,Expr*a,Expr*b=nullptr){ Expr*e=mk(SFP,o,64,a,b); if(isC(a)&&(!b||isC(b))) return mk(SFP,O_CONST,64,nullptr,nullptr,nullptr,asU(evalFP(e))); return e; }

static Expr* realDiv(const RV&x,const RV&y,int site){
  if(decideZero(y.r.n,site)){ int s=ratSign(x.r,site); return spec(s==0?NAN:s>0?INFINITY:-INFINITY); }
  return mkRat(ratMul(x.r,ratInv(y.r))); }

// expressions of this path that are nonnegative by construction: squares, roots, and their sums, products and quotients
static std::unordered_set<Expr*> nneg;
static bool isNN(Expr*e,double c){ return e?nneg.count(e)>0:(c>=0&&std::isfinite(c)); }
static Expr* rbin_(unsigned op,Expr*a,Expr*b,double ca,double cb,int site);
static Expr* rbin(unsigned op,Expr*a,Expr*b,double ca,double cb,int site){
  Expr*e=rbin_(op,a,b,ca,cb,site); if(!e||e->s!=SREAL||op==16) return e;
  if((op==18&&a&&a==b)||((op==14||op==18||op==21)&&isNN(a,ca)&&isNN(b,cb))) nneg.insert(e);
  return e; }
static Expr* rbin_(unsigned op,Expr*a,Expr*b,double ca,double cb,int site){
  enum{FAdd=14,FSub=16,FMul=18,FDiv=21,FRem=24};
  try{
  if(opq(a)||opq(b)) return OPQ();
  if((a&&(a->s==SBV||a->s==SBOOL))||(b&&(b->s==SBV||b->s==SBOOL))) return OPQ();
  if(g_mode==1){ Expr*x=fpE(a,ca),*y=fpE(b,cb); if(!x||!y) return OPQ(); switch(op){case FAdd:return fpop(O_FADD,x,y);case FSub:return fpop(O_FSUB,x,y);case FMul:return fpop(O_FMUL,x,y);case FDiv:return fpop(O_FDIV,x,y);default:return OPQ();} }
  RV x=rv(a,ca),y=rv(b,cb); if(x.bad||y.bad) return OPQ();
  if(!x.sp&&!y.sp){ switch(op){ case FAdd:return mkRat(ratAdd(x.r,y.r,1)); case FSub:return mkRat(ratAdd(x.r,y.r,-1)); case FMul:return mkRat(ratMul(x.r,y.r)); case FDiv:return realDiv(x,y,site); default:return OPQ(); } }
  auto rep=[&](RV&v,bool needSign)->double{ if(v.sp) return v.d; if(!needSign) return 1.0; int s=ratSign(v.r,site); return s; };
  bool ns=op==FMul||op==FDiv; 
  if((x.sp&&std::isnan(x.d))||(y.sp&&std::isnan(y.d))) return spec(NAN);
  double p=rep(x,ns),q=rep(y,ns); double r; switch(op){case FAdd:r=p+q;break;case FSub:r=p-q;break;case FMul:r=p*q;break;case FDiv:r=p/q;break;default:return OPQ();}
  return fromD(r);
  }catch(PolyTooBig&){ st.toobig++; inconclusive("expression swell limit"); endPath(2); return nullptr; } }

static Expr* rsqrt(const Rat&r,int site,bool nn){
  if(r.n.zero()) return mkRat(ratc(0));
  int s=nn?1:ratSign(r,site); if(s<0) return spec(NAN); if(s==0) return mkRat(ratc(0));
  // sqrt(n/d), d = prod f^e ; pull out squares
  Rat out=ratc(1); Poly under=r.n; Rat den; den.n=pconst(1);
  for(auto&f:r.d){ unsigned h=f.second/2; if(f.second&1){ under=pmul(under,facs[f.first]); h++; } 
    int fs=1; if(h&1) fs=decideSign(facs[f.first],site); if(fs<0) den.n=pscale(den.n,-1); addFac(den,f.first,h); }
  Poly q; Rat top; 
  if(psqrt(under,q)){ top.n=q; int qs=decideSign(q,site); if(qs<0) top.n=pscale(q,-1); }
  else { // scale content: sqrt(c * p) with c = square part kept simple
    uint32_t id=~0u; for(uint32_t v=0;v<vars.size();++v) if(vars[v].k==V_SQRT&&vars[v].arg==under){ id=v;break; }
    if(id==~0u){ Var v; v.k=V_SQRT; v.name="sqrt"+std::to_string(vars.size()); v.lo=v.hi=0;v.w=0; v.arg=under; vars.push_back(v); cur.resize(vars.size()); id=vars.size()-1; g_sqrtArg[id]=under; }
    top.n=pvar(id); }
  return mkRat(ratMul(top,den)); }

// ---------------------------------------------------------------- shadow memory
struct Page{ uintptr_t e[4096]; uint32_t live; };
static Page**L2[1<<12]; // [bits 47..36] -> [24 bits 35..12]
static inline Page* page(uintptr_t a,bool create){ unsigned i=(a>>36)&0xfff; if(!L2[i]){ if(!create) return nullptr; L2[i]=(Page**)mmap(nullptr,sizeof(Page*)*(1u<<24),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); } Page*&p=L2[i][(a>>12)&0xffffff]; if(!p&&create) p=(Page*)mmap(nullptr,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); return p; }
static inline uintptr_t getE(uintptr_t a){ Page*p=page(a,false); return p?p->e[a&4095]:0; }
static inline void setE(uintptr_t a,uintptr_t v){ Page*p=page(a,v!=0); if(p) p->e[a&4095]=v; }
static std::vector<Page*> allPages;
static void clearRange(uintptr_t a,size_t n){ while(n){ size_t k=std::min<size_t>(n,4096-(a&4095)); if(Page*p=page(a,false)) memset(&p->e[a&4095],0,k*sizeof(uintptr_t)); a+=k;n-=k; } }
static Expr* byteOf(uintptr_t ent,uint8_t conc){ Expr*e=(Expr*)(ent&~15ull); unsigned off=ent&15; if(!e) return bvc(conc,8); if(e->s==SBOOL) return off==0?b2bv(e,8):bvc(0,8); if(e->s!=SBV) return nullptr; if(off*8>=e->w) return bvc(0,8); unsigned w=std::min<unsigned>(8,e->w-off*8); return zext(extract(e,off*8,w),8); }

extern "C" {
Expr* __sym_load(void*ptr,long n,int isfp){
  uintptr_t a=(uintptr_t)ptr; Page*p=page(a,false);
  if(((a&4095)+n)<=4096){ if(!p) return nullptr; bool any=false; for(long i=0;i<n;++i) if(p->e[(a&4095)+i]){any=true;break;} if(!any) return nullptr; }
  else { bool any=false; for(long i=0;i<n;++i) if(getE(a+i)){any=true;break;} if(!any) return nullptr; }
  RT rt; uintptr_t e0=getE(a); Expr*e=(Expr*)(e0&~15ull);
  if(e&&(e0&15)==0){ bool same=true; for(long i=1;i<n;++i) if(getE(a+i)!=((uintptr_t)e|i)){ same=false;break; }
    if(same){ if(e->s==SBV||e->s==SBOOL){ unsigned w=e->s==SBOOL?8:e->w; if((long)((w+7)/8)==n) return e->s==SBOOL?b2bv(e,8):e->w%8?zext(e,n*8):e; } else return e; } }
  if(n>8) return OPQ();
  Expr*r=nullptr; for(long i=0;i<n;++i){ Expr*b=byteOf(getE(a+i),((uint8_t*)ptr)[i]); if(!b) return OPQ(); r=r?concat(b,r):b; }
  if(isC(r)&&!isfp) return nullptr; if(isfp) return isC(r)?nullptr:OPQ(); return r; }
void __sym_store(void*ptr,long n,Expr*e){
  uintptr_t a=(uintptr_t)ptr; if(!e){ if((a&4095)+n<=4096){ Page*p=page(a,false); if(!p) return; for(long i=0;i<n;++i) p->e[(a&4095)+i]=0; } else clearRange(a,n); return; }
  RT rt; if(e->s==SBV&&(long)e->w<n*8) e=zext(e,n*8); if(e->s==SBOOL){ setE(a,(uintptr_t)e); for(long i=1;i<n;++i) setE(a+i,0); return; }
  for(long i=0;i<n&&i<16;++i) setE(a+i,(uintptr_t)e|i); }
void __sym_clear(void*p,long n){ if(n>0) clearRange((uintptr_t)p,n); }
void __sym_memmove(void*d,void*s,long n){ if(n<=0) return; uintptr_t a=(uintptr_t)d,b=(uintptr_t)s; 
  bool any=false; for(uintptr_t q=b&~4095ull;q<b+n;q+=4096) if(page(q,false)) any=true; if(!any){ clearRange(a,n); return; }
  if(a<=b) for(long i=0;i<n;++i) setE(a+i,getE(b+i)); else for(long i=n-1;i>=0;--i) setE(a+i,getE(b+i)); }
void __sym_byval(void*d,void*s,long n){ if(!s) clearRange((uintptr_t)d,n); else __sym_memmove(d,s,n); }
static void mhook(const volatile void*p,size_t n){ if(in_rt) return; clearRange((uintptr_t)p,n); }
static void fhook(const volatile void*){ }
static long enterCount=0;
void __sym_enter(int id){ if((size_t)id<fnHit.size()) fnHit[id]=1; }
void __sym_nosym(void*p,int site){ if(getE((uintptr_t)p)){ RT rt; inconclusive("C string function on symbolic bytes at "+siteTab[site]); } }

Expr* __sym_bin(int op,int w,Expr*a,Expr*b,uint64_t ca,uint64_t cb){
  if(!a&&!b) return nullptr; RT rt; if(opq(a)||opq(b)||w>64) return OPQ();
  enum{Add=13,Sub=15,Mul=17,UDiv=19,SDiv=20,URem=22,SRem=23,Shl=25,LShr=26,AShr=27,And=28,Or=29,Xor=30};
  auto conv=[&](Expr*e,uint64_t c)->Expr*{ if(!e) return w==1?bc(c&1):bvc(c,w); if(w==1){ if(e->s==SBOOL) return e; if(e->s==SBV) return bv2b(e); return nullptr; } if(e->s==SBOOL) return b2bv(e,w); if(e->s!=SBV) return nullptr; return e->w==w?e:e->w<w?zext(e,w):extract(e,0,w); };
  Expr*x=conv(a,ca),*y=conv(b,cb);
  if(!x||!y){ // integer operation on the bits of a floating value
    if(op==And&&b==nullptr&&a&&(a->s==SREAL)&&cb==0x7fffffffffffffffull) { return OPQ(); }
    return OPQ(); }
  Expr*r;
  if(w==1){ switch(op){ case And:case Mul:r=bAnd(x,y);break; case Or:r=bOr(x,y);break; case Xor:case Add:case Sub:r=bXor(x,y);break; default:return OPQ(); } }
  else switch(op){ case Add:r=bvbin(O_ADD,x,y);break;case Sub:r=bvbin(O_SUB,x,y);break;case Mul:r=bvbin(O_MUL,x,y);break;
    case UDiv:r=bvbin(O_UDIV,x,y);break;case SDiv:r=bvbin(O_SDIV,x,y);break;case URem:r=bvbin(O_UREM,x,y);break;case SRem:r=bvbin(O_SREM,x,y);break;
    case Shl:r=bvbin(O_SHL,x,y);break;case LShr:r=bvbin(O_LSHR,x,y);break;case AShr:r=bvbin(O_ASHR,x,y);break;
    case And: // and/or of ite(c,1,0) style booleans
      r=bvbin(O_BAND,x,y);break; case Or:r=bvbin(O_BOR,x,y);break; case Xor:r=bvbin(O_BXOR,x,y);break; default:return OPQ(); }
  return isC(r)?nullptr:r; }
Expr* __sym_icmp(int p,int w,Expr*a,Expr*b,uint64_t ca,uint64_t cb){
  if(!a&&!b) return nullptr; RT rt; if(opq(a)||opq(b)||w>64) return OPQ();
  auto conv=[&](Expr*e,uint64_t c)->Expr*{ if(!e) return w==1?bc(c&1):bvc(c,w); if(w==1) return e->s==SBOOL?e:e->s==SBV?bv2b(e):nullptr; if(e->s==SBOOL) return b2bv(e,w); if(e->s!=SBV) return nullptr; return e->w==w?e:e->w<w?zext(e,w):extract(e,0,w); };
  Expr*x=conv(a,ca),*y=conv(b,cb); 
  if(!x||!y) return OPQ(); Expr*r=nullptr;
  if(w==1&&p!=32&&p!=33){ x=b2bv(x,1); y=b2bv(y,1); }
  switch(p){ case 32:r=eq(x,y);break;case 33:r=bNot(eq(x,y));break;case 34:r=ult(y,x);break;case 35:r=ule(y,x);break;case 36:r=ult(x,y);break;case 37:r=ule(x,y);break;case 38:r=slt(y,x);break;case 39:r=bNot(slt(x,y));break;case 40:r=slt(x,y);break;case 41:r=bNot(slt(y,x));break;default:return OPQ(); }
  return r; }
Expr* __sym_cast(int op,Expr*a,int fw,int tw){ if(!a) return nullptr; RT rt; if(opq(a)||fw>64||tw>64) return OPQ(); Expr*r;
  if(a->s!=SBOOL&&a->s!=SBV) return fw==tw?a:OPQ();
  if(op==38){ if(a->s==SBOOL) a=b2bv(a,fw); if(tw==1) return bv2b(a); r=extract(a,0,tw); }
  else if(op==39){ r=a->s==SBOOL?b2bv(a,tw):fw==1?b2bv(bv2b(a),tw):zext(a,tw); }
  else { if(a->s==SBOOL||fw==1){ if(a->s!=SBOOL) a=bv2b(a); r=ite(a,bvc(~0ull,tw),bvc(0,tw)); } else r=sext(a,tw); }
  return isC(r)&&r->s==SBV?nullptr:r; }
Expr* __sym_fpcast(Expr*a,int fw,int tw){ if(!a) return nullptr; if(g_mode==0) return a; RT rt; if(a->s!=SFP) return OPQ(); if(tw<fw&&tw==32) return fpop(O_FROUND32,a); if(tw>64||fw>64) return OPQ(); return a; }
Expr* __sym_fptoi(Expr*a,int sg,int w,double c,int site){ if(!a) return nullptr; RT rt; if(g_mode==0&&a->s==SREAL&&ratIsC(*a->rat)) { mpz_class z; mpq_class q=a->rat->n.constant(); mpz_tdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return bvc((uint64_t)z.get_si(),w); } if(g_mode==1&&a->s==SFP) return mk(SBV,O_FTOI,w,a); return OPQ(); }
Expr* __sym_fneg(Expr*a){ if(!a) return nullptr; RT rt; if(opq(a)) return a; if(a->s==SSPEC) return spec(-asD(a->c)); if(a->s==SFP) return fpop(O_FNEG,a); if(a->s==SREAL){ Rat r=*a->rat; r.n=pscale(r.n,-1); return mkRat(std::move(r)); } return OPQ(); }
Expr* __sym_fbin(int op,Expr*a,Expr*b,double ca,double cb){ if(!a&&!b) return nullptr; RT rt; return rbin(op,a,b,ca,cb,-1); }
Expr* __sym_fcmp(int p,Expr*a,Expr*b,double ca,double cb){ if(!a&&!b) return nullptr; RT rt; if(opq(a)||opq(b)) return OPQ();
  bool uno=p>=8; int q=p&7; // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 ord(/uno=8)
  if(g_mode==1){ Expr*x=fpE(a,ca),*y=fpE(b,cb); if(!x||!y) return OPQ(); Expr*nan=bOr(isC(x)?bc(std::isnan(asD(x->c))):mk(SBOOL,O_FNAN,1,x),isC(y)?bc(std::isnan(asD(y->c))):mk(SBOOL,O_FNAN,1,y));
    auto cmp=[&](Op o,Expr*u,Expr*v){ Expr*e=mk(SBOOL,o,1,u,v); if(isC(u)&&isC(v)) return bc(evalBool(e)); return e; };
    Expr*r; switch(q){case 0:r=bc(false);break;case 1:r=cmp(O_FEQ,x,y);break;case 2:r=cmp(O_FLT,y,x);break;case 3:r=cmp(O_FLE,y,x);break;case 4:r=cmp(O_FLT,x,y);break;case 5:r=cmp(O_FLE,x,y);break;case 6:r=bAnd(bNot(nan),bNot(cmp(O_FEQ,x,y)));break;default:r=bNot(nan);} 
    if(p==7) return bNot(nan); if(p==8) return nan; if(p==15) return bc(true); if(uno) r=(q==6)?bNot(cmp(O_FEQ,x,y)):bOr(nan,r); return r; }
  try{ RV x=rv(a,ca),y=rv(b,cb); if(x.bad||y.bad) return OPQ(); if(p==0) return bc(false); if(p==15) return bc(true);
  bool nan=(x.sp&&std::isnan(x.d))||(y.sp&&std::isnan(y.d)); if(p==7) return bc(!nan); if(p==8) return bc(nan); if(nan) return bc(uno);
  if(x.sp||y.sp){ double u=x.sp?x.d:0,v=y.sp?y.d:0; bool r=false; switch(q){case 1:r=u==v;break;case 2:r=u>v;break;case 3:r=u>=v;break;case 4:r=u<v;break;case 5:r=u<=v;break;case 6:r=u!=v;break;} return bc(r); }
  Rat d; 
  d=ratAdd(x.r,y.r,-1); Poly P=d.n; if(q==1) return rcmp(2,P); if(q==6) return bNot(rcmp(2,P));
  for(auto&f:d.d) if(f.second&1) P=pmul(P,facs[f.first]);
  switch(q){ case 4:return rcmp(0,P); case 5:return rcmp(1,P); case 2:return bNot(rcmp(1,P)); case 3:return bNot(rcmp(0,P)); }
  }catch(PolyTooBig&){ st.toobig++; inconclusive("expression swell limit"); endPath(2);} 
  return OPQ(); }
Expr* __sym_fpclass(Expr*a,int m){ if(!a) return nullptr; RT rt; if(opq(a)) return a; enum{SN=1,QN=2,NI=4,NN=8,NS=16,NZ=32,PZ=64,PS=128,PN=256,PI=512};
  if(a->s==SREAL){ if(!(m&(3|NI|PI))) { if((m&(NN|NS|NZ|PZ|PS|PN))==(NN|NS|NZ|PZ|PS|PN)) return bc(true);} else if((m&~(3|NI|PI))==0) return bc(false); else if((m&(NN|NS|NZ|PZ|PS|PN))==(NN|NS|NZ|PZ|PS|PN)) return bc(true); 
    // sign / zero classes
    Poly n=a->rat->n; for(auto&f:a->rat->d) if(f.second&1) n=pmul(n,facs[f.first]); Expr*r=bc(false); if(m&(NN)) r=bOr(r,rcmp(0,n)); if(m&PN) r=bOr(r,bNot(rcmp(1,n))); if(m&PZ) r=bOr(r,rcmp(2,n)); return r; }
  if(a->s==SSPEC){ double d=asD(a->c); bool r=std::isnan(d)?(m&3):d>0?(m&PI):(m&NI); return bc(r); }
  if(a->s==SFP){ Expr*nan=mk(SBOOL,O_FNAN,1,a),*inf=mk(SBOOL,O_FINF,1,a),*neg=mk(SBOOL,O_FNEGSIGN,1,a),*z=mk(SBOOL,O_FZERO,1,a); Expr*r=bc(false); if(m&3) r=bOr(r,nan); if(m&NI) r=bOr(r,bAnd(inf,neg)); if(m&PI) r=bOr(r,bAnd(inf,bAnd(bNot(neg),bNot(nan)))); if(m&NZ) r=bOr(r,bAnd(z,neg)); if(m&PZ) r=bOr(r,bAnd(z,bNot(neg))); int fm=m&(NN|NS|PN|PS); if(fm==(NN|NS|PN|PS)) r=bOr(r,bAnd(bNot(nan),bAnd(bNot(inf),bNot(z)))); else if(fm) return OPQ(); return r; }
  return OPQ(); }
Expr* __sym_fun1(int k,Expr*a,double c,int site){ if(!a) return nullptr; RT rt; if(opq(a)) return a; try{
  if(a->s==SSPEC){ double d=asD(a->c); return fromD(k==0?fabs(d):k==1?sqrt(d):d); }
  if(a->s==SFP){ if(k==0) return fpop(O_FABS,a); if(k==1) return fpop(O_FSQRT,a); inconclusive("fp function at "+siteTab[site]); return OPQ(); }
  if(a->s==SREAL){ if(k==0){ if(nneg.count(a)) return a; int s=ratSign(*a->rat,site); Expr*r=s>=0?a:__sym_fneg(a); nneg.insert(r); return r; } if(k==1){ Expr*r=rsqrt(*a->rat,site,nneg.count(a)>0); if(r&&r->s==SREAL) nneg.insert(r); return r; }
    if((k==2||k==3)&&ratIsC(*a->rat)){ mpq_class q=a->rat->n.constant(); mpz_class z; if(k==2) mpz_fdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); else mpz_cdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return mkRat(ratc(mpq_class(z))); } }
  }catch(PolyTooBig&){ st.toobig++; inconclusive("expression swell limit"); endPath(2);} 
  return OPQ(); }
Expr* __sym_fun2(int k,Expr*a,Expr*b,double ca,double cb,int site){ if(!a&&!b) return nullptr; RT rt; if(opq(a)||opq(b)) return OPQ(); 
  if(k==4&&g_mode==0){ Expr*x=rbin(18,a,a,ca,ca,site),*y=rbin(18,b,b,cb,cb,site); if(!x) x=fromD(ca*ca); if(!y) y=fromD(cb*cb); Expr*s=rbin(14,x,y,0,0,site); return __sym_fun1(1,s,0,site); }
  if(k==3&&g_mode==0){ auto num=[](Expr*e,double c,double&o){ if(!e){ o=c; return true; } if(e->s==SSPEC){ o=asD(e->c); return true; } if(e->s==SREAL&&ratIsC(*e->rat)){ o=e->rat->n.constant().get_d(); return true; } return false; }; double x,y; if(num(a,ca,x)&&num(b,cb,y)){ double r=pow(x,y); if(std::isnan(r)||std::isinf(r)||r==0||r==1) return fromD(r); } }
  if(k==3&&g_mode==0&&!b&&cb==(int)cb&&cb>=0&&cb<8){ Expr*r=mkRat(ratc(1)); for(int i=0;i<(int)cb;++i) r=rbin(18,r,a,0,ca,site); return r; }
  if(k==3&&g_mode==0&&!b&&cb==-1) return rbin(21,mkRat(ratc(1)),a,1,ca,site);
  if(k<=1){ Expr*c=__sym_fcmp(k==0?4:2,a,b,ca,cb); if(opq(c)) return c; if(g_mode==1){ Expr*x=fpE(a,ca),*y=fpE(b,cb); Expr*yn=isC(y)?bc(std::isnan(asD(y->c))):mk(SBOOL,O_FNAN,1,y); Expr*cc=bOr(c,yn); return isC(cc)?(cc->c?x:y):mk(SFP,O_ITE,64,cc,x,y); }
    bool d=decide(c,k==0?ca<cb:ca>cb,site); Expr*r=d?a:b; return r?r:fromD(d?ca:cb); }
  return OPQ(); }
Expr* __sym_cplx(int k,Expr*a,Expr*b,Expr*c,Expr*d,double ca,double cb,double cc,double cd,int site){ if(!a&&!b&&!c&&!d) return nullptr; RT rt; if(g_mode==1) return OPQ();
  auto L=[&](Expr*e,double v){ return e?e:fromD(v); }; a=L(a,ca);b=L(b,cb);c=L(c,cc);d=L(d,cd);
  auto mul=[&](Expr*x,Expr*y){return rbin(18,x,y,0,0,site);}; auto add=[&](Expr*x,Expr*y){return rbin(14,x,y,0,0,site);}; auto sub=[&](Expr*x,Expr*y){return rbin(16,x,y,0,0,site);};
  if(k==0) return sub(mul(a,c),mul(b,d)); if(k==1) return add(mul(a,d),mul(b,c));
  Expr*den=add(mul(c,c),mul(d,d)); Expr*num=k==2?add(mul(a,c),mul(b,d)):sub(mul(b,c),mul(a,d)); return rbin(21,num,den,0,0,site); }
Expr* __sym_minmax(int p,int w,Expr*a,Expr*b,uint64_t ca,uint64_t cb){ if(!a&&!b) return nullptr; RT rt; if(opq(a)||opq(b)) return OPQ(); Expr*c=__sym_icmp(p,w,a,b,ca,cb); if(!c) return nullptr; auto conv=[&](Expr*e,uint64_t v){ return e?(e->s==SBOOL?b2bv(e,w):e):bvc(v,w); }; if(opq(c)) return c; return ite(c,conv(a,ca),conv(b,cb)); }
Expr* __sym_iabs(int w,Expr*a){ if(!a) return nullptr; RT rt; if(opq(a)||a->s!=SBV) return OPQ(); return ite(slt(a,bvc(0,w)),bvbin(O_SUB,bvc(0,w),a),a); }
Expr* __sym_ovf(int k,int w,Expr*a,Expr*b,uint64_t ca,uint64_t cb){ if(!a&&!b) return nullptr; RT rt; if(opq(a)||opq(b)||w>64) return OPQ(); Expr*x=a?a:bvc(ca,w),*y=b?b:bvc(cb,w);
  switch(k){ case 0:return ult(bvbin(O_ADD,x,y),x); case 2:return ult(x,y); case 4:{ if(isC(y)) { if(y->c==0) return bc(false); return ult(bvc(mask(w)/y->c,w),x); } if(isC(x)) { if(x->c==0) return bc(false); return ult(bvc(mask(w)/x->c,w),y);} uint64_t ux=umax(x),uy=umax(y); if((unsigned __int128)ux*uy<=mask(w)) return bc(false); return OPQ(); } 
   default:{ uint64_t ux=umax(x),uy=umax(y); if(ux<(1ull<<30)&&uy<(1ull<<30)) return bc(false); return OPQ(); } } }
Expr* __sym_ext(Expr*a,int site){ if(!a) return nullptr; RT rt; if(a->s==SBOOL||a->s==SBV||a->s==SREAL||a->s==SFP||a->s==SSPEC||a->s==SOPAQUE){ if(isC(a)) {} } return OPQ(); }
Expr* __sym_memcmp(void*a,void*b,long n,int bc_,int site){ bool any=false; for(long i=0;i<n&&!any;++i) if(getE((uintptr_t)a+i)||getE((uintptr_t)b+i)) any=true; if(!any) return nullptr; RT rt; 
  Expr*r=bc(true); for(long i=0;i<n;++i){ Expr*x=byteOf(getE((uintptr_t)a+i),((uint8_t*)a)[i]),*y=byteOf(getE((uintptr_t)b+i),((uint8_t*)b)[i]); if(!x||!y) return OPQ(); if(!bc_){ if(decide(eq(x,y),((uint8_t*)a)[i]==((uint8_t*)b)[i],site)) continue; return ite(ult(x,y),bvc(~0ull,32),bvc(1,32)); } r=bAnd(r,eq(x,y)); } if(!bc_) return nullptr; return ite(r,bvc(0,32),bvc(1,32)); }
// the native outcome of a comparison follows exact arithmetic, not the rounded one
bool __sym_fixcmp(Expr*c,bool conc){ if(!c||g_mode!=0) return conc; RT rt; if(c->s!=SBOOL||opq(c)) return conc; if(isC(c)) return c->c; auto k=known.find(c); if(k!=known.end()) return k->second; static Expr*last=nullptr; static uint64_t ep=0; static bool res=false; if(last!=c||ep!=evEpoch){ res=evalBool(c); last=c; ep=evEpoch; } return res; }
bool __sym_branch(Expr*c,bool conc,int site){ if(!c) return conc; RT rt; if(c->s==SBV) c=bv2b(c); return decide(c,conc,site); }
static bool realDep(Expr*c){ for(auto v:*c->vars) if(vars[v].k==V_REAL||vars[v].k==V_SQRT||vars[v].k==V_FP) return true; return false; }
bool __sym_selcond(Expr*c,bool conc,int site){ if(!c) return conc; RT rt; if(c->s==SBV) c=bv2b(c); if(isC(c)) return c->c; if(opq(c)||realDep(c)) return decide(c,conc,site); auto k=known.find(c); if(k!=known.end()) return k->second; return conc; }
Expr* __sym_select(Expr*c,bool conc,Expr*a,Expr*b,int w,uint64_t ca,uint64_t cb){ if(!c) return conc?a:b; RT rt; if(c->s==SBV) c=bv2b(c); if(isC(c)||opq(c)||realDep(c)||known.count(c)) return conc?a:b;
  auto cv=[&](Expr*e,uint64_t v)->Expr*{ if(!e) return w==1?bc(v&1):bvc(v,w); if(w==1) return e->s==SBOOL?e:e->s==SBV?bv2b(e):e; if(e->s==SBOOL) return b2bv(e,w); return e; }; Expr*x=cv(a,ca),*y=cv(b,cb);
  if(x->s!=y->s||(x->s!=SBV&&x->s!=SBOOL)){ return OPQ(); } return ite(c,x,y); }
void __sym_concretize(Expr*e,int w,uint64_t conc,int site){ if(!e) return; RT rt; if(opq(e)){ inconclusive("address/size depends on an opaque value at "+siteTab[site]); return; } uint64_t v=concretizeE(e,conc,site); if(e->s==SBV&&((v^conc)&mask(w))) { inconclusive("concretization mismatch at "+siteTab[site]); endPath(2);} }

// ---------------------------------------------------------------- harness API
static Expr* argS_(int i,void*f){ return __sym_callee==f||__sym_callee==(void*)1?(Expr*)__sym_args[i]:nullptr; }
static void retS(Expr*e){ __sym_rets[0]=e; __sym_retok=e?1:0; }
static uint32_t newVar(const char*n,VK k,long lo,long hi){
  std::string nm=n; int c=nameCount[nm]++; if(c) nm+="~"+std::to_string(c);
  uint32_t id; auto it=varByName.find(nm+"/"+std::to_string((int)k)+"/"+std::to_string(lo)+"/"+std::to_string(hi)); 
  if(it==varByName.end()){ Var v; v.k=k;v.name=nm;v.lo=lo;v.hi=hi;v.w=1; if(k==V_INT){ uint64_t r=(uint64_t)(hi-lo); while(v.w<64&&(r>>v.w)) v.w++; } if(k==V_FP) v.w=64; id=vars.size(); vars.push_back(v); cur.resize(vars.size()); varByName[nm+"/"+std::to_string((int)k)+"/"+std::to_string(lo)+"/"+std::to_string(hi)]=id; } else id=it->second;
  size_t i=pathVars.size(); pathVars.push_back(id); Val v; v.set=true;
  if(i<curItem.in.size()&&curItem.in[i].first==nm&&curItem.in[i].second.set) v=curItem.in[i].second; else { if(k==V_REAL){ static const int p[]={3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73}; v.q=mpq_class(p[i%20]+(int)(i/20),8); v.q.canonicalize(); if(i%5==3) v.q=-v.q; } else if(k==V_FP){ v.u=asU(1.0+i*0.375); } }
  cur[id]=v; sqrtVal.clear(); shmWrite(); return id; }
long sym_int_i(const char*n,long lo,long hi){ RT rt; uint32_t v=newVar(n,V_INT,lo,hi); if(lo==hi){ retS(nullptr); return lo; } Expr*e=bvbin(O_ADD,zext(mk(SBV,O_VAR,vars[v].w,nullptr,nullptr,nullptr,v),64),bvc((uint64_t)lo,64)); retS(e); return (long)(cur[v].u+lo); }
bool sym_bool_i(const char*n){ RT rt; uint32_t v=newVar(n,V_BOOL,0,1); retS(mk(SBOOL,O_VAR,1,nullptr,nullptr,nullptr,v)); return cur[v].u; }
double sym_real_i(const char*n){ RT rt; if(g_mode==1){ uint32_t v=newVar(n,V_FP,0,0); retS(mk(SFP,O_VAR,64,nullptr,nullptr,nullptr,v)); return asD(cur[v].u); } uint32_t v=newVar(n,V_REAL,0,0); Rat r; r.n=pvar(v); retS(mkRat(std::move(r))); return cur[v].q.get_d(); }
double sym_exact_d(double v){ RT rt; if(g_mode==1||!std::isfinite(v)){ retS(nullptr); return v; } Expr*a=argS_(0,(void*)sym_exact_d); __sym_callee=nullptr; retS(a?a:mkRat(ratd(v))); return v; }
void sym_cut(){ endPath(2); }
void sym_assume_b(bool c){ Expr*e=argS_(0,(void*)sym_assume_b); __sym_callee=nullptr; RT rt; assumesSeen++;
  if(!e||isC(e)){ bool v=e?e->c:c; if(!v) endPath(2); return; } if(e->s==SBV) e=bv2b(e); if(opq(e)){ inconclusive("assume on opaque"); if(!c) endPath(2); return; }
  if(g_mode==0) c=evalBool(e);
  if(c||assumesSeen<=curItem.skipAssume){ splitPc(e); return; }
  Model m; Res r=feasible(e,m); if(r==R_UNSAT) endPath(2); if(r==R_UNKNOWN){ splitPc(e); return; }
  Item it=mkItem(m); it.skipAssume=assumesSeen; work.push_back(std::move(it)); endPath(4); }
static std::string curInputsWith(const Model&m){ std::vector<Val> save=cur; for(auto&x:m.v) cur[x.first]=x.second; evEpoch++; sqrtVal.clear();
  // constraints outside the slice must hold too
  std::vector<Expr*> bad; bool ok=true; for(auto*c:pc) if(!evalBool(c)) ok=false;
  if(!ok){ Model m2; std::vector<Expr*> rest; std::set<uint32_t> mv; for(auto&x:m.v) mv.insert(x.first); for(auto*c:pc){ bool in=false; for(auto v:*c->vars) if(mv.count(v)) in=true; if(!in) rest.push_back(c);} if(!rest.empty()&&solve(rest,m2)==R_SAT) for(auto&x:m2.v) cur[x.first]=x.second; }
  std::string s=inputsText(); cur=save; evEpoch++; sqrtVal.clear(); return s; }
static bool curSatPc(){ for(auto*c:pc) if(!evalBool(c)) return false; return true; }
struct QLim{ unsigned r,t; QLim(unsigned rl,unsigned ms):r(rlimitReal),t(qTimeoutMs){ rlimitReal=rl; qTimeoutMs=ms; } ~QLim(){ rlimitReal=r; qTimeoutMs=t; } };
static void violation(const char*label,std::vector<std::string> ins){ Viol v; v.label=label; v.inputs=ins; viols.push_back(v); endPath(3); }
static void checkBool(Expr*e,const char*label,Expr*bigger){ // e must hold
  Model m; Expr*n=bNot(e);
  if(!fixedV.empty()&&allFixed(n)&&evalBool(e)){ st.fixedimp++; if(e->op==O_NOT) known[e->k[0]]=false; else known[e]=true; return; } // every variable pinned to a constant by the path condition
  if(g_mode==0&&!evalBool(e)&&curSatPc()){ // the inputs that drive this path already violate the assertion
    std::vector<std::string> ins;
    for(int att=0;att<3;++att){ std::vector<Expr*> cs{n}; if(bigger) cs.push_back(bigger); sliceFor(n->vars,cs); std::set<uint32_t> vs; for(auto*c:cs) for(auto v:*c->vars) if(vars[v].k==V_REAL) vs.insert(v);
      int B=att==0?4:att==1?16:1000; for(auto v:vs){ Poly p=pvar(v); cs.push_back(rcmp(1,paddmul(p,pconst(B),-1))); cs.push_back(rcmp(1,paddmul(pscale(p,-1),pconst(B),-1))); }
      Model m2; Res q; { QLim l(3000000,4000); q=solve(cs,m2); } if(q==R_SAT){ ins.push_back(curInputsWith(m2)); break; } if(q==R_UNKNOWN) break; }
    ins.push_back(inputsText()); violation(label,ins); }
  Res r; { std::vector<Expr*> only{n}; qQuick=true; r=solve(only,m); qQuick=false; }
  if(r==R_SAT||r==R_UNKNOWN){ m=Model(); r=feasible(n,m); }
  if(r==R_UNSAT){ if(e->op==O_NOT) known[e->k[0]]=false; else known[e]=true; return; }
  if(r==R_UNKNOWN){ inconclusive(std::string("solver gave no verdict on ")+label); return; }
  std::vector<std::string> ins; 
  if(g_mode==0){ // more robust witnesses first
    for(int att=0;att<3;++att){ std::vector<Expr*> cs{n}; if(bigger) cs.push_back(bigger); sliceFor(n->vars,cs); std::set<uint32_t> vs; for(auto*c:cs) for(auto v:*c->vars) if(vars[v].k==V_REAL) vs.insert(v);
      int B=att==0?4:att==1?16:1000; for(auto v:vs){ Poly p=pvar(v); cs.push_back(rcmp(1,paddmul(p,pconst(B),-1))); cs.push_back(rcmp(1,paddmul(pscale(p,-1),pconst(B),-1))); 
        if(att==0){} }
      Model m2; Res q; { QLim l(3000000,4000); q=solve(cs,m2); } if(q==R_SAT) ins.push_back(curInputsWith(m2)); }
  }
  ins.push_back(curInputsWith(m));
  violation(label,ins); }
void sym_assert_b(bool c,const char*label){ Expr*e=argS_(0,(void*)sym_assert_b); __sym_callee=nullptr; RT rt; st.asserts++; if(e&&e->s==SBV) e=bv2b(e);
  if(!e||isC(e)){ bool v=e?e->c:c; if(!v) { // concrete failure on this path
      std::vector<Expr*> dummy_; Model m; std::vector<std::string> ins; if(!pc.empty()&&!curSatPc()){ Res r=solve(pc,m); if(r==R_UNSAT){ st.cut++; endPath(2);} if(r==R_SAT) ins.push_back(curInputsWith(m)); } ins.push_back(inputsText()); violation(label,ins);} st.asserts_trivial++; labelCount[label]+=0; return; }
  if(opq(e)){ inconclusive(std::string("assertion on opaque value ")+label); return; }
  labelCount[label]++; auto k=known.find(e); if(k!=known.end()&&k->second) return; if(e->op==O_NOT){ k=known.find(e->k[0]); if(k!=known.end()&&!k->second) return; } checkBool(e,label,nullptr); }
static void eqSym(Expr*x,Expr*y,double a,double b,const char*label){
  if(opq(x)||opq(y)){ inconclusive(std::string("assertion on opaque value ")+label); return; }
  if(g_mode==1){ Expr*p=fpE(x,a),*q=fpE(y,b); if(!p||!q){ inconclusive("fp"); return; } if(p==q){ labelCount[label]++; return; } auto nan=[&](Expr*e){return isC(e)?bc(std::isnan(asD(e->c))):mk(SBOOL,O_FNAN,1,e);}; Expr*e=mk(SBOOL,O_FEQ,1,p,q); if(isC(p)&&isC(q)) e=bc(evalBool(e)); Expr*g=bOr(e,bAnd(nan(p),nan(q))); labelCount[label]++; if(isC(g)){ if(!g->c) violation(label,{inputsText()}); return; } checkBool(g,label,nullptr); return; }
  RV p=rv(x,a),q=rv(y,b); if(p.bad||q.bad){ inconclusive(std::string("type confusion ")+label); return; }
  auto fail=[&]{ Model m; std::vector<std::string> ins; if(!pc.empty()){ 
        for(int att=0;att<2;++att){ std::vector<Expr*> cs=pc; std::set<uint32_t> vs; for(auto*c:cs) for(auto v:*c->vars) if(vars[v].k==V_REAL) vs.insert(v); int B=att==0?8:1000; for(auto v:vs){ Poly p=pvar(v); cs.push_back(rcmp(1,paddmul(p,pconst(B),-1))); cs.push_back(rcmp(1,paddmul(pscale(p,-1),pconst(B),-1))); } Model m2; QLim l(3000000,4000); if(solve(cs,m2)==R_SAT) ins.push_back(curInputsWith(m2)); }
        Res r=curSatPc()?R_UNKNOWN:solve(pc,m); if(r==R_UNSAT) { endPath(2);} if(r==R_SAT) ins.push_back(curInputsWith(m)); } ins.push_back(inputsText()); violation(label,ins); };
  if(p.sp||q.sp){ bool ok=p.sp&&q.sp&&(p.d==q.d||(std::isnan(p.d)&&std::isnan(q.d))); if(!ok) fail(); return; }
  try{
  Poly L=p.r.n,R=q.r.n; // cross multiply with the factors missing on each side
  Rat d=ratAdd(p.r,q.r,-1);
  if(ratIsC(p.r)&&ratIsC(q.r)){ if(!d.n.zero()) fail(); st.asserts_trivial++; labelCount[label]+=0; return; }
  labelCount[label]++;
  // self check of the encoding against the native run
  { double ea=evalRatD(p.r); if(std::isfinite(ea)&&std::isfinite(a)){ if(fabs(ea-a)<=1e-6*(1+fabs(ea)+fabs(a))) st.selfok++; else st.selfbad++; } }
  L=pmul(L,denPoly(q.r)); R=pmul(R,denPoly(p.r));
  if(L==R){ // syntactically identical after normalisation: let z3 confirm the normalised identity
    static std::set<uint32_t> seen; Poly one; double t0=now(); if(!seen.insert(facId(L)).second){ st.cachehits++; return; } Z3_ast l=zpoly(L.t.size()<=400?L:one),r=zpoly(R.t.size()<=400?R:one); Z3_solver s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s); Z3_solver_assert(ctx,s,Z3_mk_not(ctx,Z3_mk_eq(ctx,l,r))); Z3_lbool b=Z3_solver_check(ctx,s); Z3_solver_dec_ref(ctx,s); st.queries++; if(b==Z3_L_FALSE) st.unsat++; else { st.unknown++; inconclusive("identity query"); } st.solver_s+=now()-t0; return; }
  Expr*e=rcmp(2,d.n); if(isC(e)){ if(!e->c) fail(); return; }
  // robust witness: |numerator| >= |denominator|  (difference at least one)
  Poly D=denPoly(d); Poly n2=pmul(d.n,d.n),d2=pmul(D,D); Expr*big=bNot(rcmp(0,paddmul(n2,d2,-1)));
  checkBool(e,label,big);
  }catch(PolyTooBig&){ st.toobig++; inconclusive("expression swell limit"); endPath(2);} }
void sym_assert_eq_d(double a,double b,const char*label){ Expr*x=argS_(0,(void*)sym_assert_eq_d),*y=argS_(1,(void*)sym_assert_eq_d); __sym_callee=nullptr; RT rt; st.asserts++; 
  if(!x&&!y){ st.asserts_trivial++; labelCount[label]+=0; if(!(a==b||(std::isnan(a)&&std::isnan(b)))){ if(g_mode==0&&fabs(a-b)<=1e-9*(fabs(a)+fabs(b))) return; std::vector<std::string> ins; Model m; if(!pc.empty()&&!curSatPc()){ Res r=solve(pc,m); if(r==R_UNSAT) endPath(2); if(r==R_SAT) ins.push_back(curInputsWith(m)); } ins.push_back(inputsText()); violation(label,ins);} return; }
  eqSym(x,y,a,b,label); }
void sym_assert_eq_l(long a,long b,const char*label){ Expr*x=argS_(0,(void*)sym_assert_eq_l),*y=argS_(1,(void*)sym_assert_eq_l); __sym_callee=nullptr; RT rt; if(!x&&!y){ __sym_callee=nullptr; sym_assert_b(a==b,label); return; } if(opq(x)||opq(y)){ st.asserts++; inconclusive(std::string("assertion on opaque value ")+label); return; }
  auto cv=[&](Expr*e,long v){ return !e?bvc((uint64_t)v,64):e->s==SBOOL?b2bv(e,64):e; }; Expr*e=eq(cv(x,a),cv(y,b)); __sym_args[0]=e; __sym_callee=(void*)1; sym_assert_b(a==b,label); }
void sym_fail(const char*label){ __sym_callee=nullptr; sym_assert_b(false,label); }
static std::map<std::string,long> reachPath;
void sym_reach(const char*label){ RT rt; reachPath[label]++; }
long sym_concrete_l(long v){ Expr*e=argS_(0,(void*)sym_concrete_l); __sym_callee=nullptr; if(!e){ retS(nullptr); return v; } RT rt; if(opq(e)){ inconclusive("concrete on opaque"); retS(nullptr); return v; } long r=(long)concretizeE(e,(uint64_t)v,-1); if(r!=v){ inconclusive("concretization mismatch"); endPath(2); } retS(nullptr); return r; }
static int g_tier=0; int sym_tier(){ __sym_retok=0; return g_tier; } int sym_is_native(){ __sym_retok=0; return 0; }
void sym_note_l(const char*,long){ __sym_callee=nullptr; }
struct H{ std::string n; int mode; void(*fn)(); std::string needs; };
static std::vector<H>& reg(){ static std::vector<H> r; return r; }
void sym_register(const char*n,int m,void(*f)(),const char*needs){ reg().push_back({n,m,f,needs}); }
}

// ---------------------------------------------------------------- driver
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static std::vector<std::string> samples; static int maxSamples=8; static long sampleEvery=1;
static double budget=1e9,tStart; static bool timedOut=false; static long maxPaths=1L<<60;
static std::vector<std::string> split(const char*t){ std::vector<std::string> r; std::string s; for(;*t;++t){ if(*t=='\n'){r.push_back(s);s.clear();} else s+=*t; } return r; }
static std::string excText;

static void runPath(H&h){
  trace.clear(); pos=0; pc.clear(); known.clear(); nneg.clear(); concd.clear(); fixedV.clear(); pathVars.clear(); nameCount.clear(); assumesSeen=0; pathInc=false; brokenState=-1; reachPath.clear(); sqrtVal.clear(); evEpoch++;
  __sym_callee=nullptr; __sym_retok=0; st.paths++; *(long*)shm=1; 
  struct itimerval tv={{0,0},{getenv("SYM_PATHSEC")?atoi(getenv("SYM_PATHSEC")):60,0}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
  pathEnd=0;
  if(setjmp(jb)==0){
    try{ in_rt=false; h.fn(); in_rt=true; pathEnd=1; }
    catch(std::exception&e){ in_rt=true; excText=e.what(); int s; char*d=abi::__cxa_demangle(typeid(e).name(),0,0,&s); excText=std::string(d?d:"?")+": "+excText; pathEnd=5; }
    catch(...){ in_rt=true; int s; const std::type_info*t=abi::__cxa_current_exception_type(); char*d=t?abi::__cxa_demangle(t->name(),0,0,&s):nullptr; excText=d?d:"unknown exception"; pathEnd=5; }
  }
  in_rt=true; if(sym_after_end) sym_after_end(); sym_on_end=sym_after_end=nullptr;
  struct itimerval z={{0,0},{0,0}}; setitimer(ITIMER_VIRTUAL,&z,nullptr);
  if(pathEnd==5){ Model m; std::vector<std::string> ins; bool cs=curSatPc(); Res r=cs?R_SAT:solve(pc,m); if(r==R_UNSAT) pathEnd=2; else { if(r==R_SAT&&!cs) ins.push_back(curInputsWith(m)); ins.push_back(inputsText()); viols.push_back({"uncaught exception "+excText,ins}); pathEnd=3; } }
  if(pathEnd==2) st.cut++;
  if(pathEnd==1){ st.complete++; bool need=false; for(auto&r:reachPath) if(reachCount[r.first]==0) need=true; if(st.complete==1) need=true;
    if(need){ Model m; Res r=R_SAT; bool ok=true; for(auto*c:pc) if(!evalBool(c)) ok=false; if(!ok) r=pc.empty()?R_SAT:solve(pc,m); if(r==R_SAT){ reachCount["__complete"]++; for(auto&q:reachPath) reachCount[q.first]++; } }
    else { reachCount["__complete"]++; for(auto&q:reachPath) reachCount[q.first]++; }
    if((int)samples.size()<maxSamples||st.complete%97==0){ bool ok=true; for(auto*c:pc) if(!evalBool(c)) {ok=false;break;} if(ok){ std::string t=inputsText(); if((int)samples.size()<maxSamples) samples.push_back(t); else samples[(st.complete/97)%maxSamples]=t; } }
  }
}
static void explore(H&h,size_t splitAt){
  while(!work.empty()&&viols.empty()){
    if(now()-tStart>budget||st.paths>=maxPaths){ timedOut=true; return; }
    if(splitAt&&work.size()>=splitAt) return;
    if(splitAt){ curItem=std::move(work.front()); work.pop_front(); } // breadth first while splitting
    else { curItem=std::move(work.back()); work.pop_back(); }
    if(!curItem.later.empty()){ Model m; Res r=solve(curItem.later,m); curItem.later.clear(); if(r==R_UNSAT){ st.implied++; continue; } if(r==R_SAT){ std::map<std::string,const Val*> mm; for(auto&x:m.v) mm[vars[x.first].name]=&x.second; for(auto&i:curItem.in){ auto f=mm.find(i.first); if(f!=mm.end()) i.second=*f->second; } } }
    runPath(h);
    if(getenv("SYM_VERBOSE")&&st.paths%atol(getenv("SYM_VERBOSE"))==0) fprintf(stderr,"[%s] paths %ld complete %ld work %zu queries %ld unk %ld solver %.1fs exprs %u t %.1f\n",h.n.c_str(),st.paths,st.complete,work.size(),st.queries,st.unknown,st.solver_s,nextId,now()-tStart);
  }
}
static void report(FILE*f,H&h,const char*status){
  fprintf(f,"{\"harness\":\"%s\",\"status\":\"%s\",\"mode\":\"%s\",\"needs\":\"%s\",\"paths\":%ld,\"complete\":%ld,\"cut\":%ld,\"branches\":%ld,\"forks\":%ld,\"implied\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"cachehits\":%ld,\"asserts\":%ld,\"asserts_trivial\":%ld,\"inconclusive\":%ld,\"selfok\":%ld,\"selfbad\":%ld,\"maxpc\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"left\":%zu,\"timeout\":%s",h.n.c_str(),status,h.mode?"fp":"real",h.needs.c_str(),st.paths,st.complete,st.cut,st.branches,st.forks,st.implied,st.queries,st.sat,st.unsat,st.unknown,st.cachehits,st.asserts,st.asserts_trivial,st.inconclusive,st.selfok,st.selfbad,st.maxpc,st.solver_s,now()-tStart,work.size(),timedOut?"true":"false");
  auto mp=[&](const char*n,std::map<std::string,long>&m){ fprintf(f,",\"%s\":{",n); bool c=false; for(auto&x:m){ fprintf(f,"%s\"%s\":%ld",c?",":"",jesc(x.first).c_str(),x.second); c=true;} fprintf(f,"}"); };
  mp("reasons",incReasons); mp("labels",labelCount); mp("reach",reachCount);
  std::map<std::string,long> sf; for(auto&x:siteForks) sf[x.first>=0&&x.first<(int)siteTab.size()?siteTab[x.first]:"(runtime)"]+=x.second; mp("forksites",sf);
  fprintf(f,",\"samples\":["); for(size_t i=0;i<samples.size();++i) fprintf(f,"%s\"%s\"",i?",":"",jesc(samples[i]).c_str()); fprintf(f,"]");
  fprintf(f,",\"functions\":["); bool c=false; for(size_t i=0;i<fnTab.size();++i) if(fnHit[i]&&fnTab[i].find("dune/istl/")<fnTab[i].find('|')){ fprintf(f,"%s\"%s\"",c?",":"",jesc(fnTab[i].substr(fnTab[i].find("dune/istl/"))).c_str()); c=true;} fprintf(f,"]");
  fprintf(f,",\"violations\":["); for(size_t i=0;i<viols.size();++i){ fprintf(f,"%s{\"label\":\"%s\",\"inputs\":[",i?",":"",jesc(viols[i].label).c_str()); for(size_t j=0;j<viols[i].inputs.size();++j) fprintf(f,"%s\"%s\"",j?",":"",jesc(viols[i].inputs[j]).c_str()); fprintf(f,"]}"); } fprintf(f,"]}\n"); fflush(f); }
static void onVT(int){ if(in_rt){ struct itimerval tv={{0,0},{20,0}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr); return; } const char*m="SYM_HANG\n"; if(write(2,m,9)){}; _exit(67); }

int main(int argc,char**argv){
  in_rt=true; std::string name,out="/dev/stdout"; int jobs=1; bool list=false;
  for(int i=1;i<argc;++i){ std::string a=argv[i]; if(a=="--list") list=true; else if(a=="--harness") name=argv[++i]; else if(a=="--out") out=argv[++i]; else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--budget") budget=atof(argv[++i]); else if(a=="--tier") g_tier=atoi(argv[++i]); else if(a=="--max-paths") maxPaths=atol(argv[++i]); else if(a=="--rlimit") rlimitReal=rlimitBV=atol(argv[++i]); else if(a=="--encoded"){ fputs(__sym_encoded,stdout); return 0; } }
  if(list){ for(auto&h:reg()) printf("%s %s\n",h.n.c_str(),h.needs.c_str()); return 0; }
  H*h=nullptr; for(auto&x:reg()) if(x.n==name) h=&x; if(!h){ fprintf(stderr,"no harness %s\n",name.c_str()); return 3; }
  siteTab=split(__sym_sites); fnTab=split(__sym_fns); fnHit.resize(fnTab.size());
  g_mode=h->mode; tStart=now();
  struct rlimit rl; if(getrlimit(RLIMIT_STACK,&rl)==0&&rl.rlim_cur<(256u<<20)&&!getenv("SYM_RESTACK")){ rl.rlim_cur=256u<<20; if(setrlimit(RLIMIT_STACK,&rl)==0){ setenv("SYM_RESTACK","1",1); execv("/proc/self/exe",argv); } }
  FILE*of=fopen(out.c_str(),"w"); if(!of) return 3;
  // each job: a worker process; the parent survives crashes of the code under test
  shm=(char*)mmap(nullptr,shmN,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  auto init=[&]{ Z3_global_param_set("memory_max_size",getenv("SYM_Z3MEM")?getenv("SYM_Z3MEM"):"2500"); freshZ3(); if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mhook,fhook); signal(SIGVTALRM,onVT); };
  struct W{ pid_t pid; char*shm; std::string out,err; };
  std::vector<W> ws; std::string base="/tmp/symw."+std::to_string(getpid());
  pid_t p0=fork();
  if(p0==0){ // exploration root: explores, optionally splits into further workers
    int fd=open((base+".0.err").c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(fd>=0&&!getenv("SYM_VERBOSE")&&!getenv("SYM_SLOWQ")) dup2(fd,2);
    init(); work.push_back(Item()); explore(*h,jobs>1?jobs*12:0);
    if(jobs>1&&!work.empty()&&viols.empty()&&!timedOut){
      std::deque<Item> all; all.swap(work); std::vector<W> kids;
      for(int j=0;j<jobs;++j){ char*sm=(char*)mmap(nullptr,shmN,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); W w; w.shm=sm; w.out=base+".k"+std::to_string(j); w.err=w.out+".err"; pid_t p=fork();
        if(p==0){ shm=sm; int f2=open(w.err.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); if(f2>=0&&!getenv("SYM_VERBOSE")&&!getenv("SYM_SLOWQ")) dup2(f2,2); if(j>0){ st=Stats(); labelCount.clear(); reachCount.clear(); incReasons.clear(); samples.clear(); siteForks.clear(); } for(size_t i=j;i<all.size();i+=jobs) work.push_back(all[i]); maxSamples=std::max(2,8/jobs+1); explore(*h,0); FILE*o=fopen(w.out.c_str(),"w"); report(o,*h,viols.empty()?(timedOut?"timeout":"done"):"violation"); fclose(o); _exit(0); }
        w.pid=p; kids.push_back(w); }
      // wait, stop on first violation
      int left=jobs; bool stop=false; fprintf(of,"["); bool first=true;
      while(left>0){ int stt; pid_t p=wait(&stt); if(p<0) break; left--; for(auto&w:kids) if(w.pid==p){ 
          std::string txt; if(WIFEXITED(stt)&&WEXITSTATUS(stt)==0){ FILE*i=fopen(w.out.c_str(),"r"); char b[65536]; size_t n; while(i&&(n=fread(b,1,sizeof b,i))>0) txt.append(b,n); if(i) fclose(i); if(txt.find("\"status\":\"violation\"")!=std::string::npos) stop=true; }
          else if(!stop){ std::string err; FILE*i=fopen(w.err.c_str(),"r"); char b[8192]; size_t n; while(i&&(n=fread(b,1,sizeof b,i))>0&&err.size()<20000) err.append(b,n); if(i) fclose(i); txt="{\"harness\":\""+h->n+"\",\"status\":\"crash\",\"code\":"+std::to_string(WIFEXITED(stt)?WEXITSTATUS(stt):-WTERMSIG(stt))+",\"stderr\":\""+jesc(err)+"\",\"inputs\":\""+jesc(std::string(w.shm+8))+"\"}"; stop=true; }
          if(!txt.empty()){ if(!first) fprintf(of,","); fputs(txt.c_str(),of); first=false; }
          unlink(w.out.c_str()); unlink(w.err.c_str()); }
        if(stop) for(auto&w:kids) kill(w.pid,SIGKILL); }
      fprintf(of,"]\n"); fclose(of); _exit(0);
    }
    fprintf(of,"["); report(of,*h,viols.empty()?(timedOut?"timeout":"done"):"violation"); fprintf(of,"]\n"); fclose(of); _exit(0);
  }
  int stt; waitpid(p0,&stt,0);
  if(!(WIFEXITED(stt)&&WEXITSTATUS(stt)==0)){ std::string err; FILE*i=fopen((base+".0.err").c_str(),"r"); char b[8192]; size_t n; while(i&&(n=fread(b,1,sizeof b,i))>0&&err.size()<20000) err.append(b,n); if(i) fclose(i);
    ftruncate(fileno(of),0); rewind(of); fprintf(of,"[{\"harness\":\"%s\",\"status\":\"crash\",\"code\":%d,\"stderr\":\"%s\",\"inputs\":\"%s\"}]\n",h->n.c_str(),WIFEXITED(stt)?WEXITSTATUS(stt):-WTERMSIG(stt),jesc(err).c_str(),jesc(std::string(shm+8)).c_str()); fclose(of); }
  unlink((base+".0.err").c_str());
  return 0; }
