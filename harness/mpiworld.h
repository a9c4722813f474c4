// A world of MPI processes inside one symbolic execution.  Every rank is a coroutine running the real code;
// the functions of the MPI library are replaced by the ones below, which pass the messages around in memory
// (values stay symbolic).  A rank runs until it has to wait; the order in which ranks run and which of several
// completed requests is reported first are inputs.  If no rank can go on there is a deadlock: a violation.
#pragma once
#include <mpi.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <cstring>
#include <functional>
#include <vector>
#include <list>
#include <map>
#include <exception>
#include "h.h"
extern "C" { void __sanitizer_start_switch_fiber(void**,const void*,size_t); void __sanitizer_finish_switch_fiber(void*,const void**,size_t*); }
#define MW_SYM(n) __attribute__((used)) char mw_##n[64] asm(#n);
#define MW_EACH(X) X(ompi_mpi_byte,1) X(ompi_mpi_char,1) X(ompi_mpi_signed_char,1) X(ompi_mpi_unsigned_char,1) X(ompi_mpi_short,2) X(ompi_mpi_unsigned_short,2) X(ompi_mpi_int,4) X(ompi_mpi_unsigned,4) X(ompi_mpi_long,8) X(ompi_mpi_unsigned_long,8) X(ompi_mpi_float,4) X(ompi_mpi_double,8) X(ompi_mpi_long_double,16) X(ompi_mpi_cxx_bool,1) X(ompi_mpi_cxx_cplex,8) X(ompi_mpi_cxx_dblcplex,16) X(ompi_mpi_packed,1)
#define MW_D(n,s) MW_SYM(n)
MW_EACH(MW_D)
MW_SYM(ompi_mpi_datatype_null) MW_SYM(ompi_mpi_comm_world) MW_SYM(ompi_mpi_comm_self) MW_SYM(ompi_mpi_comm_null) MW_SYM(ompi_mpi_op_null) MW_SYM(ompi_mpi_op_sum) MW_SYM(ompi_mpi_op_max) MW_SYM(ompi_mpi_op_min) MW_SYM(ompi_mpi_op_prod) MW_SYM(ompi_mpi_op_land) MW_SYM(ompi_request_null) MW_SYM(ompi_mpi_info_null) MW_SYM(ompi_mpi_group_null) MW_SYM(ompi_mpi_errors_return)
namespace MW {
struct Type { std::vector<std::array<long,2>> b; long ext; long size()const{ long s=0; for(auto& x:b) s+=x[1]; return s; } };
struct Req { bool send,done=false; int src,dst,tag; void* comm; char* buf; long cap; long got=0; int gsrc=0,gtag=0; MPI_Datatype t; };
struct Msg { int src,dst,tag; void* comm; std::vector<char> d; Req* req; };
struct Rank { ucontext_t c; char* st; bool done=true; void* fake=nullptr; std::exception_ptr ex; std::map<void*,long> seq; };
static const long STK=64L<<20;
struct World {
  int P=0,me=0; long progress=0; bool lastFirst=false; std::vector<Rank> r; ucontext_t mainc; void* mainfake=nullptr; const void* mainb=nullptr; size_t mains=0; std::function<void(int)> f;
  std::list<Msg> msgs; std::list<Req*> recvs; std::map<std::pair<const void*,long>,std::vector<std::vector<char>>> coll; std::map<std::pair<const void*,long>,int> arrived; long opened=0,freed=0; std::map<const void*,std::vector<int>> groups; std::map<std::tuple<const void*,long,int>,MPI_Comm> splits;
};
// types and operations are created once per program by the code under test
inline std::map<const void*,Type>& types(){ static auto* m=new std::map<const void*,Type>; return *m; } inline std::map<const void*,MPI_User_function*>& opsm(){ static auto* m=new std::map<const void*,MPI_User_function*>; return *m; }
inline World*& w(){ static World* x=nullptr; return x; }
// processes of a communicator; ranks in messages are ranks in the communicator
inline std::vector<int>& group(MPI_Comm c){ auto& g=w()->groups[(const void*)c]; if(g.empty()){ SYM_ASSERT(c==MPI_COMM_WORLD,"known communicator"); for(int i=0;i<w()->P;i++) g.push_back(i); } return g; }
inline int csize(MPI_Comm c){ return group(c).size(); } inline int crank(MPI_Comm c){ auto& g=group(c); for(std::size_t i=0;i<g.size();i++) if(g[i]==w()->me) return i; SYM_ASSERT(false,"the process belongs to the communicator"); return -1; }
inline void toMain(bool last=false){ Rank& q=w()->r[w()->me]; __sanitizer_start_switch_fiber(last?nullptr:&q.fake,w()->mainb,w()->mains); (void)swapcontext(&q.c,&w()->mainc); __sanitizer_finish_switch_fiber(w()->r[w()->me].fake,nullptr,nullptr); }
inline void yield(){ toMain(); }
inline void entry(){ __sanitizer_finish_switch_fiber(nullptr,&w()->mainb,&w()->mains); int k=w()->me; try { w()->f(k); } catch(...){ w()->r[k].ex=std::current_exception(); } w()->r[k].done=true; w()->progress++; toMain(true); }
// leaving a path from inside of a rank
#ifndef SYM_REPLAY
extern "C" { extern void (*sym_on_end)(); extern void (*sym_after_end)(); }
inline bool& inside(){ static bool b=false; return b; } inline bool& left(){ static bool b=false; return b; }
inline void onEnd(){ if(inside()){ left()=true; __sanitizer_start_switch_fiber(nullptr,w()->mainb,w()->mains); } }
inline void afterEnd(){ if(left()) __sanitizer_finish_switch_fiber(w()->mainfake,nullptr,nullptr); left()=inside()=false; }
inline void enter(bool b){ inside()=b; sym_on_end=onEnd; sym_after_end=afterEnd; }
#else
inline void enter(bool){}
#endif
// run f(rank) on P ranks
inline void run(int P,std::function<void(int)> f,bool schedules=true){
  World W; W.P=P; w()=&W; W.f=f; W.r.resize(P);
#define MW_T(n,s) types()[(const void*)mw_##n]=Type{{{0,s}},s};
  MW_EACH(MW_T)
  std::vector<int> order(P); for(int i=0;i<P;i++) order[i]=i; if(schedules){ if(sym_concrete_l(sym_bool("ranks in reverse order"))) std::reverse(order.begin(),order.end()); W.lastFirst=sym_concrete_l(sym_bool("last completed request first")); }
  for(int i=0;i<P;i++){ Rank& q=W.r[i]; q.done=false; q.st=(char*)mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); getcontext(&q.c); q.c.uc_stack.ss_sp=q.st; q.c.uc_stack.ss_size=STK; q.c.uc_link=nullptr; makecontext(&q.c,(void(*)())entry,0); }
  for(;;){ long before=W.progress; bool any=false; for(int i:order) if(!W.r[i].done){ any=true; W.me=i; enter(true); __sanitizer_start_switch_fiber(&W.mainfake,W.r[i].st,STK); (void)swapcontext(&W.mainc,&W.r[i].c); __sanitizer_finish_switch_fiber(W.mainfake,nullptr,nullptr); enter(false); }
    if(!any) break; if(W.progress==before){ SYM_ASSERT(false,"deadlock: no process can go on"); return; } }
  bool left=!W.msgs.empty()||!W.recvs.empty(); std::exception_ptr ex; for(auto& q:W.r){ if(q.ex&&!ex) ex=q.ex; q.ex=nullptr; munmap(q.st,STK); } w()=nullptr; if(ex) std::rethrow_exception(ex); SYM_ASSERT(!left,"every message is received");
}
inline Type& ty(MPI_Datatype t){ auto i=types().find((const void*)t); SYM_ASSERT(i!=types().end(),"known datatype"); return i->second; }
inline bool contiguous(Type& q){ return q.b.size()==1&&q.b[0][0]==0&&q.b[0][1]==q.ext; }
inline void pack(const void* in,int n,MPI_Datatype t,char* out){ Type& q=ty(t); if(contiguous(q)){ if(n) memcpy(out,in,n*q.ext); return; } for(int i=0;i<n;i++) for(auto& b:q.b){ memcpy(out,(const char*)in+i*q.ext+b[0],b[1]); out+=b[1]; } }
inline void unpack(const char* in,long bytes,void* out,MPI_Datatype t){ Type& q=ty(t); if(contiguous(q)){ if(bytes) memcpy(out,in,bytes); return; } long s=q.size(); for(long i=0;s&&i<bytes/s;i++) for(auto& b:q.b){ memcpy((char*)out+i*q.ext+b[0],in,b[1]); in+=b[1]; } }
inline bool match(const Req& r,const Msg& m){ return r.comm==m.comm&&r.dst==m.dst&&(r.src==MPI_ANY_SOURCE||r.src==m.src)&&(r.tag==MPI_ANY_TAG||r.tag==m.tag); }
inline void deliver(Req& r,Msg& m){ SYM_ASSERT((long)m.d.size()<=r.cap,"a message fits into the receive buffer"); unpack(m.d.data(),m.d.size(),r.buf,r.t); r.got=m.d.size(); r.gsrc=m.src; r.gtag=m.tag; r.done=true; if(m.req) m.req->done=true; w()->progress++; }
inline Req* send(const void* b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c,bool sync){ Req* r=new Req{true,!sync}; Msg m{crank(c),dst,tag,c,{},sync?r:nullptr}; m.d.resize(n*ty(t).size()); pack(b,n,t,m.d.data()); w()->progress++; SYM_ASSERT(dst>=0&&dst<csize(c),"the destination is a process");
  for(auto i=w()->recvs.begin();i!=w()->recvs.end();++i) if(match(**i,m)){ Req* q=*i; w()->recvs.erase(i); deliver(*q,m); return r; } w()->msgs.push_back(m); return r; }
inline Req* recv(void* b,int n,MPI_Datatype t,int src,int tag,MPI_Comm c){ Req* r=new Req{false}; r->src=src; r->dst=crank(c); r->tag=tag; r->comm=c; r->buf=(char*)b; r->cap=n*ty(t).size(); r->t=t; w()->progress++;
  for(auto i=w()->msgs.begin();i!=w()->msgs.end();++i) if(match(*r,*i)){ Msg m=*i; w()->msgs.erase(i); deliver(*r,m); return r; } w()->recvs.push_back(r); return r; }
inline void stat(Req* r,MPI_Status* s){ if(s!=MPI_STATUS_IGNORE){ s->MPI_SOURCE=r->gsrc; s->MPI_TAG=r->gtag; s->MPI_ERROR=0; s->_ucount=r->got; } }
inline void finish(Req* r,MPI_Status* s){ while(!r->done) yield(); if(!r->send) stat(r,s); delete r; }
inline std::vector<std::vector<char>>& all(MPI_Comm c,const void* b,long bytes){ long k=w()->r[w()->me].seq[c]++; auto key=std::make_pair((const void*)c,k); auto& v=w()->coll[key]; int me=crank(c),n=csize(c); if(v.empty()) v.resize(n); v[me].resize(bytes); if(bytes) memcpy(v[me].data(),b,bytes); w()->arrived[key]++; w()->progress++; while(w()->arrived[key]<n) yield(); return v; }
template<class T> void red(T& a,const T& b,MPI_Op op){ if(op==MPI_SUM) a=a+b; else if(op==MPI_PROD) a=a*b; else if constexpr(!std::is_same_v<T,std::complex<double>>){ if(op==MPI_MAX) a=a<b?b:a; else if(op==MPI_MIN) a=b<a?b:a; else abort(); } else abort(); }
template<class T> void redn(char* a,const char* b,int n,MPI_Op op){ for(int i=0;i<n;i++) red(((T*)a)[i],((const T*)b)[i],op); }
inline void reduce(char* a,const char* b,int n,MPI_Datatype t,MPI_Op op){ auto u=opsm().find((const void*)op); if(u!=opsm().end()){ int k=n; u->second((void*)b,(void*)a,&k,&t); return; }
  if(t==MPI_DOUBLE) redn<double>(a,b,n,op); else if(t==MPI_INT) redn<int>(a,b,n,op); else if(t==MPI_UNSIGNED_LONG) redn<unsigned long>(a,b,n,op); else if(t==MPI_LONG) redn<long>(a,b,n,op); else if(t==MPI_UNSIGNED) redn<unsigned>(a,b,n,op); else if(t==MPI_CXX_DOUBLE_COMPLEX) redn<std::complex<double>>(a,b,n,op); else if(t==MPI_CXX_BOOL) redn<bool>(a,b,n,op); else abort(); }
}
extern "C" {
int MPI_Initialized(int* f){ *f=1; return 0; } int MPI_Finalized(int* f){ *f=0; return 0; } int MPI_Abort(MPI_Comm,int){ SYM_ASSERT(false,"MPI_Abort"); abort(); }
int MPI_Comm_rank(MPI_Comm c,int* r){ *r=MW::crank(c); return 0; } int MPI_Comm_size(MPI_Comm c,int* s){ *s=MW::csize(c); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm* n){ std::vector<char*> p(1,nullptr); if(MW::crank(c)==0){ p[0]=(char*)malloc(8); auto g=MW::group(c); MW::w()->groups[p[0]]=g; } auto& v=MW::all(c,p.data(),8); memcpy(n,v[0].data(),8); MW::w()->opened++; return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm* n){ int q[2]={color,key}; long k=MW::w()->r[MW::w()->me].seq[c]; auto v=MW::all(c,q,sizeof q); if(color==MPI_UNDEFINED){ *n=MPI_COMM_NULL; return 0; } auto& h=MW::w()->splits[{(const void*)c,k,color}]; if(!h){ h=(MPI_Comm)malloc(8); auto g=MW::group(c); std::vector<std::pair<int,int>> o; for(std::size_t i=0;i<v.size();i++){ int z[2]; memcpy(z,v[i].data(),sizeof z); if(z[0]==color) o.push_back({z[1],g[i]}); } std::stable_sort(o.begin(),o.end(),[](auto& a,auto& b){ return a.first<b.first; }); auto& m=MW::w()->groups[(const void*)h]; for(auto& e:o) m.push_back(e.second); } *n=h; return 0; }
int MPI_Comm_free(MPI_Comm* c){ SYM_ASSERT(*c!=MPI_COMM_WORLD&&*c!=MPI_COMM_NULL,"MPI_Comm_free"); MW::w()->freed++; *c=MPI_COMM_NULL; return 0; }
int MPI_Get_address(const void* p,MPI_Aint* a){ *a=(MPI_Aint)p; return 0; } 
int MPI_Type_create_struct(int n,const int l[],const MPI_Aint d[],const MPI_Datatype t[],MPI_Datatype* o){ MW::Type q; q.ext=0; for(int i=0;i<n;i++){ MW::Type s=MW::ty(t[i]); for(int k=0;k<l[i];k++) for(auto& b:s.b) q.b.push_back({d[i]+k*s.ext+b[0],b[1]}); q.ext=std::max(q.ext,(long)d[i]+l[i]*s.ext); } *o=(MPI_Datatype)malloc(8); MW::types()[(const void*)*o]=q; return 0; }
int MPI_Type_create_resized(MPI_Datatype t,MPI_Aint,MPI_Aint e,MPI_Datatype* o){ MW::Type q=MW::ty(t); q.ext=e; *o=(MPI_Datatype)malloc(8); MW::types()[(const void*)*o]=q; return 0; }
int MPI_Type_contiguous(int n,MPI_Datatype t,MPI_Datatype* o){ MPI_Aint z=0; return MPI_Type_create_struct(1,&n,&z,&t,o); }
int MPI_Type_commit(MPI_Datatype*){ return 0; } int MPI_Type_free(MPI_Datatype* t){ *t=MPI_DATATYPE_NULL; return 0; } int MPI_Type_size(MPI_Datatype t,int* s){ *s=MW::ty(t).size(); return 0; }
int MPI_Pack_size(int n,MPI_Datatype t,MPI_Comm,int* s){ *s=n*MW::ty(t).size(); return 0; }
int MPI_Pack(const void* in,int n,MPI_Datatype t,void* out,int size,int* pos,MPI_Comm){ long b=n*MW::ty(t).size(); SYM_ASSERT(*pos+b<=size,"MPI_Pack: room in the buffer"); MW::pack(in,n,t,(char*)out+*pos); *pos+=b; return 0; }
int MPI_Unpack(const void* in,int size,int* pos,void* out,int n,MPI_Datatype t,MPI_Comm){ long b=n*MW::ty(t).size(); SYM_ASSERT(*pos+b<=size,"MPI_Unpack: data in the buffer"); MW::unpack((const char*)in+*pos,b,out,t); *pos+=b; return 0; }
int MPI_Issend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* r){ *r=(MPI_Request)MW::send(b,n,t,d,tag,c,true); return 0; }
int MPI_Isend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* r){ *r=(MPI_Request)MW::send(b,n,t,d,tag,c,true); return 0; }
int MPI_Ssend(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ MW::finish(MW::send(b,n,t,d,tag,c,true),MPI_STATUS_IGNORE); return 0; }
int MPI_Send(const void* b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ MW::finish(MW::send(b,n,t,d,tag,c,true),MPI_STATUS_IGNORE); return 0; }
int MPI_Irecv(void* b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request* r){ *r=(MPI_Request)MW::recv(b,n,t,s,tag,c); return 0; }
int MPI_Recv(void* b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status* st){ MW::finish(MW::recv(b,n,t,s,tag,c),st); return 0; }
int MPI_Sendrecv(const void* sb,int sn,MPI_Datatype st,int d,int stag,void* rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status* stat){ MW::Req* a=MW::send(sb,sn,st,d,stag,c,true); MW::finish(MW::recv(rb,rn,rt,s,rtag,c),stat); MW::finish(a,MPI_STATUS_IGNORE); return 0; }
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status* st){ for(;;){ for(auto& m:MW::w()->msgs){ MW::Req r{false}; r.src=s; r.dst=MW::crank(c); r.tag=tag; r.comm=c; if(MW::match(r,m)){ if(st!=MPI_STATUS_IGNORE){ st->MPI_SOURCE=m.src; st->MPI_TAG=m.tag; st->MPI_ERROR=0; st->_ucount=m.d.size(); } return 0; } } MW::yield(); } }
int MPI_Get_count(const MPI_Status* s,MPI_Datatype t,int* n){ *n=s->_ucount/MW::ty(t).size(); return 0; }
int MPI_Wait(MPI_Request* r,MPI_Status* s){ if(*r!=MPI_REQUEST_NULL) MW::finish((MW::Req*)*r,s); *r=MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n,MPI_Request r[],MPI_Status s[]){ for(int i=0;i<n;i++) MPI_Wait(&r[i],s==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:&s[i]); return 0; }
int MPI_Waitany(int n,MPI_Request r[],int* idx,MPI_Status* s){ for(;;){ bool any=false; for(int k=0;k<n;k++){ int i=MW::w()->lastFirst?n-1-k:k; if(r[i]==MPI_REQUEST_NULL) continue; any=true; if(((MW::Req*)r[i])->done){ *idx=i; MW::finish((MW::Req*)r[i],s); r[i]=MPI_REQUEST_NULL; return 0; } } if(!any){ *idx=MPI_UNDEFINED; return 0; } MW::yield(); } }
int MPI_Test(MPI_Request* r,int* f,MPI_Status* s){ *f=1; if(*r==MPI_REQUEST_NULL) return 0; if(!((MW::Req*)*r)->done){ MW::yield(); } *f=((MW::Req*)*r)->done; if(*f) return MPI_Wait(r,s); return 0; }
int MPI_Op_create(MPI_User_function* f,int,MPI_Op* o){ *o=(MPI_Op)malloc(8); MW::opsm()[(const void*)*o]=f; return 0; } int MPI_Op_free(MPI_Op*){ return 0; }
int MPI_Barrier(MPI_Comm c){ MW::all(c,nullptr,0); return 0; }
int MPI_Allreduce(const void* sb,void* rb,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ long b=n*MW::ty(t).ext; auto v=MW::all(c,sb==MPI_IN_PLACE?rb:sb,b); std::vector<char> acc=v[0]; for(int k=1;k<MW::csize(c);k++) MW::reduce(acc.data(),v[k].data(),n,t,op); memcpy(rb,acc.data(),b); return 0; }
int MPI_Allgather(const void* sb,int sn,MPI_Datatype st,void* rb,int rn,MPI_Datatype rt,MPI_Comm c){ auto v=MW::all(c,sb,sn*MW::ty(st).ext); for(int k=0;k<MW::csize(c);k++) memcpy((char*)rb+k*rn*MW::ty(rt).ext,v[k].data(),v[k].size()); return 0; }
int MPI_Allgatherv(const void* sb,int sn,MPI_Datatype st,void* rb,const int rn[],const int d[],MPI_Datatype rt,MPI_Comm c){ auto v=MW::all(c,sb,sn*MW::ty(st).ext); for(int k=0;k<MW::csize(c);k++){ SYM_ASSERT((long)v[k].size()<=rn[k]*MW::ty(rt).ext,"a gathered part fits"); if(!v[k].empty()) memcpy((char*)rb+d[k]*MW::ty(rt).ext,v[k].data(),v[k].size()); } return 0; }
int MPI_Scatter(const void* sb,int sn,MPI_Datatype st,void* rb,int rn,MPI_Datatype rt,int root,MPI_Comm c){ auto v=MW::all(c,sb,MW::crank(c)==root?(long)MW::csize(c)*sn*MW::ty(st).ext:0); (void)rt; memcpy(rb,v[root].data()+(long)MW::crank(c)*rn*MW::ty(rt).ext,rn*MW::ty(rt).ext); return 0; }
int MPI_Sendrecv_replace(void* b,int n,MPI_Datatype t,int d,int stag,int s,int rtag,MPI_Comm c,MPI_Status* stat){ MW::Req* a=MW::send(b,n,t,d,stag,c,true); MW::finish(MW::recv(b,n,t,s,rtag,c),stat); MW::finish(a,MPI_STATUS_IGNORE); return 0; }
int MPI_Error_string(int,char* b,int* n){ b[0]=0; *n=0; return 0; }
int MPI_Bcast(void* b,int n,MPI_Datatype t,int root,MPI_Comm c){ auto v=MW::all(c,b,n*MW::ty(t).ext); memcpy(b,v[root].data(),v[root].size()); return 0; }
}
