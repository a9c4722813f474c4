// Native replay runtime: reads the inputs of one path and runs the harness on
// the plainly compiled real code.  Exit 0 pass, 1 property violated, 2 inputs
// do not satisfy the assumptions, 3 usage.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
static std::map<std::string,std::string> in; static std::map<std::string,int> cnt; static int tier=0;
struct H{ std::string n; int mode; void(*fn)(); };
static std::vector<H>& reg(){ static std::vector<H> r; return r; }
static int curMode=0; static bool nonfinite=false;
static std::string get(const char*n){ std::string nm=n; int c=cnt[nm]++; if(c) nm+="~"+std::to_string(c); auto i=in.find(nm); return i==in.end()?"":i->second; }
static void die(const char*l){ printf("REPLAY-FAIL %s\n",l); fflush(stdout); _exit(1); }
extern "C" {
const char* __asan_default_options(){ return "detect_leaks=0:allocator_may_return_null=0:exitcode=66:handle_abort=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0"; }
long sym_int_i(const char*n,long lo,long hi){ std::string s=get(n); if(s.empty()) return lo; return strtol(s.c_str(),0,10); }
bool sym_bool_i(const char*n){ std::string s=get(n); return s=="1"; }
double sym_real_i(const char*n){ std::string s=get(n); if(s.empty()) return 1; return strtod(s.c_str(),0); }
double sym_exact_d(double v){ return v; }
void sym_cut(){ _exit(2); }
void sym_assume_b(bool c){ if(!c){ printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(2);} }
void sym_assert_b(bool c,const char*l){ if(!c) die(l); }
void sym_assert_eq_d(double a,double b,const char*l){ if(std::isnan(a)&&std::isnan(b)) return; if(a==b) return; if(curMode==1||!(std::isfinite(a)&&std::isfinite(b))||fabs(a-b)>1e-6*(1e-3+fabs(a)+fabs(b))){ printf("got %.17g expected %.17g\n",a,b); die(l);} }
void sym_assert_eq_l(long a,long b,const char*l){ if(a!=b){ printf("got %ld expected %ld\n",a,b); die(l);} }
void sym_reach(const char*){ }
long sym_concrete_l(long v){ return v; }
int sym_tier(){ return tier; } int sym_is_native(){ return 1; }
void sym_fail(const char*l){ die(l); }
void sym_note_l(const char*n,long v){ printf("note %s %ld\n",n,v); }
void sym_register(const char*n,int m,void(*f)(),const char*){ reg().push_back({n,m,f}); }
}
int main(int argc,char**argv){ std::string name,file; for(int i=1;i<argc;++i){ std::string a=argv[i]; if(a=="--harness") name=argv[++i]; else if(a=="--input") file=argv[++i]; else if(a=="--tier") tier=atoi(argv[++i]); }
  FILE*f=fopen(file.c_str(),"r"); if(!f) return 3; char b[512]; while(fgets(b,512,f)){ std::string t=b; while(!t.empty()&&isspace((unsigned char)t.back())) t.pop_back(); if(t.size()<4||t[0]=='#'||t[1]!=' ') continue; auto p=t.rfind(' '); if(p>2) in[t.substr(2,p-2)]=t.substr(p+1); } fclose(f);
  for(auto&h:reg()) if(h.n==name){ curMode=h.mode; try{ h.fn(); }catch(std::exception&e){ int s; char*d=abi::__cxa_demangle(typeid(e).name(),0,0,&s); printf("REPLAY-FAIL uncaught %s %s\n",d?d:"?",e.what()); fflush(stdout); _exit(1);}catch(...){ int s; const std::type_info*t=abi::__cxa_current_exception_type(); char*d=t?abi::__cxa_demangle(t->name(),0,0,&s):nullptr; printf("REPLAY-FAIL uncaught %s\n",d?d:"?"); fflush(stdout); _exit(1);} printf("REPLAY-PASS\n"); fflush(stdout); _exit(0);} 
  return 3; }
