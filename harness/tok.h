// Text streams under symbolic values.  The real formatting code of the library under test runs on
// real std streams; only the number conversions of the C++ library (double <-> characters) are replaced:
// inserting entry k of the value table writes the token "@k@" (padded to the stream's width), extracting
// a token gives the value back.  Inserting also records the precision and format flags in force.
// The definitions below take the place of the ones in libstdc++ (same symbols), for the symbolic run and
// for the native replay alike.
#pragma once
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <string>
#include <vector>
#include <cstdlib>
namespace Tok {
struct Rec { double v; int prec; bool sci; };
inline std::vector<Rec>& tab(){ static std::vector<Rec> t; return t; }
inline void clear(){ tab().clear(); }
inline std::ostream& put(std::ostream& s,double v){
  int k=(int)tab().size(); tab().push_back({v,(int)s.precision(),(s.flags()&std::ios_base::floatfield)==std::ios_base::scientific});
  char b[32]; int n=0; b[n++]='@'; char d[16]; int m=0; do { d[m++]=char('0'+k%10); k/=10; } while(k); while(m) b[n++]=d[--m]; b[n++]='@'; b[n]=0;
  return s<<(const char*)b; }
inline std::istream& get(std::istream& s,double& v){
  std::istream::sentry ok(s); if(!ok) return s;
  std::string w; int c=s.peek();
  if(c=='@'){ s.get(); w=""; while((c=s.peek())!=EOF && c>='0' && c<='9'){ w+=(char)s.get(); }
    if(c!='@' || w.empty()){ v=0; s.setstate(std::ios_base::failbit); return s; } s.get();
    size_t k=(size_t)atoi(w.c_str()); if(k>=tab().size()){ v=0; s.setstate(std::ios_base::failbit); return s; } v=tab()[k].v; return s; }
  while((c=s.peek())!=EOF && ((c>='0'&&c<='9')||c=='+'||c=='-'||c=='.'||c=='e'||c=='E')) w+=(char)s.get();
  if(c==EOF) s.setstate(std::ios_base::eofbit);
  char* e=nullptr; double r=w.empty()?0:strtod(w.c_str(),&e);
  if(w.empty()||*e){ v=0; s.setstate(std::ios_base::failbit); return s; }
  v=r; return s; }
}
extern "C" {
std::ostream& tok_insert_d(std::ostream& s,double v) asm("_ZNSo9_M_insertIdEERSoT_") __attribute__((visibility("hidden")));
std::istream& tok_extract_d(std::istream& s,double& v) asm("_ZNSi10_M_extractIdEERSiRT_") __attribute__((visibility("hidden")));
#ifdef SYM_REPLAY
// the plain build calls the out of line operators
std::ostream& tok_op_d(std::ostream& s,double v) asm("_ZNSolsEd") __attribute__((visibility("hidden")));
std::istream& tok_xop_d(std::istream& s,double& v) asm("_ZNSirsERd") __attribute__((visibility("hidden")));
#endif
}
#ifdef SYM_REPLAY
__attribute__((noinline,used,visibility("hidden"))) std::ostream& tok_op_d(std::ostream& s,double v){ return Tok::put(s,v); }
__attribute__((noinline,used,visibility("hidden"))) std::istream& tok_xop_d(std::istream& s,double& v){ return Tok::get(s,v); }
#endif
__attribute__((noinline,used,visibility("hidden"))) std::ostream& tok_insert_d(std::ostream& s,double v){ return Tok::put(s,v); }
__attribute__((noinline,used,visibility("hidden"))) std::istream& tok_extract_d(std::istream& s,double& v){ return Tok::get(s,v); }
