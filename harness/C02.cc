// C02: out-of-protocol construction calls are refused and leave no memory error behind
// BOUNDS: all sequences of 4 (thorough: 5) construction calls on a 2x2 matrix out of 13 kinds with symbolic arguments, starting from an unset matrix; afterwards the matrix is sized and built in the mode it is in, or destroyed
#include "mat.h"
using namespace Dune; using namespace H;
typedef BCRSMatrix<double> M;
enum St { NA, BU, RS, BT }; enum { OK=0, MERR=1, STATE=2 };
template<class F> static int outcome(F f){ try{ f(); return OK; } catch(const BCRSMatrixError&){ return MERR; } catch(const InvalidStateException&){ return STATE; } }
static void sequence(int K){
  M A; int st=NA; int bm=M::unknown; bool params=false; long rs[2]={0,0}; bool w[2][2]={}; long nnz=0; bool ent[2]={};
  for(int k=0;k<K;k++){
    long op=sym_concrete_l(sym_int("op",0,12)); int got=-1,want=OK; const char* l="";
    switch(op){
    case 0:{ long b=sym_concrete_l(sym_int("mode",0,3)); static const M::BuildMode md[4]={M::unknown,M::random,M::row_wise,M::implicit}; l="setBuildMode"; got=outcome([&]{A.setBuildMode(md[b]);});
      if(st==NA) bm=md[b]; else if(st==BU&&bm!=M::implicit&&(b==1||b==2)) bm=md[b]; else want=STATE; break; }
    case 1:{ bool g=sym_bool("nnz"); l="setSize"; got=outcome([&]{ if(g) A.setSize(2,2,3); else A.setSize(2,2); }); st=NA;
      if(bm==M::implicit&&g) want=MERR; else if(bm==M::implicit&&!params) want=STATE; else { st=BU; rs[0]=rs[1]=0; for(auto&r:w) for(bool&x:r) x=false; nnz=g?3:0; ent[0]=ent[1]=false; } break; }
    case 2:{ l="setrowsize"; long s=sym_concrete_l(sym_int("s",0,2)); if(!(bm==M::random&&st==BU)) want=MERR; got=outcome([&]{A.setrowsize(0,s);}); if(want==OK) rs[0]=s; break; }
    case 3:{ l="incrementrowsize"; if(!(bm==M::random&&st==BU)) want=MERR; got=outcome([&]{A.incrementrowsize(1);}); if(want==OK) rs[1]++; break; }
    case 4:{ l="endrowsizes"; if(!(bm==M::random&&st==BU)||(nnz>0&&nnz<rs[0]+rs[1])) want=MERR; got=outcome([&]{A.endrowsizes();}); if(want==OK) st=RS; break; }
    case 5:{ l="addindex"; long i=sym_int("i",0,1),j=sym_int("j",0,2); if(!(bm==M::random&&st==RS)||j>1) want=MERR; else { i=sym_concrete_l(i); j=sym_concrete_l(j); if(!w[i][j]&&w[i][0]+w[i][1]>=rs[i]) want=MERR; else w[i][j]=true; } got=outcome([&]{A.addindex(i,j);}); break; }
    case 6:{ l="endindices"; if(!(bm==M::random&&st==RS)) want=MERR; got=outcome([&]{A.endindices();}); if(want==OK) st=BT; break; }
    case 7:{ l="row-wise creation"; bool ok=st==BU&&(bm==M::unknown||bm==M::row_wise); if(!ok) want=MERR; long stop=sym_concrete_l(sym_int("rows",1,2)); int mx=sym_concrete_l(sym_int("per",0,1));
      got=outcome([&]{ auto it=A.createbegin(); for(int i=0;i<stop;i++){ it.insert(1-i); if(mx) it.insert(i); ++it; } });
      if(st==BU&&bm==M::unknown) bm=M::row_wise;
      if(ok){ if(nnz>0&&stop*(1+mx)>nnz) { want=MERR; } else if(stop==2){ st=BT; for(int i=0;i<2;i++){ w[i][1-i]=true; w[i][i]=mx; } } else { // half built: throw it away
          if(got==OK){ int e=outcome([&]{ M B(A); }); SYM_ASSERT(e==STATE,"copy of a half created matrix is refused"); A.setSize(2,2); nnz=0; rs[0]=rs[1]=0; } } 
        if(want==MERR&&ok){ SYM_ASSERT(got==MERR,"row-wise creation with too small nnz is refused"); A.setSize(2,2); nnz=0; rs[0]=rs[1]=0; } } break; }
    case 8:{ l="setImplicitBuildModeParameters"; bool neg=sym_bool("neg"); if(neg) want=MERR; else if(st!=NA) want=STATE; got=outcome([&]{A.setImplicitBuildModeParameters(2,neg?-0.5:0.5);}); if(want==OK) params=true; break; }
    case 9:{ l="compress"; if(!(bm==M::implicit&&st==BU)) want=MERR; else { for(int i=0;i<2;i++) if(sym_bool("e")){ A.entry(i,1-i)=1.0; w[i][1-i]=true; } } got=outcome([&]{A.compress();}); if(want==OK) st=BT; break; }
    case 10:{ l="copy construction"; if(st==BU||st==RS) want=STATE; got=outcome([&]{ M B(A); SYM_EQ(B.N(),A.N(),"copied size"); }); break; }
    case 11:{ l="assignment"; bool into=sym_bool("into"); if(st==BU||st==RS) want=STATE; got=outcome([&]{ M B; if(into&&st!=NA){ B.setBuildMode(M::row_wise); B.setSize(1,1); auto it=B.createbegin(); it.insert(0); ++it; A=B; A=M(B); } else B=A; });
      if(into&&st==BT&&want==OK) return; break; }
    case 12:{ l="scalar assignment"; if(st==BU||st==RS) want=STATE; got=outcome([&]{ A=1.0; }); break; }
    }
    if(got!=want){ sym_note_l("op",op); sym_note_l("got",got); sym_note_l("want",want); }
    sym_assert_b(got==want,l); if(want!=OK) sym_reach("refused");
    if(st==BT){ sym_reach("built"); }
  }
  if(st==BT){ Pat<2,2> p; for(int i=0;i<2;i++) for(int j=0;j<2;j++) p[i][j]=w[i][j]; samePattern(A,p,"pattern after the calls"); A=0.0; }
  // whatever happened: the object can be sized again and be built
  if(bm==M::implicit&&!params) return;
  if(bm==M::unknown){ A.setSize(2,2); bm=M::row_wise; A.setBuildMode(M::row_wise); }
  Pat<2,2> q; q[0][1]=q[1][0]=q[1][1]=true; build(A,q,bm==M::implicit?IMPLICIT:bm==M::random?RANDOM:ROWWISE,false); samePattern(A,q,"pattern of the final build"); sym_reach("rebuilt");
}
SYM_HARNESS(sequences,SYM_REAL,"refused,built,rebuilt"){ sequence(sym_tier()?4:3); }
// directed: start inside a stage
SYM_HARNESS(deep_random,SYM_REAL,"done"){
  M A(2,2,M::random); A.setrowsize(0,2); A.setrowsize(1,1); 
  long at=sym_concrete_l(sym_int("at",0,2)); 
  if(at>=1) A.endrowsizes(); if(at>=2){ A.addindex(0,1); A.addindex(1,0); A.endindices(); }
  long bad=sym_concrete_l(sym_int("bad",0,9)); int got=OK,want=OK;
  switch(bad){
   case 0: got=outcome([&]{A.setrowsize(0,1);}); want=at==0?OK:MERR; break;
   case 1: got=outcome([&]{A.incrementrowsize(0,2);}); want=at==0?OK:MERR; break;
   case 2: got=outcome([&]{A.endrowsizes();}); want=at==0?OK:MERR; break;
   case 3: got=outcome([&]{A.addindex(1,1);}); want=at==1?OK:MERR; break;
   case 4: got=outcome([&]{A.addindex(0,sym_int("col",2,1000000));}); want=MERR; break;
   case 5: got=outcome([&]{A.endindices();}); want=at==1?OK:MERR; break;
   case 6: got=outcome([&]{A.compress();}); want=MERR; break;
   case 7: got=outcome([&]{A.createbegin();}); want=MERR; break;
   case 8: got=outcome([&]{A.setImplicitBuildModeParameters(1,1);}); want=STATE; break;
   case 9: got=outcome([&]{A.setBuildMode(M::row_wise);}); want=at==0?OK:STATE; break;
  }
  SYM_ASSERT(got==want,"protocol in random mode"); sym_reach("done");
}
// declared but never provided storage: destruction and copies of entries with own memory
SYM_HARNESS(abandon_nested,SYM_REAL,"done"){
  typedef BCRSMatrix<M> MM; MM A; long k=sym_concrete_l(sym_int("kind",0,2));
  if(k==0){ A.setBuildMode(MM::random); A.setSize(2,2); A.setrowsize(0,sym_concrete_l(sym_int("s",0,2))); if(sym_bool("end")) A.endrowsizes(); }
  else if(k==1){ A.setBuildMode(MM::row_wise); if(sym_bool("nnz")) A.setSize(2,2,2); else A.setSize(2,2); auto it=A.createbegin(); it.insert(1); ++it; if(sym_bool("2")) ++it; }
  else { A.setBuildMode(MM::implicit); A.setImplicitBuildModeParameters(1,1.0); A.setSize(2,2); M e(1,1,M::row_wise); {auto it=e.createbegin(); it.insert(0); ++it;} A.entry(0,0)=e; A.entry(0,1)=e; A.entry(1,0)=e; A.entry(0,0)[0][0]=1.0; if(sym_bool("c")) A.compress(); }
  if(sym_bool("resize")) A.setSize(3,3);
  sym_reach("done");
}
