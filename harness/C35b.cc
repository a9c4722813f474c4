// C35: the ARPACK++ front end hands the library the right operator and returns its pair
// FLAGS: -DHAVE_ARPACKPP=1 -I/verif/harness/mockarpack
// BOUNDS: square matrices of up to 2x2 blocks of size 1 and 2, rectangular ones of 3x2 blocks of size 1 and 2x1 blocks of size 2x1, all patterns, all real values; the library is a stand-in that probes the operator with every unit vector and answers with arbitrary numbers, or with none converged
#include <iomanip>
#include <iostream>
#include "flat.h"
#include <dune/istl/eigenvalue/arpackpp.hh>
using namespace Dune; using namespace H;
enum { MAXMAG,MINMAG,SCOND,NMAX,NMIN,NCOND };
template<int r,int c,int n,int m> void front(bool sparse=false){ typedef BCRSMatrix<FieldMatrix<double,r,c>> M; typedef BlockVector<FieldVector<double,c>> X; mockar::answers().clear(); mockar::converged()=2*sym_concrete_l(sym_int("converged",0,1)); int what=sym_concrete_l(sym_int("function",0,5)); bool nonsym=what>=NMAX; Pat<n,m> w=full<n,m>(); if(sparse){ w=pattern<n,m>(); } M A; build(A,w); fillvals(A,w); auto D=dense(A); int it=3; ArPackPlusPlus_Algorithms<M,X> g(A,it); double eps=sym_real("epsilon"),out=sym_real("stale"); X x(m); fillv(x,"x");
  bool none=false; try{ g.getIterationCount(); } catch(ISTLError&){ none=true; } SYM_ASSERT(none,"no iterations before the first run");
  bool thrown=false,refused=false; try{ switch(what){ case MAXMAG: g.computeSymMaxMagnitude(eps,x,out); break; case MINMAG: g.computeSymMinMagnitude(eps,x,out); break; case SCOND: g.computeSymCond2(eps,out); break; case NMAX: g.computeNonSymMax(eps,x,out); break; case NMIN: g.computeNonSymMin(eps,x,out); break; default: g.computeNonSymCond2(eps,out); } } catch(ArpackError&){ thrown=true; } catch(ISTLError&){ refused=true; }
  SYM_ASSERT(refused==(!nonsym&&n*r!=m*c||n*r<m*c),"only square matrices for eigenvalues, not fewer rows than columns for singular values"); if(refused){ SYM_ASSERT(mockar::answers().empty(),"refused before the library is called"); sym_reach("refused"); return; }
  auto& a=mockar::answers(); DM<double> O=nonsym?mm(tr(D),D):D; int iters=0; bool all=true; for(auto& p:a){ DM<double> P(p.n,p.n); P.a=p.op; eqm(P,O,"operator given to the library"); SYM_EQ(p.tol,eps,"tolerance"); SYM_ASSERT(p.ncv<=p.n,"number of Arnoldi vectors"); SYM_ASSERT(p.maxit>=it,"iteration limit"); iters+=p.iter; if((int)p.ev.size()<p.nev) all=false; }
  SYM_ASSERT(thrown==!all,"fails exactly when the library found too few eigenvalues"); if(thrown){ sym_reach("none"); return; }
  SYM_EQ((int)g.getIterationCount(),iters,"iterations taken");
  auto end=[&](bool big,int& pi,int& ki){ int hits=0; for(std::size_t p=0;p<a.size();p++) for(int k=0;k<a[p].nev;k++){ std::string s=a[p].which; bool lo=s=="SM"&&a[p].nev==1||nonsym&&(s=="SA"&&a[p].nev==1||s=="BE"&&a[p].nev==2&&k==0), hi=s=="LM"&&a[p].nev==1||nonsym&&(s=="LA"&&a[p].nev==1||s=="BE"&&a[p].nev==2&&k==1); if(big?hi:lo){ hits++; pi=p; ki=k; } } return hits==1; };
  int p=0,k=0,q=0,l=0; if(what==SCOND||what==NCOND){ SYM_ASSERT(end(true,p,k)&&end(false,q,l),"asks for the eigenvalues of largest and smallest magnitude"); double u=a[p].ev[k],v=a[q].ev[l]; sym_assume(v>1.0/1024||v<-1.0/1024); if(nonsym){ sym_assume(u>0.0&&v>0.0); SYM_EQ(out*out*v,u,"condition number squared"); SYM_ASSERT(out>=0.0,"condition number nonnegative"); } else SYM_EQ(out,std::abs(u/v),"condition number"); sym_reach("condition"); }
  else { SYM_ASSERT(end(what==MAXMAG||what==NMAX,p,k),"asks for the right end of the spectrum"); double u=a[p].ev[k]; if(nonsym){ sym_assume(u>=0.0); SYM_EQ(out*out,u,"singular value squared"); SYM_ASSERT(out>=0.0,"singular value nonnegative"); } else SYM_EQ(out,u,"eigenvalue"); DV<double> v(a[p].vec.begin()+k*a[p].n,a[p].vec.begin()+(k+1)*a[p].n); eqv(flat<double>(x),v,"vector"); sym_reach("pair"); } }
SYM_HARNESS(square1,SYM_REAL,"none,pair,condition"){ front<1,1,2,2>(); }
SYM_HARNESS(square2,SYM_REAL,"none,pair,condition"){ front<2,2,1,1>(); }
SYM_HARNESS(tall,SYM_REAL,"refused,none,pair,condition"){ front<1,1,3,2>(); }
SYM_HARNESS(tall_block,SYM_REAL,"refused,none,pair,condition"){ front<2,1,2,1>(); }
SYM_HARNESS(mixed,SYM_REAL,"none,pair,condition"){ front<1,2,2,1>(); }
SYM_HARNESS(wide,SYM_REAL,"refused"){ front<1,1,1,2>(); }
