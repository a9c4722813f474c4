// C34: factories build the configured object
// BOUNDS: every registered preconditioner and iterative solver with every combination of present and absent parameters (two or three values each), 3x3 matrices with all values (preconditioners), a fixed system of 12 unknowns and at most 14 iterations (solvers); unknown names and missing required parameters; preconditioners passed at run time in sequences of two; operators without matrix; registries of three entries
// ASSUME: the objects built by their ordinary constructors behave as C16-C23 establish; numbers in the configuration are parsed by dune-common
#include "flat.h"
#include <dune/common/parametertree.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solverfactory.hh>
#include "solv.h"
using namespace Dune; using namespace H;
typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> X; typedef MatrixAdapter<M,X,X> Op; typedef Preconditioner<X,X> P; typedef InverseOperator<X,X> I;
static bool pick(ParameterTree& c,const char* key,std::initializer_list<const char*> vals,int& which){ which=sym_concrete_l(sym_int(key,0,(long)vals.size())); if(which) c[key]=*(vals.begin()+(which-1)); return which; }
static void same(const X& a,const X& b,const char* l){ sym_assert_b(a.size()==b.size(),l); for(std::size_t i=0;i<a.size();i++) sym_eq_(a[i][0],b[i][0],l); }
template<class F> static bool thrown(F f){ try { f(); } catch(Dune::Exception&){ return true; } return false; }
template<class E,class F> static bool throws(F f){ try { f(); } catch(E&){ return true; } catch(...){ return false; } return false; }
static std::shared_ptr<Op> system(int n,M& A,bool ident,bool sym=false){ A.setBuildMode(M::random); A.setSize(n,n); for(int i=0;i<n;i++) A.setrowsize(i,(i>0)+(i+1<n)+1); A.endrowsizes(); for(int i=0;i<n;i++) for(int j=i?i-1:0;j<=i+1&&j<n;j++) A.addindex(i,j); A.endindices(); for(int i=0;i<n;i++) for(int j=i?i-1:0;j<=i+1&&j<n;j++) A[i][j]=ident?(i==j?4.0+i:(sym||i<j?1.0:0.5)):sym_real("a"); return std::make_shared<Op>(A); }
enum { SSOR_,SOR_,GS_,JAC_,DILU_,ILU_,RICH_,ILDL_,NP };
static const char* pname[NP]={"ssor","sor","gs","jac","dilu","ilu","richardson","ildl"};
template<class D> static bool is(P* p){ return dynamic_cast<D*>(p)!=nullptr; }
static void prec(int k){ initSolverFactories<Op>(); M A; auto op=system(3,A,false); double d[3]; if(k!=RICH_){ for(int i=0;i<3;i++) sym_assume(A[i][i][0][0]!=0.0); if(k==DILU_||k==ILU_){ double p=A[0][0][0][0]; for(int i=1;i<3;i++){ sym_assume(p!=0.0); p=A[i][i][0][0]-A[i][i-1][0][0]*A[i-1][i][0][0]/p; } sym_assume(p!=0.0); } if(k==ILDL_){ A[0][1]=A[1][0]; A[1][2]=A[2][1]; double p=A[0][0][0][0]; for(int i=1;i<3;i++) { sym_assume(p!=0.0); p=A[i][i][0][0]-A[i][i-1][0][0]*A[i][i-1][0][0]/p; } sym_assume(p!=0.0); } }
  ParameterTree c; c["type"]=pname[k]; int it=0,re=0,n=0,so=0; bool iter=k==SSOR_||k==SOR_||k==GS_||k==JAC_; pick(c,"relaxation",{"0.5","1.75"},re); if(iter) pick(c,"iterations",{"1","2"},it); if(k==ILU_){ pick(c,"n",{"0","1"},n); pick(c,"resort",{"false","true"},so); }
  double w=re==0?1.0:re==1?0.5:1.75; int its=it<2?1:2,lev=n<2?0:1; bool resort=so==2; std::shared_ptr<P> f=getPreconditionerFromFactory(op,c); std::shared_ptr<P> g;
  switch(k){ case SSOR_: SYM_ASSERT((is<SeqSSOR<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqSSOR<M,X,X>>(A,its,w); break; case SOR_: SYM_ASSERT((is<SeqSOR<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqSOR<M,X,X>>(A,its,w); break; case GS_: SYM_ASSERT((is<SeqGS<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqGS<M,X,X>>(A,its,w); break; case JAC_: SYM_ASSERT((is<SeqJac<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqJac<M,X,X>>(A,its,w); break;
    case DILU_: SYM_ASSERT((is<SeqDILU<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqDILU<M,X,X>>(A,w); break; case ILU_: SYM_ASSERT((is<SeqILU<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqILU<M,X,X>>(A,lev,w,resort); break; case RICH_: SYM_ASSERT((is<Richardson<X,X>>(f.get())),"type"); g=std::make_shared<Richardson<X,X>>(w); break; default: SYM_ASSERT((is<SeqILDL<M,X,X>>(f.get())),"type"); g=std::make_shared<SeqILDL<M,X,X>>(A,w); }
  X v(3),u(3),r(3); for(int i=0;i<3;i++){ r[i]=sym_real("r"); v[i]=u[i]=iter?sym_real("v"):0.0; } X x(v),y(v); f->pre(x,r); f->apply(v,r); f->post(x); g->pre(y,r); g->apply(u,r); g->post(y); same(v,u,"same as the object built directly"); SYM_ASSERT(f->category()==SolverCategory::sequential,"category"); if(re==0&&it==0&&n==0&&so==0) sym_reach("defaults"); else sym_reach("configured"); }
#define PR(n,k) SYM_HARNESS(prec_##n,SYM_REAL,"defaults,configured"){ prec(k); }
PR(ssor,SSOR_) PR(sor,SOR_) PR(gs,GS_) PR(jac,JAC_) PR(dilu,DILU_) PR(ilu,ILU_) PR(richardson,RICH_) PR(ildl,ILDL_)
static const char* sname[NSOL]={"loopsolver","gradientsolver","cgsolver","bicgstabsolver","minressolver","restartedgmressolver","restartedflexiblegmressolver","generalizedpcgsolver","restartedfcgsolver","completefcgsolver"};
static bool kind(I* s,int k){ switch(k){ case LOOP: return dynamic_cast<LoopSolver<X>*>(s); case GRAD: return dynamic_cast<GradientSolver<X>*>(s); case CG: return dynamic_cast<CGSolver<X>*>(s); case BICG: return dynamic_cast<BiCGSTABSolver<X>*>(s); case MINRES: return dynamic_cast<MINRESSolver<X>*>(s); case GMRES: return dynamic_cast<RestartedGMResSolver<X>*>(s)&&!dynamic_cast<RestartedFlexibleGMResSolver<X>*>(s); case FGMRES: return dynamic_cast<RestartedFlexibleGMResSolver<X>*>(s); case GPCG: return dynamic_cast<GeneralizedPCGSolver<X>*>(s); case RFCG: return dynamic_cast<RestartedFCGSolver<X>*>(s)&&!dynamic_cast<CompleteFCGSolver<X>*>(s); default: return dynamic_cast<CompleteFCGSolver<X>*>(s); } }
// both solvers on the same system
static void agree(I& f,I& g,int n,bool sym){ X b(n),x(n),c(n),y(n); for(int i=0;i<n;i++){ b[i]=c[i]=sym&&i==0?sym_real("b"):1.0+(i*7)%5; x[i]=y[i]=0.0; } if(sym) sym_assume(b[0][0]>1.0&&b[0][0]<2.0); InverseOperatorResult r,s; int e=0,h=0; try { f.apply(x,b,r); } catch(Dune::Exception&){ e=1; } try { g.apply(y,c,s); } catch(Dune::Exception&){ h=1; } SYM_ASSERT(e==h,"same outcome"); if(e||h) return; SYM_EQ(r.iterations,s.iterations,"iterations"); SYM_ASSERT(r.converged==s.converged,"converged"); same(x,y,"solution"); same(b,c,"defect"); }
static void solver(int k){ initSolverFactories<Op>(); bool sy=k==LOOP; int n=sy?2:12; M A; auto op=system(n,A,true,k==CG||k==MINRES||k>=GPCG); ParameterTree c; c["type"]=sname[k]; bool gm=k==GMRES||k==FGMRES||k==GPCG,fc=k==RFCG||k==CFCG; int red=sym_concrete_l(sym_int("reduction",0,1)),mi=sym_concrete_l(sym_int("maxit",1,4)),rs=0,pc=sym_concrete_l(sym_int("prec",0,2)); const int mits[]={0,1,2,6,14}; c["reduction"]=red?"0.5":"0.0009765625"; if(sy&&mi>2) mi-=2; c["maxit"]=std::to_string(mits[mi]); c["verbose"]="0"; int restart=1; if(gm){ restart=sym_concrete_l(sym_int("restart",1,4)); c["restart"]=std::to_string(restart); } if(fc){ pick(c,"mmax",{"1","2","13"},rs); restart=rs==0?10:rs==3?13:rs; }
  c["preconditioner.type"]=pc==0?"richardson":pc==1?"jac":"sor"; c["preconditioner.relaxation"]="0.25"; auto f=getSolverFromFactory(op,c); SYM_ASSERT(kind(f.get(),k),"type"); std::shared_ptr<P> p; if(pc==2) p=std::make_shared<SeqSOR<M,X,X>>(A,1,0.25); else if(pc) p=std::make_shared<SeqJac<M,X,X>>(A,1,0.25); else p=std::make_shared<Richardson<X,X>>(0.25); SeqScalarProduct<X> sp; auto g=make<X>(k,*op,sp,*p,red?0.5:0.0009765625,mits[mi],restart); agree(*f,*g,n,sy); SYM_ASSERT(f->category()==SolverCategory::sequential,"category"); sym_reach("done"); }
#define SO(n,k) SYM_HARNESS(n,SYM_REAL,"done"){ solver(k); }
SO(loop,LOOP) SO(gradient,GRAD) SO(cg,CG) SO(bicgstab,BICG) SO(minres,MINRES) SO(gmres,GMRES) SO(fgmres,FGMRES) SO(gpcg,GPCG) SO(rfcg,RFCG) SO(cfcg,CFCG)
// refused configurations
SYM_HARNESS(refused,SYM_REAL,"type,required,preconditioner,done"){ initSolverFactories<Op>(); M A; auto op=system(2,A,true,true); int k=sym_concrete_l(sym_int("solver",0,NSOL-1)),p=sym_concrete_l(sym_int("prec",0,NP-1)); bool gm=k==GMRES||k==FGMRES||k==GPCG; ParameterTree c; int miss=sym_concrete_l(sym_int("miss",0,9)); c["type"]=sname[k]; c["preconditioner.type"]=pname[p]; if(miss!=1) c["reduction"]="0.5"; if(miss!=2) c["maxit"]="3"; if(miss!=3) c["verbose"]="0"; if(miss!=4||!gm) c["restart"]="2"; if(miss==5) c["type"]="cgsolve"; if(miss==6) c["preconditioner.type"]="jacobi"; if(miss==7) c["maxit"]="many"; if(miss==8) c["preconditioner.relaxation"]="1.0x"; if(miss==9) c["type"]="";
  std::shared_ptr<I> s; bool t=thrown([&]{ s=getSolverFromFactory(op,c); }); bool bad=miss!=0&&!(miss==4&&!gm); SYM_ASSERT(t==bad,"refused if and only if wrong"); if(t) SYM_ASSERT(!s,"nothing returned"); else { SYM_ASSERT(kind(s.get(),k),"type"); sym_reach("done"); } if(miss==5||miss==9){ SYM_ASSERT(throws<InvalidStateException>([&]{ getSolverFromFactory(op,c); }),"unknown name"); sym_reach("type"); } if(miss==6){ SYM_ASSERT(throws<InvalidStateException>([&]{ getPreconditionerFromFactory(op,c.sub("preconditioner")); }),"unknown name"); sym_reach("preconditioner"); } if(miss&&miss<4) sym_reach("required");
  ParameterTree e; SYM_ASSERT(thrown([&]{ getSolverFromFactory(op,e); }),"no name"); SYM_ASSERT(thrown([&]{ getPreconditionerFromFactory(op,e); }),"no name"); }
// a preconditioner passed at run time
struct Mock : P { double c; int* n; Mock(double c,int* n):c(c),n(n){} void pre(X&,X&) override {} void apply(X& v,const X& d) override { ++*n; for(std::size_t i=0;i<v.size();i++) v[i][0]=c*d[i][0]; } void post(X&) override {} SolverCategory::Category category() const override { return SolverCategory::sequential; } };
SYM_HARNESS(passed,SYM_REAL,"done"){ initSolverFactories<Op>(); M A; auto op=system(2,A,true,true); int n1=0,n2=0,n3=0; auto p=std::make_shared<Mock>(sym_real("c"),&n1),q=std::make_shared<Mock>(sym_real("c"),&n2); ParameterTree c; c["type"]="loopsolver"; c["reduction"]="0"; c["maxit"]="1"; c["verbose"]="0"; if(decided(sym_bool("configured"))){ c["preconditioner.type"]="ssor"; c["preconditioner.relaxation"]="0.5"; } bool had=c.hasKey("preconditioner.type"); const ParameterTree& cc=c; auto s=getSolverFromFactory(op,cc,std::shared_ptr<P>(p)); SYM_ASSERT(c.hasKey("preconditioner.type")==had&&(!had||c["preconditioner.type"]=="ssor"),"configuration unchanged"); auto t=getSolverFromFactory(op,cc,std::shared_ptr<P>(q));
  auto run=[&](I& s,double pc){ X x(2),b(2),y(2),d(2); for(int i=0;i<2;i++){ x[i]=y[i]=sym_real("x"); b[i]=d[i]=sym_real("b"); } A.mmv(y,d); sym_assume(d[0][0]>1.0); { X v(2); for(int i=0;i<2;i++) v[i]=pc*d[i][0]; y+=v; } InverseOperatorResult r; s.apply(x,b,r); same(x,y,"uses the preconditioner passed"); };
  sym_assume(p->c!=0.0&&q->c!=0.0); run(*s,p->c); SYM_ASSERT(n1==1&&n2==0,"first"); run(*t,q->c); SYM_ASSERT(n1==1&&n2==1,"second"); if(had){ auto u=getSolverFromFactory(op,cc); X x(2),b(2); x=0; b=sym_exact_d(1.0); InverseOperatorResult r; u->apply(x,b,r); SYM_ASSERT(n1==1&&n2==1,"not used by later solvers"); } else SYM_ASSERT(thrown([&]{ getSolverFromFactory(op,cc); }),"no preconditioner configured"); sym_reach("done"); }
// operators without a matrix
struct Free : LinearOperator<X,X> { typedef X domain_type; typedef X range_type; typedef double field_type; void apply(const X& x,X& y) const override { for(std::size_t i=0;i<x.size();i++) y[i][0]=2.0*x[i][0]; } void applyscaleadd(double a,const X& x,X& y) const override { for(std::size_t i=0;i<x.size();i++) y[i][0]+=a*2.0*x[i][0]; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
SYM_HARNESS(matrixfree,SYM_REAL,"refused,done"){ initSolverFactories<Free>(); auto op=std::make_shared<Free>(); int k=sym_concrete_l(sym_int("prec",0,NP-1)); ParameterTree c; c["type"]="loopsolver"; c["reduction"]="0"; c["maxit"]="1"; c["verbose"]="0"; c["preconditioner.type"]=pname[k]; c["preconditioner.relaxation"]="0.25"; if(k!=RICH_){ SYM_ASSERT(throws<NoAssembledOperator>([&]{ getPreconditionerFromFactory(op,c.sub("preconditioner")); }),"needs a matrix"); SYM_ASSERT(throws<NoAssembledOperator>([&]{ getSolverFromFactory(op,c); }),"needs a matrix"); sym_reach("refused"); } else { auto s=getSolverFromFactory(op,c); X x(2),b(2),e(2); for(int i=0;i<2;i++){ x[i]=sym_real("x"); b[i]=sym_real("b"); e[i]=x[i][0]+0.25*(b[i][0]-2.0*x[i][0]); } sym_assume(b[0][0]>2.0*x[0][0]+1.0); InverseOperatorResult r; s->apply(x,b,r); same(x,e,"solution"); sym_reach("done"); } }
// operators seen through a base class, and shared ownership of the matrix
SYM_HARNESS(base,SYM_REAL,"done"){ typedef AssembledLinearOperator<M,X,X> B; initSolverFactories<B>(); std::shared_ptr<I> s; double a[2]; ParameterTree c; c["type"]="loopsolver"; c["reduction"]="0"; c["maxit"]="1"; c["verbose"]="0"; c["preconditioner.type"]="jac"; { auto A=std::make_shared<M>(); system(2,*A,true); auto op=std::make_shared<Op>(std::shared_ptr<const M>(A)); for(int i=0;i<2;i++) a[i]=(*A)[i][i][0][0]; s=getSolverFromFactory(std::shared_ptr<B>(op),c); } X x(2),b(2); x=0; for(int i=0;i<2;i++){ b[i]=sym_real("b"); } sym_assume(b[0][0]>1.0); X e(2); for(int i=0;i<2;i++) e[i]=b[i][0]/a[i]; InverseOperatorResult r; s->apply(x,b,r); same(x,e,"operator kept alive"); sym_reach("done"); }
// own registrations
namespace Dune { namespace { struct TagA {}; } template<class V> struct Thing { virtual ~Thing(){} virtual V get()=0; }; template<class V,int k> struct ThingOf : Thing<V> { V a; ThingOf(V a):a(a){} V get() override { return a+V(k); } };
DUNE_REGISTRY_PUT(TagA,"one",[](auto t,auto a){ using V=typename decltype(t)::type; return std::shared_ptr<Thing<V>>(std::make_shared<ThingOf<V,1>>(a)); });
DUNE_REGISTRY_PUT(TagA,"two",[](auto t,auto a){ using V=typename decltype(t)::type; return std::shared_ptr<Thing<V>>(std::make_shared<ThingOf<V,2>>(a)); });
DUNE_REGISTRY_PUT(TagA,"three",[](auto t,auto a){ using V=typename decltype(t)::type; return std::shared_ptr<Thing<V>>(std::make_shared<ThingOf<V,3>>(a)); });
}
SYM_HARNESS(registry,SYM_REAL,"found,unknown"){ const char* names[]={"none","one","two","three","thre",""}; int k=sym_concrete_l(sym_int("name",0,5)); std::string s=names[k]; double a=sym_real("a"); bool ok=k>=1&&k<=3; auto p=registryGet<Thing,double>(TagA{},s,a); SYM_ASSERT((p!=nullptr)==ok,"found if registered"); if(p) SYM_EQ(p->get(),a+k,"registered creator"); ParameterizedObjectFactory<std::shared_ptr<Thing<double>>(double)> f; SYM_EQ(addRegistryToFactory<MetaType<double>>(f,TagA{}),3,"number of entries"); for(int i=0;i<6;i++) SYM_ASSERT(f.contains(names[i])==(i>=1&&i<=3),"entries"); if(ok){ SYM_EQ(f.create(s,a)->get(),a+k,"created"); sym_reach("found"); } else { SYM_ASSERT(throws<InvalidStateException>([&]{ f.create(s,a); }),"unknown name"); sym_reach("unknown"); } }
