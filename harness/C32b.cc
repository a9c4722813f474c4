// C32: operators, scalar products and preconditioners on top of the communication
// BOUNDS: 2 processes with 2 unknowns or 3 with 1 (overlapping operators and preconditioners); 3 processes with 2 unknowns (thorough: 3) held in every combination for the nonoverlapping operator, symmetric patterns; 0 to 2 steps of the parallel SSOR; all values
// ASSUME: in the nonoverlapping case an unknown is owned by the lowest of the processes that have it as interior or border unknown, and local matrices hold complete entries
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
#include "mpiworld.h"
#include "flat.h"
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/scalarproducts.hh>
#include "par.h"
using namespace Dune; using namespace H;
typedef FieldVector<double,1> F1; typedef BlockVector<F1> X; typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef FieldVector<std::complex<double>,1> FC;
static void dense_n(M& A,int n,const std::vector<bool>& w,const char* nm){ A.setBuildMode(M::row_wise); A.setSize(n,n,n*n); int i=0; for(auto it=A.createbegin();it!=A.createend();++it,++i) for(int j=0;j<n;j++) if(w[i*n+j]) it.insert(j); for(i=0;i<n;i++) for(int j=0;j<n;j++) if(w[i*n+j]) A[i][j]=sym_real(nm); }
static DM<double> den(const M& A){ DM<double> D(A.N(),A.M()); for(auto i=A.begin();i!=A.end();++i) for(auto j=i->begin();j!=i->end();++j) D(i.index(),j.index())=(*j)[0][0]; return D; }
static int globalOf(Dist& d,int r,int l){ for(int g=0;g<d.G;g++) if(d.loc[r][g]==l) return g; return -1; }
static int ownerOf(Dist& d,int g){ for(int p=0;p<d.P;p++) if(d.a[p][g]==O) return p; return -1; }
// what everybody has after the owner's values were sent around
static std::vector<DV<double>> consistent(Dist& d,std::vector<DV<double>> v){ auto r=v; for(int p=0;p<d.P;p++) for(int g=0;g<d.G;g++) if(d.a[p][g]!=N) r[p][d.loc[p][g]]=v[ownerOf(d,g)][d.loc[ownerOf(d,g)][g]]; return r; }
SYM_HARNESS(overlapping,SYM_REAL,"copies"){ Dist d=sym_concrete_l(sym_bool("three"))?Dist(3,1):Dist(2,2); std::vector<std::shared_ptr<M>> A(d.P); std::vector<X> x(d.P),y(d.P),x0; std::vector<DV<double>> want(d.P); bool add=decided(sym_bool("applyscaleadd")),sh=decided(sym_bool("shared")); double al=sym_real("alpha"); bool cp=false;
  for(int r=0;r<d.P;r++){ int n=d.n(r); A[r]=std::make_shared<M>(); std::vector<bool> w(n*n,true); dense_n(*A[r],n,w,"a"); x[r].resize(n); y[r].resize(n); fillv(x[r],"x"); fillv(y[r],"y"); auto fy=flat<double>(y[r]); auto p=mul(den(*A[r]),flat<double>(x[r])); want[r]=add?axpy(fy,al,p):p; for(int l=0;l<n;l++) if(d.a[r][globalOf(d,r,l)]==C){ want[r][l]=0; cp=true; } } x0=x;
  MW::run(d.P,[&](int r){ Comm c(MPI_COMM_WORLD); d.setup(c,r); auto go=[&](auto& op){ SYM_ASSERT(op.category()==SolverCategory::overlapping&&&op.getmat()==A[r].get()&&&op.getCommunication()==&c,"what the operator reports"); if(add) op.applyscaleadd(al,x[r],y[r]); else op.apply(x[r],y[r]); };
    if(sh){ OverlappingSchwarzOperator<M,X,X,Comm> op(A[r],c); go(op); } else { OverlappingSchwarzOperator<M,X,X,Comm> op(*A[r],c); go(op); } },false);
  for(int r=0;r<d.P;r++){ eqv(flat<double>(y[r]),want[r],"local product, zero at copies"); eqv(flat<double>(x[r]),flat<double>(x0[r]),"argument unchanged"); } if(cp) sym_reach("copies"); }
// a sequential preconditioner that shows what it was given
struct Mock : Preconditioner<X,X> { double c,p; int seen=0; Mock(double c_,double p_):c(c_),p(p_){} void pre(X& x,X& b) override { seen|=1; x*=p; b*=p; } void apply(X& v,const X& d) override { seen|=2; for(std::size_t i=0;i<v.size();i++) v[i]+=(c+i)*d[i]; } template<bool f> void apply(X& v,const X& d){ seen|=f?4:8; for(std::size_t i=0;i<v.size();i++) v[i]+=(f?2:3)*c*d[i]; } void post(X& x) override { seen|=16; x*=c; } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class Prec> static void blockPrec(bool novlp){ Dist d=sym_concrete_l(sym_bool("three"))?Dist(3,1):Dist(2,2); int call=sym_concrete_l(sym_int("call",0,4)); bool sh=decided(sym_bool("shared")); std::vector<X> v(d.P),b(d.P); std::vector<std::shared_ptr<Mock>> m(d.P); std::vector<DV<double>> fv(d.P),fb(d.P);
  for(int r=0;r<d.P;r++){ v[r].resize(d.n(r)); b[r].resize(d.n(r)); fillv(v[r],"v"); fillv(b[r],"b"); m[r]=std::make_shared<Mock>(sym_real("c"),sym_real("p")); fv[r]=flat<double>(v[r]); fb[r]=flat<double>(b[r]); }
  MW::run(d.P,[&](int r){ Comm c(MPI_COMM_WORLD,novlp?SolverCategory::nonoverlapping:SolverCategory::overlapping); d.setup(c,r); auto go=[&](Prec& q){ SYM_ASSERT(q.category()==(novlp?SolverCategory::nonoverlapping:SolverCategory::overlapping),"category"); if(call==0) q.pre(v[r],b[r]); else if(call==1) q.apply(v[r],b[r]); else if(call==2) q.template apply<true>(v[r],b[r]); else if(call==3) q.template apply<false>(v[r],b[r]); else q.post(v[r]); }; if(sh){ Prec q(m[r],c); go(q); } else { Prec q(*m[r],c); go(q); } });
  auto w=fv; if(call==0&&!novlp) w=consistent(d,fv); for(int r=0;r<d.P;r++){ SYM_EQ(m[r]->seen,1<<call,"the sequential preconditioner was called"); for(std::size_t i=0;i<w[r].size();i++){ double& q=w[r][i]; if(call==0) q*=m[r]->p; else if(call==4) q*=m[r]->c; else q+=(call==1?m[r]->c+i:call==2?2*m[r]->c:3*m[r]->c)*fb[r][i]; } }
  if(call>=1&&call<=3){ if(!novlp) w=consistent(d,w); else { auto o=w; for(int r=0;r<d.P;r++) for(int g=0;g<d.G;g++) if(d.a[r][g]==O||d.a[r][g]==C) for(int p=0;p<d.P;p++) if(p!=r&&(d.a[p][g]==O||d.a[p][g]==C)) w[r][d.loc[r][g]]+=o[p][d.loc[p][g]]; } sym_reach("exchanged"); }
  for(int r=0;r<d.P;r++){ eqv(flat<double>(v[r]),w[r],"result of the sequential preconditioner, exchanged"); if(call==0) for(auto& q:fb[r]) q*=m[r]->p; eqv(flat<double>(b[r]),fb[r],"defect"); } }
SYM_HARNESS(block,SYM_REAL,"exchanged"){ blockPrec<BlockPreconditioner<X,X,Comm,Mock>>(false); }
SYM_HARNESS(novlpblock,SYM_REAL,"exchanged"){ blockPrec<NonoverlappingBlockPreconditioner<Comm,Mock>>(true); }
SYM_HARNESS(parssor,SYM_REAL,"done"){ Dist d(2,2); int steps=sym_concrete_l(sym_int("steps",0,2)); bool pre=decided(sym_bool("pre")); double w=sym_real("w"); std::vector<M> A(d.P); std::vector<X> v(d.P),b(d.P),b0; std::vector<DV<double>> f(d.P);
  for(int r=0;r<d.P;r++){ int n=d.n(r); std::vector<bool> pt(n*n,true); dense_n(A[r],n,pt,"a"); for(int i=0;i<n;i++) sym_assume(A[r][i][i][0][0]!=0.0); v[r].resize(n); b[r].resize(n); fillv(v[r],"v"); fillv(b[r],"b"); f[r]=flat<double>(v[r]); } b0=b;
  if(pre) f=consistent(d,f); else { for(int r=0;r<d.P;r++){ auto D=den(A[r]); int n=d.n(r); for(int s=0;s<2*steps;s++) for(int k=0;k<n;k++){ int i=s%2?n-1-k:k; double t=b[r][i][0]; for(int j=0;j<n;j++) t-=D(i,j)*f[r][j]; f[r][i]+=w*(t/D(i,i)); } } f=consistent(d,f); }
  MW::run(d.P,[&](int r){ Comm c(MPI_COMM_WORLD); d.setup(c,r); ParSSOR<M,X,X,Comm> q(A[r],steps,w,c); SYM_ASSERT(q.category()==SolverCategory::overlapping,"category"); if(pre) q.pre(v[r],b[r]); else q.apply(v[r],b[r]); q.post(v[r]); },false);
  for(int r=0;r<d.P;r++){ eqv(flat<double>(v[r]),f[r],"SSOR steps on the local system, then the owners' values"); eqv(flat<double>(b[r]),flat<double>(b0[r]),"defect unchanged"); } sym_reach("done"); }
template<class B> static void sp(){ typedef BlockVector<B> Y; typedef typename FieldTraits<B>::field_type K; Dist d(2,1); std::vector<Y> x(d.P),y(d.P); std::vector<K> s(d.P); std::vector<double> n(d.P); int kind=sym_concrete_l(sym_int("kind",0,3)); for(int r=0;r<d.P;r++){ x[r].resize(d.n(r)); y[r].resize(d.n(r)); fillv(x[r],"x"); fillv(y[r],"y"); }
  MW::run(d.P,[&](int r){ auto c=std::make_shared<Comm>(MPI_COMM_WORLD,kind%2?SolverCategory::nonoverlapping:SolverCategory::overlapping); d.setup(*c,r); std::shared_ptr<ScalarProduct<Y>> q; switch(kind){ case 0: q=std::make_shared<OverlappingSchwarzScalarProduct<Y,Comm>>(c); break; case 1: q=std::make_shared<NonoverlappingSchwarzScalarProduct<Y,Comm>>(*c); break; case 2: q=createScalarProduct<Y>(*c,c->category()); break; default: q=makeScalarProduct<Y>(std::shared_ptr<const Comm>(c),c->category()); } SYM_ASSERT(q->category()==c->category(),"category"); s[r]=q->dot(x[r],y[r]); n[r]=q->norm(x[r]); },false);
  int o=ownerOf(d,0); K e=dot_(x[o][0],y[o][0]); double m=nrm_(x[o][0]); for(int r=0;r<2;r++){ sym_eq_(s[r],e,"scalar product"); SYM_EQ(n[r]*n[r],m,"norm"); } sym_reach("done"); }
SYM_HARNESS(scalarproduct,SYM_REAL,"done"){ sp<F1>(); }
SYM_HARNESS(scalarproductc,SYM_REAL,"done"){ sp<FC>(); }
// every entry that some process holds counts exactly once
static void novlp(int P,int G,bool ghosts){ Dist d(P,0); d.G=G; d.a.assign(P,std::vector<int>(G,N)); d.loc.assign(P,std::vector<int>(G,-1));
  for(int g=0;g<G;g++){ bool own=false; for(int p=0;p<P;p++){ int k=p==P-1&&!own?1:sym_concrete_l(sym_int("holds",0,ghosts?2:1)); if(k==1){ d.a[p][g]=own?C:O; own=true; } else if(k==2) d.a[p][g]=V; } } d.number(decided(sym_bool("reversed numbering")));
  std::vector<double> A(G*G),x(G),y(G); std::vector<bool> w(G*G,false); for(int i=0;i<G;i++) for(int j=i;j<G;j++) w[i*G+j]=w[j*G+i]=i==j||decided(sym_bool("w")); for(int k=0;k<G*G;k++) if(w[k]) A[k]=sym_real("a"); for(auto& e:x) e=sym_real("x"); for(auto& e:y) e=sym_real("y"); bool add=decided(sym_bool("applyscaleadd")); int rep=1+decided(sym_bool("twice")); double al=sym_real("alpha");
  std::vector<double> want(G); for(int i=0;i<G;i++){ want[i]=0; for(int j=0;j<G;j++) if(w[i*G+j]){ bool held=false; for(int p=0;p<P;p++) held|=(d.a[p][i]==O||d.a[p][i]==C)&&(d.a[p][j]==O||d.a[p][j]==C); if(held) want[i]+=A[i*G+j]*x[j]; } if(add) want[i]=y[i]+al*want[i]*rep; }
  std::vector<X> X_(P),Y_(P); std::vector<M> L(P); for(int p=0;p<P;p++){ int n=d.n(p); L[p].setBuildMode(M::row_wise); L[p].setSize(n,n,n*n); int l=0; for(auto it=L[p].createbegin();it!=L[p].createend();++it,++l) for(int m=0;m<n;m++) if(w[globalOf(d,p,l)*G+globalOf(d,p,m)]) it.insert(m); X_[p].resize(n); Y_[p].resize(n); for(l=0;l<n;l++){ int i=globalOf(d,p,l); for(auto j=L[p][l].begin();j!=L[p][l].end();++j) *j=A[i*G+globalOf(d,p,j.index())]; X_[p][l]=x[i]; Y_[p][l]=y[i]; } }
  MW::run(P,[&](int r){ Comm c(MPI_COMM_WORLD,SolverCategory::nonoverlapping); d.setup(c,r); NonoverlappingSchwarzOperator<M,X,X,Comm> op(L[r],c); SYM_ASSERT(op.category()==SolverCategory::nonoverlapping&&&op.getmat()==&L[r],"what the operator reports"); for(int k=0;k<rep;k++) if(add) op.applyscaleadd(al,X_[r],Y_[r]); else op.apply(X_[r],Y_[r]); },false);
  bool shared=false; for(int p=0;p<P;p++) for(int l=0;l<d.n(p);l++){ int g=globalOf(d,p,l); if(d.a[p][g]!=V) SYM_EQ(Y_[p][l][0],want[g],"every entry counts once"); SYM_EQ(X_[p][l][0],x[g],"argument unchanged"); shared|=d.a[p][g]==C; } if(shared) sym_reach("shared"); }
SYM_HARNESS(nonoverlapping,SYM_REAL,"shared"){ novlp(3,sym_tier()?3:2,false); }
SYM_HARNESS(nonoverlappingghosts,SYM_REAL,"shared"){ novlp(2,sym_tier()?3:2,true); }
