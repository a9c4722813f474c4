// reference multigrid cycle and what it needs
#pragma once
using namespace Dune; using namespace H;
typedef FieldMatrix<double,1,1> F1; typedef FieldMatrix<double,2,2> F2;
template<class B> struct Setup { typedef BCRSMatrix<B> M; typedef BlockVector<FieldVector<double,BS<B>::n>> X; typedef MatrixAdapter<M,X,X> Op; typedef Amg::MatrixHierarchy<Op,Amg::SequentialInformation,std::allocator<X>> Hier; typedef Amg::CoarsenCriterion<Amg::SymmetricCriterion<M,Amg::AlwaysOneNorm>> Crit; };
// a coarse solver that behaves like one step of an iterative method: x += C (b - A x), and spoils b
template<class M,class X> struct Coarse : InverseOperator<X,X> { const M* A=nullptr; X c; bool ok=true; int calls=0; void set(const M& m){ A=&m; c.resize(m.N()); fillv(c,"c"); }
  void apply(X& x,X& b,InverseOperatorResult& res) override { X r(b); if(A) A->mmv(x,r); for(std::size_t i=0;i<r.size();i++) for(std::size_t k=0;k<r[i].size();k++) x[i][k]+=c[i][k]*r[i][k]; for(auto& v:b) v*=3.0; res.converged=ok; calls++; }
  void apply(X& x,X& b,double,InverseOperatorResult& res) override { apply(x,b,res); } SolverCategory::Category category() const override { return SolverCategory::sequential; } };
template<class S> struct Dir { template<class X> static void pre(S& s,X& v,const X& d){ s.apply(v,d); } template<class X> static void post(S& s,X& v,const X& d){ s.apply(v,d); } };
template<class M,class X> struct Dir<SeqSOR<M,X,X>> { typedef SeqSOR<M,X,X> S; static void pre(S& s,X& v,const X& d){ s.template apply<true>(v,d); } static void post(S& s,X& v,const X& d){ s.template apply<false>(v,d); } };
template<class B,class S> struct Ref { typedef Setup<B> T; typedef typename T::X X; typedef typename T::M M; std::vector<const M*> A; std::vector<const typename T::Hier::AggregatesMap*> agg; std::vector<std::shared_ptr<S>> sm; InverseOperator<X,X>* cs; int gamma=1,pre=1,post=1; double damp=1; bool additive=false;
  Ref(const typename T::Hier& h,InverseOperator<X,X>& c,double w):cs(&c){ for(auto it=h.matrices().finest();;++it){ A.push_back(&it->getmat()); if(it==h.matrices().coarsest()) break; } for(auto a:h.aggregatesMaps()) agg.push_back(a); for(std::size_t l=0;l+1<A.size();l++){ for(std::size_t i=0;i<A[l]->N();i++){ auto& D=(*A[l])[i][i]; if(BS<B>::n==1) sym_assume(D[0][0]!=0.0); else sym_assume(D[0][0]*D[BS<B>::n-1][BS<B>::n-1]-D[0][BS<B>::n-1]*D[BS<B>::n-1][0]!=0.0); } } for(std::size_t l=0;l+1<A.size();l++) sm.push_back(std::make_shared<S>(*A[l],1,w)); }
  std::size_t size(int l)const{ return A[l]->N(); }
  X restrict_(int l,const X& r){ X c(size(l+1)); c=0; for(std::size_t i=0;i<r.size();i++) if((*agg[l])[i]<Amg::AggregatesMap<std::size_t>::ISOLATED) c[(*agg[l])[i]]+=r[i]; return c; }
  void prolong(int l,const X& c,X& f,double d){ for(std::size_t i=0;i<f.size();i++) if((*agg[l])[i]<Amg::AggregatesMap<std::size_t>::ISOLATED) f[i].axpy(d,c[(*agg[l])[i]]); }
  X zero(int l){ X z(size(l)); z=0; return z; }
  X cycle(int l,const X& rhs){ X u(zero(l)); if(l+1==(int)A.size()){ InverseOperatorResult r; X b(rhs); cs->apply(u,b,r); return u; }
    if(additive){ Dir<S>::pre(*sm[l],u,rhs); X c=cycle(l+1,restrict_(l,rhs)); prolong(l,c,u,1.0); return u; }
    X r(rhs); auto smooth=[&](bool p){ X e(zero(l)); if(p) Dir<S>::pre(*sm[l],e,r); else Dir<S>::post(*sm[l],e,r); u+=e; r=rhs; A[l]->mmv(u,r); };
    for(int i=0;i<pre;i++) smooth(true);
    X c(zero(l+1)); int g=l+2==(int)A.size()?1:gamma; for(int i=0;i<g;i++){ X d=restrict_(l,r); A[l+1]->mmv(c,d); c+=cycle(l+1,d); } prolong(l,c,u,damp); r=rhs; A[l]->mmv(u,r);
    for(int i=0;i<post;i++) smooth(false); return u; } };
// every Galerkin matrix is the piecewise constant projection of the one before
template<class B> static void galerkin(const typename Setup<B>::Hier& h,const char* l){ typedef typename Setup<B>::M M; auto a=h.aggregatesMaps().begin(); auto f=h.matrices().finest(); while(f!=h.matrices().coarsest()){ auto c=f; ++c; const M& F=f->getmat(); const M& C=c->getmat(); auto ref=DM<double>(C.N()*BS<B>::n,C.M()*BS<B>::n); for(auto r=F.begin();r!=F.end();++r) for(auto e=r->begin();e!=r->end();++e){ auto I=(**a)[r.index()],J=(**a)[e.index()]; if(I<Amg::AggregatesMap<std::size_t>::ISOLATED&&J<Amg::AggregatesMap<std::size_t>::ISOLATED) for(int p=0;p<BS<B>::n;p++) for(int q=0;q<BS<B>::n;q++) ref(I*BS<B>::n+p,J*BS<B>::n+q)+=(*e)[p][q]; } auto D=dense(C); for(int i=0;i<D.n;i++) for(int j=0;j<D.m;j++) sym_eq_(D(i,j),ref(i,j),l); f=c; ++a; } }
// definite numbers for the entries that are not symbolic
template<class B> static void number(B& a,int i,int j){ for(int p=0;p<BS<B>::n;p++) for(int q=0;q<BS<B>::n;q++) a[p][q]=i==j?(p==q?(i%2?8:4):1-q):-1-(i+2*j+p+q)%3; }
template<class Crit> static void params(Crit& c,int levels,double damp){ c.setDebugLevel(0); c.setNoPreSmoothSteps(1); c.setNoPostSmoothSteps(1); c.setCoarsenTarget(1); c.setMaxLevel(levels-1); c.setMinAggregateSize(2); c.setMaxAggregateSize(2); c.setProlongationDampingFactor(damp); }
template<class X> static void same(const X& a,const X& b,const char* l){ for(std::size_t i=0;i<a.size();i++) for(std::size_t k=0;k<a[i].size();k++) sym_eq_(a[i][k],b[i][k],l); }
