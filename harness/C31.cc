// C31: front ends of the direct solvers: UMFPack
// FLAGS: -DHAVE_SUITESPARSE_UMFPACK=1 -isystem /usr/include/suitesparse
// BOUNDS: the libraries are replaced by recording stand-ins checking the call protocol (matrix format, live handles, number types); UMFPack: every pattern of 2x2 matrices of numbers, 1x1, 2x2 blocks, nested blocks, multi-type 2x2 systems (3x3 at thorough), real and complex, all values, every set of ignored scalar unknowns, every subset of rows, sequences of three operations (five at thorough)
#define MOCK_UMFPACK
#include "direct.h"
#include <dune/istl/umfpack.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
typedef std::complex<double> Z;
template<class B,int n> static void umf(const Pat<n,n>& w){ mock::resetAll(); typedef BCRSMatrix<B> M; typedef typename BS<B>::K K; { M A; build(A,w,sym_concrete_l(sym_int("mode",0,1))?RANDOM_GAPS:ROWWISE); fillvals(A,w); auto D=dense(A); int ctor=sym_concrete_l(sym_int("ctor",0,2)); std::unique_ptr<UMFPack<M>> s; if(ctor==0) s.reset(new UMFPack<M>(A)); else if(ctor==1) s.reset(new UMFPack<M>(A,0,true)); else { s.reset(new UMFPack<M>); s->setMatrix(A); }
   scale2(A); applied(*s,D,n,n,ctor); applied(*s,D,n,n); // the solver keeps the matrix it was given
   std::vector<K> x(n*BS<B>::n),b(x.size()); for(auto& e:b) fill(e,"fb"); s->apply(x.data(),b.data()); auto& c=mock::calls<K>().back(); eqm(c.A,D,"flat solve"); eqv(c.b,DV<K>(b.begin(),b.end()),"flat right hand side"); eqv(DV<K>(x.begin(),x.end()),c.x,"flat answer");
   auto D2=dense(A); s->setMatrix(A); applied(*s,D2,n,n); eqm(dense(A),D2,"matrix unchanged"); SYM_ASSERT(s->category()==SolverCategory::sequential,"category"); }
  mock::allReleased("everything released"); sym_reach("done"); }
SYM_HARNESS(umf_numbers,SYM_REAL,"done"){ umf<double,2>(pattern<2,2>()); }
SYM_HARNESS(umf_scalar,SYM_REAL,"done"){ umf<FieldMatrix<double,1,1>,2>(pattern<2,2>()); }
SYM_HARNESS(umf_three,SYM_REAL,"done"){ umf<FieldMatrix<double,1,1>,3>(sym_tier()?pattern<3,3>():pattern<3,3>(true)); }
SYM_HARNESS(umf_blocks,SYM_REAL,"done"){ umf<FieldMatrix<double,2,2>,2>(pattern<2,2>()); }
SYM_HARNESS(umf_complex,SYM_REAL,"done"){ umf<FieldMatrix<Z,1,1>,2>(pattern<2,2>()); }
SYM_HARNESS(umf_cnumbers,SYM_REAL,"done"){ umf<Z,2>(pattern<2,2>()); }
// ignored unknowns: the remaining ones form the system
template<class B,int n> static void ignore(){ mock::resetAll(); typedef BCRSMatrix<B> M; typedef typename BS<B>::K K; constexpr int b=BS<B>::n; { auto w=pattern<n,n>(true); M A; build(A,w); fillvals(A,w); auto D=dense(A); UMFPack<M> s; int N=n*b; if(decided(sym_bool("before"))) s.setMatrix(A);
   std::vector<int> keep; std::vector<std::array<char,b>> bits(n); for(int i=0;i<n;i++) for(int p=0;p<b;p++){ bits[i][p]=decided(sym_bool("ignored")); if(!bits[i][p]) keep.push_back(i*b+p); }
   if constexpr(b==1){ BlockVector<FieldVector<char,1>> v(n); for(int i=0;i<n;i++) v[i]=bits[i][0]; s.setMatrix(A,v); } else { BlockVector<FieldVector<char,b>> v(n); for(int i=0;i<n;i++) for(int p=0;p<b;p++) v[i][p]=bits[i][p]; s.setMatrix(A,v); }
   int m=keep.size(); DM<K> E(m,m); for(int i=0;i<m;i++) for(int j=0;j<m;j++) E(i,j)=D(keep[i],keep[j]); if(m){ DV<K> bb(m); DV<K> x(m); for(auto& e:bb) fill(e,"b"); DV<K> b0=bb; s.apply(x.data(),bb.data()); auto& c=mock::calls<K>().back(); eqm(c.A,E,"system of the unknowns kept"); eqv(c.b,b0,"right hand side"); eqv(x,c.x,"answer"); } if(m&&m<N) sym_reach("some"); if(m==N) sym_reach("all"); if(!m) sym_reach("nothing");
   s.setMatrix(A); applied(s,D,n,n); }
  mock::allReleased("everything released"); }
SYM_HARNESS(umf_ignore,SYM_REAL,"some,all,nothing"){ ignore<FieldMatrix<double,1,1>,3>(); }
SYM_HARNESS(umf_ignore_blocks,SYM_REAL,"some,all,nothing"){ ignore<FieldMatrix<double,2,2>,2>(); }
// rows and columns of a block index set
template<class B,int n> static void subset(const Pat<n,n>& w){ mock::resetAll(); typedef BCRSMatrix<B> M; constexpr int b=BS<B>::n; { M A; build(A,w); fillvals(A,w); auto D=dense(A); UMFPack<M> s; bool before=decided(sym_bool("before")); if(before) s.setMatrix(A); std::set<std::size_t> ix; for(int i=0;i<n;i++) if(decided(sym_bool("selected"))) ix.insert(i); if(ix.empty()) return; s.setSubMatrix(A,ix); auto E=sub(D,ix,b); scale2(A); applied(s,E,ix.size(),ix.size()); sym_reach("done"); if(before){ E=sub(dense(A),ix,b); s.setSubMatrix(A,ix); applied(s,E,ix.size(),ix.size()); } }
  mock::allReleased("everything released"); }
SYM_HARNESS(umf_subset,SYM_REAL,"done"){ subset<FieldMatrix<double,1,1>,3>(sym_tier()?pattern<3,3>():pattern<3,3>(true)); }
SYM_HARNESS(umf_subset_blocks,SYM_REAL,"done"){ subset<FieldMatrix<double,2,2>,2>(pattern<2,2>()); }
SYM_HARNESS(umf_subset_complex,SYM_REAL,"done"){ subset<FieldMatrix<Z,1,1>,2>(pattern<2,2>()); }
// matrices of matrices and multi-type matrices
SYM_HARNESS(umf_nested,SYM_REAL,"done"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> Bl; typedef BCRSMatrix<Bl> M; { auto w=pattern<2,2>(true); M A; build(A,w); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ Pat<2,2> v=full<2,2>(); v[0][1]=(i==j); build(A[i][j],v); fillvals(A[i][j],v); } DM<double> D(4,4); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(w[i][j]){ auto d=dense(A[i][j]); for(int p=0;p<2;p++) for(int q=0;q<2;q++) D(2*i+p,2*j+q)=d(p,q); } UMFPack<M> s(A); UMFPack<M>::range_type b(2); UMFPack<M>::domain_type x(2); for(int i=0;i<2;i++){ b[i].resize(2); x[i].resize(2); } DV<double> fb; for(int i=0;i<2;i++) for(int p=0;p<2;p++){ fill(b[i][p],"b"); fill(x[i][p],"x"); fb.push_back(b[i][p][0]); } InverseOperatorResult r; s.apply(x,b,r); auto& c=mock::calls<double>().back(); eqm(c.A,D,"nested system"); eqv(c.b,fb,"nested right hand side"); for(int i=0;i<2;i++) for(int p=0;p<2;p++) SYM_EQ(x[i][p][0],c.x[2*i+p],"nested answer"); }
  mock::allReleased("everything released"); sym_reach("done"); }
SYM_HARNESS(umf_multitype,SYM_REAL,"done"){ mock::resetAll(); using namespace Dune::Indices; typedef BCRSMatrix<FieldMatrix<double,2,2>> A00; typedef BCRSMatrix<FieldMatrix<double,2,1>> A01; typedef BCRSMatrix<FieldMatrix<double,1,2>> A10; typedef BCRSMatrix<FieldMatrix<double,1,1>> A11; typedef MultiTypeBlockMatrix<MultiTypeBlockVector<A00,A01>,MultiTypeBlockVector<A10,A11>> M; { M A; auto w0=full<1,1>(); auto w1=pattern<1,2>(); auto w2=pattern<2,1>(); auto w3=pattern<2,2>(true); build(A[_0][_0],w0); build(A[_0][_1],w1); build(A[_1][_0],w2); build(A[_1][_1],w3); fillvals(A[_0][_0],w0); fillvals(A[_0][_1],w1); fillvals(A[_1][_0],w2); fillvals(A[_1][_1],w3); DM<double> D(4,4); auto put=[&](auto&& a,int r,int c){ auto d=dense(a); for(int i=0;i<d.n;i++) for(int j=0;j<d.m;j++) D(r+i,c+j)=d(i,j); }; put(A[_0][_0],0,0); put(A[_0][_1],0,2); put(A[_1][_0],2,0); put(A[_1][_1],2,2);
   UMFPack<M> s(A); typename UMFPack<M>::range_type b; typename UMFPack<M>::domain_type x; b[_0].resize(1); b[_1].resize(2); x[_0].resize(1); x[_1].resize(2); fillv(b[_0],"b"); fillv(b[_1],"b"); fillv(x[_0],"x"); fillv(x[_1],"x"); auto cat=[](auto& v){ auto f=flat<double>(v[_0]); auto g=flat<double>(v[_1]); f.insert(f.end(),g.begin(),g.end()); return f; }; auto fb=cat(b); InverseOperatorResult r; s.apply(x,b,r); auto& c=mock::calls<double>().back(); eqm(c.A,D,"multi-type system"); eqv(c.b,fb,"multi-type right hand side"); eqv(cat(x),c.x,"multi-type answer");
   MultiTypeBlockVector<BlockVector<FieldVector<char,2>>,BlockVector<FieldVector<char,1>>> bits; bits[_0].resize(1); bits[_1].resize(2); std::vector<int> keep; for(int p=0;p<4;p++){ bool g=decided(sym_bool("ignored")); if(p<2) bits[_0][0][p]=g; else bits[_1][p-2][0]=g; if(!g) keep.push_back(p); } if(!keep.empty()){ s.setMatrix(A,bits); int m=keep.size(); DM<double> E(m,m); for(int i=0;i<m;i++) for(int j=0;j<m;j++) E(i,j)=D(keep[i],keep[j]); DV<double> bb(m),xx(m); for(auto& e:bb) fill(e,"bb"); s.apply(xx.data(),bb.data()); eqm(mock::calls<double>().back().A,E,"multi-type system of the unknowns kept"); sym_reach("done"); } }
  mock::allReleased("everything released"); }
// stored decompositions
template<class K> static void files(){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<K,1,1>> M; { auto w=pattern<2,2>(true); M A,B; build(A,w); fillvals(A,w); build(B,w); fillvals(B,w,"c"); auto D=dense(A),E=dense(B); if(decided(sym_bool("constructor"))){ UMFPack<M> s(A,"f"); applied(s,D,2,2); } else { UMFPack<M> s(A); s.saveDecomposition("f"); }
   { UMFPack<M> t("f"); applied(t,D,2,2); if(decided(sym_bool("again"))) applied(t,D,2,2); if(decided(sym_bool("other"))){ t.setMatrix(B); applied(t,E,2,2); sym_reach("replaced"); } }
   { UMFPack<M> t(A,"f"); applied(t,D,2,2); sym_reach("loaded"); }
   { bool thrown=false; try { UMFPack<M> t("missing"); } catch(Dune::Exception&) { thrown=true; } SYM_ASSERT(thrown,"missing file refused"); } }
  mock::allReleased("everything released"); }
SYM_HARNESS(umf_files,SYM_REAL,"loaded,replaced"){ files<double>(); }
SYM_HARNESS(umf_cfiles,SYM_REAL,"loaded,replaced"){ files<Z>(); }
// wrong sizes are refused
SYM_HARNESS(umf_sizes,SYM_REAL,"refused,done"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; { auto w=full<2,2>(); M A; build(A,w); fillvals(A,w); UMFPack<M> s(A); int nb=sym_concrete_l(sym_int("nb",1,3)),nx=sym_concrete_l(sym_int("nx",1,3)); BlockVector<FieldVector<double,1>> b(nb),x(nx); fillv(b,"b"); fillv(x,"x"); auto fx=flat<double>(x); InverseOperatorResult r; bool thrown=false; try { s.apply(x,b,r); } catch(ISTLError&) { thrown=true; } SYM_ASSERT(thrown==(nb!=2||nx!=2),"sizes refused"); if(thrown){ sym_reach("refused"); eqv(flat<double>(x),fx,"nothing written"); } else sym_reach("done"); } mock::allReleased("everything released"); }
// any order of operations
SYM_HARNESS(umf_history,SYM_REAL,"solved,freed"){ mock::resetAll(); typedef BCRSMatrix<FieldMatrix<double,1,1>> M; { auto w0=full<2,2>(); Pat<3,3> w1=band<3,3>(); M A[2]; build(A[0],w0); fillvals(A[0],w0); build(A[1],w1); fillvals(A[1],w1); UMFPack<M> s; DM<double> D; bool has=false; for(int t=0;t<(sym_tier()?5:3);t++) switch(sym_concrete_l(sym_int("op",0,4))){ case 0: s.setMatrix(A[0]); D=dense(A[0]); has=true; break; case 1: s.setMatrix(A[1]); D=dense(A[1]); has=true; break; case 2: s.setSubMatrix(A[1],std::set<std::size_t>{0,2}); D=sub(dense(A[1]),{0,2},1); has=true; break; case 3: if(has){ s.free(); has=false; sym_reach("freed"); } break; case 4: if(has){ applied(s,D,D.n,D.n); sym_reach("solved"); } break; } }
  mock::allReleased("everything released"); }
