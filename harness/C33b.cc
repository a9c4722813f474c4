// C33: storing and loading distributed matrices and vectors
// BOUNDS: 2 processes, 1 or 2 unknowns held in every combination of owner, overlap and copy, dense local matrices and vectors, all values, three file names, with and without the list of neighbours and the index files
// ASSUME: conversion between numbers and characters in the C++ library replaced by one that keeps the value; files in /dev/shm
// FLAGS: -DHAVE_MPI=1 -DOMPI_SKIP_MPICXX=1 -DMPICH_SKIP_MPICXX=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
#include "tok.h"
#include "mpiworld.h"
#include "flat.h"
#include <unistd.h>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/matrixmarket.hh>
#include "par.h"
using namespace Dune; using namespace H;
typedef BCRSMatrix<FieldMatrix<double,1,1>> M; typedef BlockVector<FieldVector<double,1>> X;
struct Dir { char n[64]; Dir(){ strcpy(n,"/dev/shm/dune-c33-XXXXXX"); if(!mkdtemp(n)) abort(); } std::string operator()(std::string f)const{ return std::string(n)+"/"+f; } ~Dir(){ for(const char* f:{"_0.mm","_1.mm","_0.mtx","_1.mtx","_0.idx","_1.idx"}) unlink((*this)("a"+std::string(f)).c_str()); rmdir(n); } };
static void run(int G){ Dist d(2,G); Dir dir; Tok::clear(); const char* nm[]={"a","a.mm","a.mtx"}; int k=(int)sym_concrete_l(sym_int("name",0,2)); bool vec=decided(sym_bool("vector")),idx=decided(sym_bool("indices")),nb=decided(sym_bool("neighbours")),priv=decided(sym_bool("private")); std::string f=dir(nm[k]); std::vector<M> A(2),R(2); std::vector<X> x(2),y(2); std::vector<std::vector<double>> v(2); bool both[2]={false,false};
  for(int r=0;r<2;r++){ int n=d.n(r); A[r].setBuildMode(M::row_wise); A[r].setSize(n,n,n*n); for(auto i=A[r].createbegin();i!=A[r].createend();++i) for(int j=0;j<n;j++) i.insert(j); for(int i=0;i<n;i++) for(int j=0;j<n;j++) A[r][i][j]=sym_real("a"); x[r].resize(n); fillv(x[r],"x"); v[r].resize(n); for(auto& e:v[r]) e=sym_real("v"); }
  auto want=v; for(int r=0;r<2;r++) for(int g=0;g<G;g++) if(d.a[r][g]!=N&&d.a[1-r][g]==O&&d.a[r][g]!=O) want[r][d.loc[r][g]]=v[1-r][d.loc[1-r][g]]; std::vector<std::vector<std::array<int,4>>> is(2),js(2);
  MW::run(2,[&](int r){ Comm c(MPI_COMM_WORLD),e(MPI_COMM_WORLD); auto& s=c.indexSet(); s.beginResize(); for(int g=0;g<G;g++) if(d.a[r][g]!=N) s.add(10*g+3,typename Comm::ParallelIndexSet::LocalIndex(d.loc[r][g],(OwnerOverlapCopyAttributeSet::AttributeSet)d.a[r][g],!(priv&&d.a[1-r][g]==N))); s.endResize(); if(nb) c.remoteIndices().setNeighbours(std::vector<int>(1,1-r)); c.remoteIndices().rebuild<false>();
    if(vec) storeMatrixMarket(x[r],f,c,idx); else storeMatrixMarket(A[r],f,c,idx); c.communicator().barrier(); std::string i=dir("a_"+std::to_string(r)+".idx"); SYM_ASSERT((access(i.c_str(),R_OK)==0)==idx,"index file"); SYM_ASSERT(access(dir("a_"+std::to_string(r)+(k==2?".mtx":".mm")).c_str(),R_OK)==0,"name of the file");
    if(!idx){ bool threw=false; try { if(vec) loadMatrixMarket(y[r],f,e); else loadMatrixMarket(R[r],f,e); } catch(const IOError&){ threw=true; } SYM_ASSERT(threw,"no index file"); } std::string g=k==2?f:dir("a"); if(vec) loadMatrixMarket(y[r],g,e,idx); else loadMatrixMarket(R[r],g,e,idx);
    for(auto& p:s) is[r].push_back({(int)p.global(),(int)(std::size_t)p.local(),(int)p.local().attribute(),(int)p.local().isPublic()}); for(auto& p:e.indexSet()) js[r].push_back({(int)p.global(),(int)(std::size_t)p.local(),(int)p.local().attribute(),(int)p.local().isPublic()});
    if(idx){ SYM_ASSERT(e.remoteIndices().getNeighbours()==c.remoteIndices().getNeighbours(),"neighbours"); X t(v[r].size()); for(std::size_t q=0;q<t.size();q++) t[q]=v[r][q]; e.copyOwnerToAll(t,t); for(std::size_t q=0;q<t.size();q++) v[r][q]=t[q][0]; if(e.indexSet().size()){ bool threw=false; try { X z; M Z; if(vec) loadMatrixMarket(z,f,e); else loadMatrixMarket(Z,f,e); } catch(const InvalidIndexSetState&){ threw=true; } SYM_ASSERT(threw,"index set not empty"); } } },false);
  for(int r=0;r<2;r++){ int n=d.n(r); if(vec){ SYM_EQ(y[r].size(),(std::size_t)n,"size"); for(int i=0;i<n;i++) SYM_EQ(y[r][i][0],x[r][i][0],"a distributed vector stored and loaded"); } else { SYM_ASSERT(R[r].N()==(std::size_t)n&&R[r].M()==(std::size_t)n&&R[r].nonzeroes()==(std::size_t)n*n,"size"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) SYM_EQ(R[r][i][j][0][0],A[r][i][j][0][0],"a distributed matrix stored and loaded"); }
    if(idx){ SYM_ASSERT(is[r]==js[r],"index set stored and loaded"); for(int i=0;i<n;i++) SYM_EQ(v[r][i],want[r][i],"the loaded decomposition communicates as the stored one"); } else SYM_ASSERT(js[r].empty(),"index set untouched"); } if(vec) sym_reach("vector"); else sym_reach("matrix"); if(idx&&d.n(0)&&d.n(1)) sym_reach("indices"); }
SYM_HARNESS(parallel1,SYM_REAL,"vector,matrix,indices"){ run(1); }
SYM_HARNESS(parallel2,SYM_REAL,"vector,matrix,indices"){ run(2); }
