// SymPass: instruments every function of a translation unit so that the real
// code, as compiled by clang, computes a symbolic expression next to each
// concrete scalar ("shadow").  See engine/README in DESIGN.md.
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/PassManager.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

struct SymPass : PassInfoMixin<SymPass> {
  Module *M; LLVMContext *C; const DataLayout *DL;
  PointerType *PT; IntegerType *I1,*I32,*I64; Type *DT,*VT;
  GlobalVariable *gArgs,*gCallee,*gRets,*gRetOk;
  std::map<std::string,unsigned> warned;
  std::vector<std::string> sites;
  static constexpr unsigned MAXSLOT=96;

  FunctionCallee rt(StringRef n, Type*r, ArrayRef<Type*> a){
    auto f=M->getOrInsertFunction(n, FunctionType::get(r,a,false));
    if(auto*F=dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
    return f;
  }

  Type* shTy(Type*T){
    if(auto*S=dyn_cast<StructType>(T)){ SmallVector<Type*,8> e; for(auto*x:S->elements()) e.push_back(shTy(x)); return StructType::get(*C,e);}    
    if(auto*A=dyn_cast<ArrayType>(T)) return ArrayType::get(shTy(A->getElementType()),A->getNumElements());
    return PT;
  }
  static bool isScalar(Type*T){ return T->isIntegerTy()||T->isFloatingPointTy(); }
  bool carries(Type*T){ // may hold a non-null shadow
    if(isScalar(T)) return true;
    if(auto*S=dyn_cast<StructType>(T)){ for(auto*x:S->elements()) if(carries(x)) return true; return false;}
    if(auto*A=dyn_cast<ArrayType>(T)) return carries(A->getElementType());
    return false;
  }
  DenseMap<Value*,Value*> sh;
  Value* S(Value*V){
    if(isa<Constant>(V)||!carries(V->getType())) return Constant::getNullValue(shTy(V->getType()));
    auto it=sh.find(V);
    if(it==sh.end()) return Constant::getNullValue(shTy(V->getType()));
    return it->second;
  }
  static bool isNull(Value*s){ return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }
  void set(Value*V,Value*s){ if(!isNull(s)) sh[V]=s; }

  Value* toI64(IRBuilder<>&B,Value*V){
    Type*T=V->getType();
    if(T->isIntegerTy()){ if(T->getIntegerBitWidth()>64) return B.CreateTrunc(V,I64); return B.CreateZExt(V,I64);}    
    return ConstantInt::get(I64,0);
  }
  Value* toD(IRBuilder<>&B,Value*V){
    Type*T=V->getType();
    if(T->isDoubleTy()) return V;
    if(T->isFloatTy()||T->isHalfTy()) return B.CreateFPExt(V,DT);
    return B.CreateFPTrunc(V,DT);
  }
  unsigned bits(Type*T){ return T->isIntegerTy()?T->getIntegerBitWidth():DL->getTypeSizeInBits(T).getFixedValue(); }
  Constant* ci(unsigned v){ return ConstantInt::get(I32,v); }

  unsigned siteOf(Instruction*I){
    std::string s; raw_string_ostream o(s);
    if(DILocation*L=I->getDebugLoc()){
      o<<L->getFilename()<<":"<<L->getLine();
      if(auto*sp=L->getScope()->getSubprogram()) o<<" in "<<demangle(sp->getLinkageName().empty()?sp->getName().str():sp->getLinkageName().str()).substr(0,160);
      o<<" [fn "<<demangle(I->getFunction()->getName().str()).substr(0,100)<<"]";
    } else o<<"? in "<<demangle(I->getFunction()->getName().str()).substr(0,160);
    o.flush();
    sites.push_back(s);
    return sites.size()-1;
  }

  void warn(Twine t){ warned[t.str()]++; }

  void concretize(IRBuilder<>&B,Value*V,Instruction*at){
    Value*s=S(V); if(isNull(s)) return;
    if(!V->getType()->isIntegerTy()) return;
    B.CreateCall(rt("__sym_concretize",VT,{PT,I32,I64,I32}),{s,ci(bits(V->getType())),toI64(B,V),ci(siteOf(at))});
  }

  void flatten(Type*T, SmallVectorImpl<unsigned>&path, SmallVectorImpl<SmallVector<unsigned,4>>&out){
    if(auto*St=dyn_cast<StructType>(T)){ for(unsigned i=0;i<St->getNumElements();++i){path.push_back(i);flatten(St->getElementType(i),path,out);path.pop_back();} return; }
    if(auto*A=dyn_cast<ArrayType>(T)){ for(unsigned i=0;i<A->getNumElements();++i){path.push_back(i);flatten(A->getElementType(),path,out);path.pop_back();} return; }
    out.push_back(SmallVector<unsigned,4>(path.begin(),path.end()));
  }
  Value* slot(IRBuilder<>&B,GlobalVariable*g,unsigned i){ return B.CreateConstInBoundsGEP2_32(g->getValueType(),g,0,i); }

  // returns true if any stored
  void storeFlat(IRBuilder<>&B,GlobalVariable*g,unsigned&pos,Value*s,Type*T){
    SmallVector<unsigned,4> p; SmallVector<SmallVector<unsigned,4>,8> o; flatten(T,p,o);
    for(auto&q:o){ if(pos>=MAXSLOT) return; Value*v=q.empty()?s:(isNull(s)?(Value*)ConstantPointerNull::get(PT):B.CreateExtractValue(s,q)); B.CreateStore(v,slot(B,g,pos++)); }
  }
  Value* loadFlat(IRBuilder<>&B,GlobalVariable*g,unsigned&pos,Type*T,Value*ok){
    SmallVector<unsigned,4> p; SmallVector<SmallVector<unsigned,4>,8> o; flatten(T,p,o);
    Value*r=nullptr; Constant*nul=ConstantPointerNull::get(PT);
    if(o.size()==1&&o[0].empty()){ if(pos>=MAXSLOT) return nul; return B.CreateSelect(ok,B.CreateLoad(PT,slot(B,g,pos++)),nul); }
    r=Constant::getNullValue(shTy(T));
    for(auto&q:o){ if(pos>=MAXSLOT) break; Value*v=B.CreateSelect(ok,B.CreateLoad(PT,slot(B,g,pos++)),nul); r=B.CreateInsertValue(r,v,q);}    
    return r;
  }

  Value* loadShadow(IRBuilder<>&B,Value*addr,Type*T){
    if(isScalar(T)) return B.CreateCall(rt("__sym_load",PT,{PT,I64,I32}),{addr,ConstantInt::get(I64,DL->getTypeStoreSize(T)),ci(T->isFloatingPointTy())});
    if(auto*St=dyn_cast<StructType>(T)){
      Value*r=Constant::getNullValue(shTy(T)); auto*SL=DL->getStructLayout(St);
      for(unsigned i=0;i<St->getNumElements();++i) if(carries(St->getElementType(i))) r=B.CreateInsertValue(r,loadShadow(B,B.CreateConstInBoundsGEP1_64(B.getInt8Ty(),addr,SL->getElementOffset(i)),St->getElementType(i)),i);
      return r; }
    if(auto*A=dyn_cast<ArrayType>(T)){
      Value*r=Constant::getNullValue(shTy(T)); uint64_t sz=DL->getTypeAllocSize(A->getElementType());
      for(unsigned i=0;i<A->getNumElements();++i) if(carries(A->getElementType())) r=B.CreateInsertValue(r,loadShadow(B,B.CreateConstInBoundsGEP1_64(B.getInt8Ty(),addr,sz*i),A->getElementType()),i);
      return r; }
    return Constant::getNullValue(shTy(T));
  }
  void storeShadow(IRBuilder<>&B,Value*addr,Value*s,Type*T){
    if(isScalar(T)||T->isPointerTy()){
      B.CreateCall(rt("__sym_store",VT,{PT,I64,PT}),{addr,ConstantInt::get(I64,DL->getTypeStoreSize(T)),s}); return; }
    if(auto*St=dyn_cast<StructType>(T)){
      auto*SL=DL->getStructLayout(St);
      for(unsigned i=0;i<St->getNumElements();++i) storeShadow(B,B.CreateConstInBoundsGEP1_64(B.getInt8Ty(),addr,SL->getElementOffset(i)),isNull(s)?(Value*)Constant::getNullValue(shTy(St->getElementType(i))):B.CreateExtractValue(s,i),St->getElementType(i));
      return; }
    if(auto*A=dyn_cast<ArrayType>(T)){
      uint64_t sz=DL->getTypeAllocSize(A->getElementType());
      for(unsigned i=0;i<A->getNumElements();++i) storeShadow(B,B.CreateConstInBoundsGEP1_64(B.getInt8Ty(),addr,sz*i),isNull(s)?(Value*)Constant::getNullValue(shTy(A->getElementType())):B.CreateExtractValue(s,i),A->getElementType());
      return; }
    // vectors: clear
    B.CreateCall(rt("__sym_clear",VT,{PT,I64}),{addr,ConstantInt::get(I64,DL->getTypeStoreSize(T))});
  }

  void doIntrinsic(IntrinsicInst*I){
    IRBuilder<> B(I); 
    auto after=[&]{ B.SetInsertPoint(I->getNextNode()); };
    switch(I->getIntrinsicID()){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{
      concretize(B,I->getArgOperand(2),I); after();
      B.CreateCall(rt("__sym_memmove",VT,{PT,PT,I64}),{I->getArgOperand(0),I->getArgOperand(1),B.CreateZExtOrTrunc(I->getArgOperand(2),I64)}); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline:{
      concretize(B,I->getArgOperand(1),I); concretize(B,I->getArgOperand(2),I); after();
      B.CreateCall(rt("__sym_clear",VT,{PT,I64}),{I->getArgOperand(0),B.CreateZExtOrTrunc(I->getArgOperand(2),I64)}); return; }
    case Intrinsic::lifetime_start:{
      after(); auto*sz=cast<ConstantInt>(I->getArgOperand(0)); if(sz->getSExtValue()>0) B.CreateCall(rt("__sym_clear",VT,{PT,I64}),{I->getArgOperand(1),sz}); return; }
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
    case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::objectsize: case Intrinsic::is_constant:
    case Intrinsic::trap: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
      return;
    case Intrinsic::expect: set(I,S(I->getArgOperand(0))); return;
    default: break; }
    bool any=false; for(auto&a:I->args()) if(!isNull(S(a))) any=true;
    if(!any) return;
    Type*T=I->getType();
    switch(I->getIntrinsicID()){
    case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round:
    case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::exp2:{
      unsigned k=I->getIntrinsicID()==Intrinsic::fabs?0:I->getIntrinsicID()==Intrinsic::sqrt?1:I->getIntrinsicID()==Intrinsic::floor?2:I->getIntrinsicID()==Intrinsic::ceil?3:9;
      set(I,B.CreateCall(rt("__sym_fun1",PT,{I32,PT,DT,I32}),{ci(k),S(I->getArgOperand(0)),toD(B,I->getArgOperand(0)),ci(siteOf(I))})); return; }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign: case Intrinsic::pow:{
      unsigned k=I->getIntrinsicID()==Intrinsic::minnum?0:I->getIntrinsicID()==Intrinsic::maxnum?1:I->getIntrinsicID()==Intrinsic::copysign?2:3;
      set(I,B.CreateCall(rt("__sym_fun2",PT,{I32,PT,PT,DT,DT,I32}),{ci(k),S(I->getArgOperand(0)),S(I->getArgOperand(1)),toD(B,I->getArgOperand(0)),toD(B,I->getArgOperand(1)),ci(siteOf(I))})); return; }
    case Intrinsic::fma: case Intrinsic::fmuladd:{
      Value*a=I->getArgOperand(0),*b=I->getArgOperand(1),*c=I->getArgOperand(2);
      Value*m=B.CreateCall(rt("__sym_fbin",PT,{I32,PT,PT,DT,DT}),{ci(Instruction::FMul),S(a),S(b),toD(B,a),toD(B,b)});
      set(I,B.CreateCall(rt("__sym_fbin",PT,{I32,PT,PT,DT,DT}),{ci(Instruction::FAdd),m,S(c),B.CreateFMul(toD(B,a),toD(B,b)),toD(B,c)})); return; }
    case Intrinsic::is_fpclass:
      set(I,B.CreateCall(rt("__sym_fpclass",PT,{PT,I32}),{S(I->getArgOperand(0)),I->getArgOperand(1)})); return;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:{
      unsigned p=I->getIntrinsicID()==Intrinsic::umin?CmpInst::ICMP_ULT:I->getIntrinsicID()==Intrinsic::umax?CmpInst::ICMP_UGT:I->getIntrinsicID()==Intrinsic::smin?CmpInst::ICMP_SLT:CmpInst::ICMP_SGT;
      Value*a=I->getArgOperand(0),*b=I->getArgOperand(1);
      set(I,B.CreateCall(rt("__sym_minmax",PT,{I32,I32,PT,PT,I64,I64}),{ci(p),ci(bits(T)),S(a),S(b),toI64(B,a),toI64(B,b)})); return; }
    case Intrinsic::abs:
      set(I,B.CreateCall(rt("__sym_iabs",PT,{I32,PT}),{ci(bits(T)),S(I->getArgOperand(0))})); return;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:{
      Value*a=I->getArgOperand(0),*b=I->getArgOperand(1);
      unsigned k=0; switch(I->getIntrinsicID()){case Intrinsic::uadd_with_overflow:k=0;break;case Intrinsic::sadd_with_overflow:k=1;break;case Intrinsic::usub_with_overflow:k=2;break;case Intrinsic::ssub_with_overflow:k=3;break;case Intrinsic::umul_with_overflow:k=4;break;default:k=5;}
      unsigned op=k<2?Instruction::Add:k<4?Instruction::Sub:Instruction::Mul;
      Value*r=B.CreateCall(rt("__sym_bin",PT,{I32,I32,PT,PT,I64,I64}),{ci(op),ci(bits(a->getType())),S(a),S(b),toI64(B,a),toI64(B,b)});
      Value*o=B.CreateCall(rt("__sym_ovf",PT,{I32,I32,PT,PT,I64,I64}),{ci(k),ci(bits(a->getType())),S(a),S(b),toI64(B,a),toI64(B,b)});
      Value*s=Constant::getNullValue(shTy(T)); s=B.CreateInsertValue(s,r,0); s=B.CreateInsertValue(s,o,1); set(I,s); return; }
    default:
      for(auto&a:I->args()) concretize(B,a,I);
      if(carries(T)&&isScalar(T)){
        Value*acc=nullptr; for(auto&a:I->args()) if(a->getType()->isFloatingPointTy()&&!isNull(S(a))) acc=S(a);
        if(acc) { warn("fp intrinsic "+I->getCalledFunction()->getName()); set(I,B.CreateCall(rt("__sym_ext",PT,{PT,I32}),{acc,ci(siteOf(I))})); }
      }
      return; }
  }

  void doCall(CallBase*I){
    if(auto*II=dyn_cast<IntrinsicInst>(I)){ doIntrinsic(II); return; }
    if(I->isInlineAsm()) return;
    if(auto*CI=dyn_cast<CallInst>(I)) CI->setTailCallKind(CallInst::TCK_None);
    Function*F=I->getCalledFunction();
    if(!F) F=dyn_cast<Function>(I->getCalledOperand()->stripPointerCastsAndAliases());
    StringRef n=F?F->getName():"";
    if(n.starts_with("__sym_")) return;
    bool ext=F&&F->isDeclaration()&&!n.starts_with("sym_");
    IRBuilder<> B(I);
    Type*T=I->getType();
    auto retPoint=[&]()->Instruction*{
      if(auto*Inv=dyn_cast<InvokeInst>(I)) return &*Inv->getNormalDest()->getFirstInsertionPt();
      return I->getNextNode(); };
    if(ext){
      bool any=false; for(auto&a:I->args()) if(!isNull(S(a))) any=true;
      if(n=="memcpy"||n=="memmove"){ concretize(B,I->getArgOperand(2),I); B.SetInsertPoint(retPoint()); B.CreateCall(rt("__sym_memmove",VT,{PT,PT,I64}),{I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2)}); return; }
      if(n=="memset"){ concretize(B,I->getArgOperand(1),I); concretize(B,I->getArgOperand(2),I); B.SetInsertPoint(retPoint()); B.CreateCall(rt("__sym_clear",VT,{PT,I64}),{I->getArgOperand(0),I->getArgOperand(2)}); return; }
      if(n=="memcmp"||n=="bcmp"){ concretize(B,I->getArgOperand(2),I); set(I,B.CreateCall(rt("__sym_memcmp",PT,{PT,PT,I64,I32,I32}),{I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2),ci(n=="bcmp"),ci(siteOf(I))})); return; }
      if(n=="strlen"||n=="memchr"){ B.CreateCall(rt("__sym_nosym",VT,{PT,I32}),{I->getArgOperand(0),ci(siteOf(I))}); return; }
      if(!any) return;
      if((n=="sqrt"||n=="fabs"||n=="floor"||n=="ceil")){
        unsigned k=n=="fabs"?0:n=="sqrt"?1:n=="floor"?2:3;
        set(I,B.CreateCall(rt("__sym_fun1",PT,{I32,PT,DT,I32}),{ci(k),S(I->getArgOperand(0)),toD(B,I->getArgOperand(0)),ci(siteOf(I))})); return; }
      if(n=="pow"){ set(I,B.CreateCall(rt("__sym_fun2",PT,{I32,PT,PT,DT,DT,I32}),{ci(3),S(I->getArgOperand(0)),S(I->getArgOperand(1)),toD(B,I->getArgOperand(0)),toD(B,I->getArgOperand(1)),ci(siteOf(I))})); return; }
      if(n=="hypot"||n=="cabs"){
        set(I,B.CreateCall(rt("__sym_fun2",PT,{I32,PT,PT,DT,DT,I32}),{ci(4),S(I->getArgOperand(0)),S(I->getArgOperand(1)),toD(B,I->getArgOperand(0)),toD(B,I->getArgOperand(1)),ci(siteOf(I))})); return; }
      if(n=="__muldc3"||n=="__divdc3"){
        // complex multiplication / division slow paths on finite reals
        Value*s=Constant::getNullValue(shTy(T));
        FunctionCallee f=rt("__sym_cplx",PT,{I32,PT,PT,PT,PT,DT,DT,DT,DT,I32});
        for(unsigned k=0;k<2;++k){
          Value*v=B.CreateCall(f,{ci((n=="__divdc3"?2:0)+k),S(I->getArgOperand(0)),S(I->getArgOperand(1)),S(I->getArgOperand(2)),S(I->getArgOperand(3)),I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2),I->getArgOperand(3),ci(siteOf(I))});
          s=B.CreateInsertValue(s,v,k);
        }
        set(I,s); return; }
      if(T->isPointerTy()||T->isVoidTy()) { // allocation sizes etc.
        bool alloc=n.starts_with("_Znw")||n.starts_with("_Zna")||n=="malloc"||n=="calloc"||n=="realloc"||n=="aligned_alloc"||n=="posix_memalign"||n.starts_with("_Zdl");
        if(alloc) for(auto&a:I->args()) concretize(B,a,I);
        return; }
      if(carries(T)&&isScalar(T)){
        Value*acc=ConstantPointerNull::get(PT);
        for(auto&a:I->args()) if(isScalar(a->getType())&&!isNull(S(a))) acc=isNull(acc)?S(a):B.CreateSelect(B.CreateIsNull(acc),S(a),acc);
        warn("extern "+n);
        set(I,B.CreateCall(rt("__sym_ext",PT,{PT,I32}),{acc,ci(siteOf(I))}));
      }
      return;
    }
    // instrumented (or unknown indirect) callee
    bool any=false; for(auto&a:I->args()) if(!isNull(S(a))) any=true;
    bool byval=false; for(unsigned i=0;i<I->arg_size();++i) if(I->isByValArgument(i)) byval=true;
    if(any||byval){
      unsigned pos=0;
      for(unsigned i=0;i<I->arg_size();++i){ Value*a=I->getArgOperand(i);
        if(I->isByValArgument(i)){ if(pos<MAXSLOT) B.CreateStore(a,slot(B,gArgs,pos)); pos++; }
        else if(carries(a->getType())) storeFlat(B,gArgs,pos,S(a),a->getType()); }
      B.CreateStore(I->getCalledOperand(),gCallee);
    }
    if(carries(T)){
      B.CreateStore(ConstantInt::get(I64,0),gRetOk);
      B.SetInsertPoint(retPoint());
      Value*ok=B.CreateICmpEQ(B.CreateLoad(I64,gRetOk),ConstantInt::get(I64,1));
      unsigned pos=0; set(I,loadFlat(B,gRets,pos,T,ok));
      B.CreateStore(ConstantInt::get(I64,0),gRetOk);
    }
  }

  void doInst(Instruction*I){
    IRBuilder<> B(I);
    Type*T=I->getType();
    if(isa<DbgInfoIntrinsic>(I)) return;
    if(T->isVectorTy()) warn("vector op "+Twine(I->getOpcodeName()));
    if(auto*CB=dyn_cast<CallBase>(I)){ doCall(CB); return; }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){
      if(T->isVectorTy()) return;
      Value*a=S(BO->getOperand(0)),*b=S(BO->getOperand(1)); if(isNull(a)&&isNull(b)) return;
      if(T->isFloatingPointTy()) set(I,B.CreateCall(rt("__sym_fbin",PT,{I32,PT,PT,DT,DT}),{ci(BO->getOpcode()),a,b,toD(B,BO->getOperand(0)),toD(B,BO->getOperand(1))}));
      else set(I,B.CreateCall(rt("__sym_bin",PT,{I32,I32,PT,PT,I64,I64}),{ci(BO->getOpcode()),ci(bits(T)),a,b,toI64(B,BO->getOperand(0)),toI64(B,BO->getOperand(1))}));
      return; }
    if(auto*U=dyn_cast<UnaryOperator>(I)){ Value*a=S(U->getOperand(0)); if(isNull(a)) return;
      set(I,B.CreateCall(rt("__sym_fneg",PT,{PT}),{a})); return; }
    if(auto*IC=dyn_cast<ICmpInst>(I)){
      if(!IC->getOperand(0)->getType()->isIntegerTy()) return;
      Value*a=S(IC->getOperand(0)),*b=S(IC->getOperand(1)); if(isNull(a)&&isNull(b)) return;
      set(I,B.CreateCall(rt("__sym_icmp",PT,{I32,I32,PT,PT,I64,I64}),{ci(IC->getPredicate()),ci(bits(IC->getOperand(0)->getType())),a,b,toI64(B,IC->getOperand(0)),toI64(B,IC->getOperand(1))})); return; }
    if(auto*FC=dyn_cast<FCmpInst>(I)){
      Value*a=S(FC->getOperand(0)),*b=S(FC->getOperand(1)); if(isNull(a)&&isNull(b)) return;
      set(I,B.CreateCall(rt("__sym_fcmp",PT,{I32,PT,PT,DT,DT}),{ci(FC->getPredicate()),a,b,toD(B,FC->getOperand(0)),toD(B,FC->getOperand(1))}));
      if(T->isIntegerTy(1)){ Value*s=S(FC); IRBuilder<> A(FC->getNextNode()); auto*nv=A.CreateCall(rt("__sym_fixcmp",Type::getInt1Ty(FC->getContext()),{PT,Type::getInt1Ty(FC->getContext())}),{s,FC}); FC->replaceUsesWithIf(nv,[&](Use&u){ return u.getUser()!=nv; }); set(nv,s); }
      return; }
    if(auto*CA=dyn_cast<CastInst>(I)){
      Value*o=CA->getOperand(0); Value*a=S(o); if(isNull(a)) return;
      switch(CA->getOpcode()){
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
        set(I,B.CreateCall(rt("__sym_cast",PT,{I32,PT,I32,I32}),{ci(CA->getOpcode()),a,ci(bits(o->getType())),ci(bits(T))})); return;
      case Instruction::FPTrunc: case Instruction::FPExt:
        set(I,B.CreateCall(rt("__sym_fpcast",PT,{PT,I32,I32}),{a,ci(bits(o->getType())),ci(bits(T))})); return;
      case Instruction::BitCast: if(isScalar(T)) set(I,a); return;
      case Instruction::FPToSI: case Instruction::FPToUI:
        set(I,B.CreateCall(rt("__sym_fptoi",PT,{PT,I32,I32,DT,I32}),{a,ci(CA->getOpcode()==Instruction::FPToSI),ci(bits(T)),toD(B,o),ci(siteOf(I))})); return;
      default: concretize(B,o,I); return; } }
    if(auto*L=dyn_cast<LoadInst>(I)){
      if(!carries(T)) return; set(I,nullptr==T?nullptr:loadShadow(B,L->getPointerOperand(),T)); return; }
    if(auto*St=dyn_cast<StoreInst>(I)){
      // shadow store placed after the real store (ASan faults come first)
      B.SetInsertPoint(I->getNextNode()); storeShadow(B,St->getPointerOperand(),S(St->getValueOperand()),St->getValueOperand()->getType()); return; }
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){ for(auto&x:G->indices()) if(!isa<Constant>(x)) concretize(B,x,I); return; }
    if(auto*Se=dyn_cast<SelectInst>(I)){
      Value*c=Se->getCondition(); if(c->getType()->isVectorTy()) return;
      Value*sc=S(c),*a=S(Se->getTrueValue()),*b=S(Se->getFalseValue());
      if(isNull(sc)){ if(isNull(a)&&isNull(b)) return; set(I,B.CreateSelect(c,a,b)); return; }
      if(T->isIntegerTy()&&bits(T)<=64){
        // concrete condition possibly forked by the runtime (real-valued conditions)
        Value*c2=B.CreateCall(rt("__sym_selcond",I1,{PT,I1,I32}),{sc,c,ci(siteOf(I))});
        Value*s=B.CreateCall(rt("__sym_select",PT,{PT,I1,PT,PT,I32,I64,I64}),{sc,c2,a,b,ci(bits(T)),toI64(B,Se->getTrueValue()),toI64(B,Se->getFalseValue())});
        Se->setCondition(c2); set(I,s); return; }
      Value*c2=B.CreateCall(rt("__sym_branch",I1,{PT,I1,I32}),{sc,c,ci(siteOf(I))});
      Se->setCondition(c2);
      if(isNull(a)&&isNull(b)) return;
      set(I,B.CreateSelect(c2,a,b)); return; }
    if(isa<FreezeInst>(I)){ set(I,S(I->getOperand(0))); return; }
    if(auto*EV=dyn_cast<ExtractValueInst>(I)){ Value*a=S(EV->getAggregateOperand()); if(isNull(a)||!carries(T)) return; set(I,B.CreateExtractValue(a,EV->getIndices())); return; }
    if(auto*IV=dyn_cast<InsertValueInst>(I)){ Value*a=S(IV->getAggregateOperand()),*b=S(IV->getInsertedValueOperand()); if(isNull(a)&&isNull(b)) return; set(I,B.CreateInsertValue(a,b,IV->getIndices())); return; }
    if(auto*Br=dyn_cast<BranchInst>(I)){
      if(!Br->isConditional()) return; Value*sc=S(Br->getCondition()); if(isNull(sc)) return;
      Br->setCondition(B.CreateCall(rt("__sym_branch",I1,{PT,I1,I32}),{sc,Br->getCondition(),ci(siteOf(I))})); return; }
    if(auto*R=dyn_cast<ReturnInst>(I)){
      Value*v=R->getReturnValue(); if(!v||!carries(v->getType())) return;
      Value*s=S(v); 
      unsigned pos=0; if(isNull(s)){ B.CreateStore(ConstantInt::get(I64,0),gRetOk); return; }
      storeFlat(B,gRets,pos,s,v->getType()); B.CreateStore(ConstantInt::get(I64,1),gRetOk); return; }
    if(auto*Al=dyn_cast<AllocaInst>(I)){
      concretize(B,Al->getArraySize(),I);
      return; }
    if(auto*A=dyn_cast<AtomicRMWInst>(I)){ concretize(B,A->getValOperand(),I); B.SetInsertPoint(I->getNextNode()); storeShadow(B,A->getPointerOperand(),ConstantPointerNull::get(PT),A->getValOperand()->getType()); return; }
    if(isa<ExtractElementInst>(I)||isa<InsertElementInst>(I)||isa<ShuffleVectorInst>(I)){ warn("vector element op"); return; }
  }

  void doFunction(Function&F){
    sh.clear();
    EliminateUnreachableBlocks(F);
    // normal edges of invokes with results get a private block
    { SmallVector<InvokeInst*,16> inv; for(auto&BB:F) if(auto*I=dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(I);
      for(auto*I:inv){ BasicBlock*N=I->getNormalDest(); if(!N->getSinglePredecessor()||isa<PHINode>(N->front())) SplitEdge(I->getParent(),N); } }
    F.addFnAttr(Attribute::SanitizeAddress);
    F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::NoSync); F.removeFnAttr(Attribute::WillReturn);
    for(auto&A:F.args()){ A.removeAttr(Attribute::ReadNone);A.removeAttr(Attribute::ReadOnly);A.removeAttr(Attribute::WriteOnly);A.removeAttr(Attribute::NoCapture);A.removeAttr(Attribute::NoAlias);} 
    ReversePostOrderTraversal<Function*> RPO(&F);
    SmallVector<Instruction*,256> work;
    for(auto*BB:RPO) for(auto&I:*BB) work.push_back(&I);
    // prologue
    { SmallVector<AllocaInst*,32> st; for(auto&I:F.getEntryBlock()) if(auto*A=dyn_cast<AllocaInst>(&I)) if(A->isStaticAlloca()) st.push_back(A);
      Instruction*at=&*F.getEntryBlock().getFirstInsertionPt(); while(isa<AllocaInst>(at)) at=at->getNextNode();
      for(auto*A:st) if(at->comesBefore(A)) A->moveBefore(at); }
    Instruction*first=&*F.getEntryBlock().getFirstInsertionPt();
    while(isa<AllocaInst>(first)) first=first->getNextNode();
    IRBuilder<> B(first);
    for(auto&I:F.getEntryBlock()) if(auto*A=dyn_cast<AllocaInst>(&I)) if(A->isStaticAlloca()){
      // clear at function entry (also covers lifetime-less slots)
      if(auto sz=A->getAllocationSize(*DL)) B.CreateCall(rt("__sym_clear",VT,{PT,I64}),{A,ConstantInt::get(I64,sz->getFixedValue())}); }
    bool needArgs=false; for(auto&A:F.args()) if(carries(A.getType())||A.hasByValAttr()) needArgs=true;
    if(needArgs){
      Value*ok=B.CreateICmpEQ(B.CreateLoad(PT,gCallee),&F);
      unsigned pos=0;
      for(auto&A:F.args()){
        if(A.hasByValAttr()){ if(pos<MAXSLOT){ Value*o=B.CreateSelect(ok,B.CreateLoad(PT,slot(B,gArgs,pos)),ConstantPointerNull::get(PT)); 
            B.CreateCall(rt("__sym_byval",VT,{PT,PT,I64}),{&A,o,ConstantInt::get(I64,DL->getTypeAllocSize(A.getParamByValType()))}); } pos++; }
        else if(carries(A.getType())) set(&A,loadFlat(B,gArgs,pos,A.getType(),ok)); }
      B.CreateStore(ConstantPointerNull::get(PT),gCallee);
    }
    B.CreateCall(rt("__sym_enter",VT,{I32}),{ci(fnId(F))});
    SmallVector<std::pair<PHINode*,PHINode*>,32> phis;
    for(auto*I:work) if(auto*P=dyn_cast<PHINode>(I)) if(carries(P->getType())){
      bool allc=true; for(auto&x:P->incoming_values()) if(!isa<Constant>(x)) allc=false;
      if(allc) continue;
      PHINode*sp=PHINode::Create(shTy(P->getType()),P->getNumIncomingValues(),"",P); sh[P]=sp; phis.push_back({P,sp}); }
    for(auto*I:work) if(!isa<PHINode>(I)) doInst(I);
    for(auto&pr:phis) for(unsigned i=0;i<pr.first->getNumIncomingValues();++i) pr.second->addIncoming(S(pr.first->getIncomingValue(i)),pr.first->getIncomingBlock(i));
  }

  std::vector<std::string> fns;
  unsigned fnId(Function&F){
    std::string f; if(auto*sp=F.getSubprogram()) f=sp->getFilename().str();
    fns.push_back(f+"|"+demangle(F.getName().str()).substr(0,240)); return fns.size()-1; }

  void emitTable(StringRef name,const std::vector<std::string>&v){
    std::string all; for(auto&s:v){ all+=s; all.push_back('\n'); }
    auto*c=ConstantDataArray::getString(*C,all);
    auto*g=new GlobalVariable(*M,c->getType(),true,GlobalValue::ExternalLinkage,c,name);
    (void)g;
  }

  PreservedAnalyses run(Module&Mod,ModuleAnalysisManager&){
    M=&Mod; C=&Mod.getContext(); DL=&Mod.getDataLayout();
    PT=PointerType::get(*C,0); I1=Type::getInt1Ty(*C); I32=Type::getInt32Ty(*C); I64=Type::getInt64Ty(*C); DT=Type::getDoubleTy(*C); VT=Type::getVoidTy(*C);
    auto mk=[&](StringRef n,Type*T){ return new GlobalVariable(Mod,T,false,GlobalValue::ExternalLinkage,nullptr,n); };
    gArgs=mk("__sym_args",ArrayType::get(PT,MAXSLOT)); gRets=mk("__sym_rets",ArrayType::get(PT,MAXSLOT)); gCallee=mk("__sym_callee",PT); gRetOk=mk("__sym_retok",I64);
    // functions of the repository that are encoded (inlined copies included)
    std::set<std::string> enc;
    for(auto&F:Mod) for(auto&BB:F) for(auto&I:BB) if(DILocation*L=I.getDebugLoc()){
      while(L){ if(auto*sp=L->getScope()->getSubprogram()) if(sp->getFilename().contains("dune/istl/"))
          enc.insert(sp->getFilename().substr(sp->getFilename().find("dune/istl/")).str()+"|"+demangle(sp->getLinkageName().empty()?sp->getName().str():sp->getLinkageName().str()).substr(0,200));
        L=L->getInlinedAt(); } }
    SmallVector<Function*,64> fs; for(auto&F:Mod) if(!F.isDeclaration()&&!F.getName().starts_with("__sym_")&&!F.getName().starts_with("asan.")&&!F.hasFnAttribute(Attribute::Naked)) fs.push_back(&F);
    for(auto*F:fs) doFunction(*F);
    // the runtime must not pick up instrumented copies of inline functions
    for(auto*F:fs) if(F->hasWeakLinkage()||F->hasLinkOnceLinkage()){ F->setComdat(nullptr); F->setLinkage(GlobalValue::InternalLinkage); F->setVisibility(GlobalValue::DefaultVisibility); }
    for(auto&A:Mod.aliases()) if(A.hasWeakLinkage()||A.hasLinkOnceLinkage()){ A.setLinkage(GlobalValue::InternalLinkage); A.setVisibility(GlobalValue::DefaultVisibility); }
    emitTable("__sym_sites",sites); emitTable("__sym_fns",fns); emitTable("__sym_encoded",std::vector<std::string>(enc.begin(),enc.end()));
    for(auto&w:warned) errs()<<"sympass: "<<w.second<<"x "<<w.first<<"\n";
    return PreservedAnalyses::none();
  }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"SymPass","1",[](PassBuilder&PB){
    PB.registerPipelineParsingCallback([](StringRef N,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){ if(N=="sym"){MPM.addPass(SymPass());return true;} return false;}); }};
}
