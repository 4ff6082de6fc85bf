// vgsym-instr: rewrites LLVM bitcode (clang 18) so that every scalar SSA value
// carries a symbolic shadow expression, and every decision taken on a symbolic
// value is delegated to the symbolic-execution runtime (runtime.cpp).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;


struct Instr {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *PtrTy; Type *I64; Type *I32; Type *I1; Type *Dbl; Type *Void;
  Constant *Null;
  GlobalVariable *GArgs, *GRet, *GCallee;
  std::map<std::string, FunctionCallee> rt;
  std::vector<std::string> sites; std::map<std::string,unsigned> siteIdx;
  std::set<std::string> unsupportedNotes;

  Instr(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    PtrTy = PointerType::getUnqual(C); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C);
    I1 = Type::getInt1Ty(C); Dbl = Type::getDoubleTy(C); Void = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(PtrTy));
    GArgs = new GlobalVariable(M, ArrayType::get(PtrTy, 128), false, GlobalValue::ExternalLinkage, nullptr, "__vs_args");
    GRet  = new GlobalVariable(M, ArrayType::get(PtrTy, 32), false, GlobalValue::ExternalLinkage, nullptr, "__vs_ret");
    GCallee = new GlobalVariable(M, PtrTy, false, GlobalValue::ExternalLinkage, nullptr, "__vs_callee");
  }
  FunctionCallee R(const char *n, Type *ret, std::vector<Type*> a) {
    auto it = rt.find(n); if (it != rt.end()) return it->second;
    FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(ret, a, false));
    rt[n] = f; return f;
  }
  // ---- shadow shapes -------------------------------------------------------
  static bool isLeaf(Type *T) { return !T->isStructTy() && !T->isArrayTy() && !T->isVectorTy(); }
  unsigned leafCount(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) { unsigned n=0; for (auto *E : S->elements()) n += leafCount(E); return n; }
    if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * leafCount(A->getElementType());
    if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements();
    return 1;
  }
  struct Leaf { Type *T; uint64_t off; };
  void leaves(Type *T, uint64_t off, std::vector<Leaf> &out) {
    if (auto *S = dyn_cast<StructType>(T)) { auto *SL = DL.getStructLayout(S);
      for (unsigned i=0;i<S->getNumElements();++i) leaves(S->getElementType(i), off + SL->getElementOffset(i), out); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t sz = DL.getTypeAllocSize(A->getElementType());
      for (uint64_t i=0;i<A->getNumElements();++i) leaves(A->getElementType(), off+i*sz, out); return; }
    if (auto *V = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL.getTypeStoreSize(V->getElementType());
      for (uint64_t i=0;i<V->getNumElements();++i) out.push_back({V->getElementType(), off+i*sz}); return; }
    out.push_back({T, off});
  }
  // shadows of a value: one Value* (ptr) per leaf
  typedef std::vector<Value*> Sh;
  std::map<Value*, Sh> shadow;
  Sh nullSh(Type *T) { return Sh(T->isVoidTy()?0:leafCount(T), Null); }
  Sh sh(Value *V) {
    if (isa<Constant>(V) || V->getType()->isPointerTy() || V->getType()->isMetadataTy() || V->getType()->isLabelTy() || V->getType()->isTokenTy()) return V->getType()->isFirstClassType() && !V->getType()->isMetadataTy() && !V->getType()->isLabelTy() && !V->getType()->isTokenTy() ? nullSh(V->getType()) : Sh();
    auto it = shadow.find(V);
    if (it == shadow.end()) return nullSh(V->getType());
    return it->second;
  }
  static bool allNull(const Sh &s) { for (auto *v : s) if (!isa<ConstantPointerNull>(v)) return false; return true; }
  Value *ci(uint64_t v) { return ConstantInt::get(I64, v); }
  Value *ci32(uint64_t v) { return ConstantInt::get(I32, v); }
  Value *bits(IRBuilder<> &B, Value *V) { // concrete value as i64 bits
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateFPExt(V, Dbl), I64);
    if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); if (w==64) return V; if (w<64) return B.CreateZExt(V, I64); return B.CreateTrunc(V, I64); }
    return ci(0);
  }
  Value *unbits(IRBuilder<> &B, Value *V, Type *T) {
    if (T->isPointerTy()) return B.CreateIntToPtr(V, T);
    if (T->isIntegerTy()) { unsigned w=T->getIntegerBitWidth(); if (w==64) return V; if (w<64) return B.CreateTrunc(V,T); return B.CreateZExt(V,T); }
    llvm_unreachable("unbits");
  }
  Value *asDbl(IRBuilder<> &B, Value *V) {
    if (V->getType()->isDoubleTy()) return V;
    if (V->getType()->isFloatTy()) return B.CreateFPExt(V, Dbl);
    if (V->getType()->isX86_FP80Ty()) return B.CreateFPTrunc(V, Dbl);
    return ConstantFP::get(Dbl, 0.0);
  }
  unsigned widthOf(Type *T) { if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; return 64; }
  unsigned site(Instruction *I) {
    std::string s;
    if (DebugLoc D = I->getDebugLoc()) {
      DILocation *L = D.get();
      std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getLinkageName().str() : "";
      if (fn.empty() && L->getScope()->getSubprogram()) fn = L->getScope()->getSubprogram()->getName().str();
      s = L->getFilename().str() + ":" + std::to_string(L->getLine()) + " " + demangle(fn);
    } else s = demangle(I->getFunction()->getName().str());
    for (char &c : s) if (c=='"'||c=='\\'||c=='\n') c='_';
    auto it = siteIdx.find(s); if (it!=siteIdx.end()) return it->second;
    unsigned id = sites.size(); sites.push_back(s); siteIdx[s]=id; return id;
  }
  // concretise integer operand of instruction if it may be symbolic
  void concretizeOperand(Instruction *I, unsigned k) {
    Value *V = I->getOperand(k);
    if (!V->getType()->isIntegerTy() || V->getType()->getIntegerBitWidth()>64) return;
    Sh s = sh(V); if (allNull(s)) return;
    IRBuilder<> B(I);
    Value *nv = B.CreateCall(R("__vs_concretize", I64, {PtrTy, I64, I32, I32}), {s[0], bits(B,V), ci32(widthOf(V->getType())), ci32(site(I))});
    I->setOperand(k, unbits(B, nv, V->getType()));
  }
  Value *argSlot(IRBuilder<> &B, GlobalVariable *G, unsigned i) { return B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i); }

  static bool isRuntimeName(StringRef n) { return n.starts_with("__vs_") || n.starts_with("vs_"); }

  void retShadowAfter(IRBuilder<> &B, CallBase *CB) {
    Type *T = CB->getType(); if (T->isVoidTy() || T->isPointerTy()) return;
    Sh s; unsigned n = leafCount(T);
    for (unsigned i=0;i<n;++i) s.push_back(B.CreateLoad(PtrTy, argSlot(B, GRet, i)));
    shadow[CB] = s;
  }
  // insertion point right after a call/invoke on the normal path
  Instruction *afterCall(CallBase *CB) {
    if (auto *II = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *ND = II->getNormalDest();
      return &*ND->getFirstInsertionPt(); // edges have been split beforehand
    }
    return CB->getNextNode();
  }

  // ---- math functions --------------------------------------------------------
  int mathFn(StringRef n) {
    static const std::map<std::string,int> t = {
      {"sqrt",1},{"sqrtf",1},{"fabs",2},{"fabsf",2},{"sin",3},{"sinf",3},{"cos",4},{"cosf",4},{"acos",5},{"acosf",5},{"atan2",6},{"atan2f",6},
      {"tan",7},{"asin",8},{"atan",9},{"pow",10},{"exp",11},{"log",12},{"floor",13},{"ceil",14},{"fmin",15},{"fmax",16},{"copysign",17},{"round",18},{"trunc",19},
      {"log10",20},{"fmod",21},{"hypot",22},{"sqrtl",1},{"fabsl",2}};
    auto it = t.find(n.str()); return it==t.end()?0:it->second;
  }
  int mathIntrinsic(Intrinsic::ID id) {
    switch (id) { case Intrinsic::sqrt: return 1; case Intrinsic::fabs: return 2; case Intrinsic::sin: return 3; case Intrinsic::cos: return 4;
      case Intrinsic::pow: return 10; case Intrinsic::exp: return 11; case Intrinsic::log: return 12; case Intrinsic::floor: return 13; case Intrinsic::ceil: return 14;
      case Intrinsic::minnum: return 15; case Intrinsic::maxnum: return 16; case Intrinsic::copysign: return 17; case Intrinsic::round: return 18; case Intrinsic::trunc: return 19; case Intrinsic::log10: return 20; default: return 0; }
  }
  void doMath(CallBase *CB, int fn) {
    Sh a = sh(CB->getArgOperand(0)); Value *bv = nullptr; Sh b = {Null};
    if (CB->arg_size()>1) { bv = CB->getArgOperand(1); b = sh(bv); }
    if (allNull(a) && allNull(b)) return;
    IRBuilder<> B(afterCall(CB));
    Value *r = B.CreateCall(R("__vs_fun", PtrTy, {I32, PtrTy, Dbl, PtrTy, Dbl}), {ci32(fn), a[0], asDbl(B, CB->getArgOperand(0)), b[0], bv?asDbl(B,bv):ConstantFP::get(Dbl,0)});
    shadow[CB] = {r};
  }

  void visitCall(CallBase *CB) {
    if (CB->isInlineAsm()) return;
    Function *F = CB->getCalledFunction();
    Value *callee = CB->getCalledOperand();
    if (!F) if (auto *GA = dyn_cast<GlobalAlias>(callee->stripPointerCasts())) F = dyn_cast<Function>(GA->getAliaseeObject());
    if (F && F->isIntrinsic()) { visitIntrinsic(CB, F); return; }
    if (F && F->isDeclaration()) {
      StringRef n = F->getName();
      if (n.starts_with("__vs_")) return;
      if (n.starts_with("vs_")) { passArgs(CB); IRBuilder<> B(afterCall(CB)); retShadowAfter(B, CB); return; }
      if (int fn = mathFn(n)) { doMath(CB, fn); return; }
      if (n=="memcpy"||n=="memmove") { concretizeArg(CB,2); IRBuilder<> B(afterCall(CB));
        B.CreateCall(R("__vs_memcpy", Void, {PtrTy,PtrTy,I64}), {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)}); return; }
      if (n=="memset") { concretizeArg(CB,2); concretizeArg(CB,1); IRBuilder<> B(afterCall(CB));
        B.CreateCall(R("__vs_clear", Void, {PtrTy,I64}), {CB->getArgOperand(0), CB->getArgOperand(2)}); return; }
      if (n=="memcmp"||n=="bcmp") { concretizeArg(CB,2); IRBuilder<> B(CB);
        B.CreateCall(R("__vs_concretize_mem", Void, {PtrTy,I64,I32}), {CB->getArgOperand(0), CB->getArgOperand(2), ci32(site(CB))});
        B.CreateCall(R("__vs_concretize_mem", Void, {PtrTy,I64,I32}), {CB->getArgOperand(1), CB->getArgOperand(2), ci32(site(CB))}); return; }
      if (n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmRKSt9nothrow_t") { concretizeArg(CB,0); IRBuilder<> B(afterCall(CB));
        B.CreateCall(R("__vs_clear", Void, {PtrTy,I64}), {CB, CB->getArgOperand(0)}); return; }
      // iostream wrappers with shadow knowledge live in the runtime
      static const std::map<std::string,std::string> wrap = {
        {"_ZNSolsEd","__vsw_os_d"},{"_ZNSo9_M_insertIdEERSoT_","__vsw_os_d"},
        {"_ZNSirsERd","__vsw_is_d"},{"_ZNSi10_M_extractIdEERSiRT_","__vsw_is_d"},
        {"_ZNSirsERi","__vsw_is_i"},{"_ZNSi10_M_extractImEERSiRT_","__vsw_is_m"},{"_ZNSirsERm","__vsw_is_m"},
        {"_ZNSi10_M_extractIlEERSiRT_","__vsw_is_l"},{"_ZNSirsERl","__vsw_is_l"},
        {"_ZNSi10_M_extractIjEERSiRT_","__vsw_is_j"},{"_ZNSirsERj","__vsw_is_j"},
        {"_ZNSolsEi","__vsw_os_i"},{"_ZNSolsEl","__vsw_os_l"},{"_ZNSo9_M_insertIlEERSoT_","__vsw_os_l"},
        {"_ZNSolsEm","__vsw_os_m"},{"_ZNSo9_M_insertImEERSoT_","__vsw_os_m"},{"_ZNSolsEj","__vsw_os_j"},
        {"strtod","__vsw_strtod"},{"atof","__vsw_atof"}};
      auto w = wrap.find(n.str());
      if (w != wrap.end()) {
        FunctionCallee wf = M.getOrInsertFunction(w->second, F->getFunctionType());
        CB->setCalledFunction(wf); passArgs(CB);
        IRBuilder<> B(afterCall(CB)); retShadowAfter(B, CB); return;
      }
      // unknown external: integer args are concretised, symbolic doubles end the path as unsupported
      for (unsigned i=0;i<CB->arg_size();++i) {
        Value *V = CB->getArgOperand(i); Sh s = sh(V); if (allNull(s)) continue;
        if (V->getType()->isIntegerTy()) concretizeArg(CB,i);
        else { IRBuilder<> B(CB); for (auto *e : s) B.CreateCall(R("__vs_unsupported", Void, {PtrTy,PtrTy,I32}), {e, B.CreateGlobalStringPtr(("external "+n).str()), ci32(site(CB))}); }
      }
      return; // result shadow null
    }
    passArgs(CB);
    IRBuilder<> B(afterCall(CB)); retShadowAfter(B, CB);
  }
  void concretizeArg(CallBase *CB, unsigned i) { concretizeOperand(CB, i); }
  void passArgs(CallBase *CB) {
    IRBuilder<> B(CB);
    unsigned k=0;
    for (unsigned i=0;i<CB->arg_size();++i) {
      Value *V = CB->getArgOperand(i);
      if (V->getType()->isMetadataTy()) continue;
      if (V->getType()->isPointerTy()) {
        if (CB->isByValArgument(i)) { B.CreateStore(V, argSlot(B, GArgs, k)); }
        k++; continue;
      }
      for (auto *e : sh(V)) { if (k<128) B.CreateStore(e, argSlot(B, GArgs, k)); k++; }
    }
    if (k>128) errs() << "vgsym-instr: too many args\n";
    B.CreateStore(CB->getCalledOperand(), GCallee);
    if (!CB->getType()->isVoidTy() && !CB->getType()->isPointerTy())
      for (unsigned i=0;i<leafCount(CB->getType());++i) B.CreateStore(Null, argSlot(B, GRet, i));
  }
  void visitIntrinsic(CallBase *CB, Function *F) {
    Intrinsic::ID id = F->getIntrinsicID();
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        concretizeArg(CB,2); IRBuilder<> B(afterCall(CB));
        B.CreateCall(R("__vs_memcpy", Void, {PtrTy,PtrTy,I64}), {CB->getArgOperand(0), CB->getArgOperand(1), B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)}); return; }
      case Intrinsic::memset: {
        concretizeArg(CB,2); concretizeArg(CB,1); IRBuilder<> B(afterCall(CB));
        B.CreateCall(R("__vs_clear", Void, {PtrTy,I64}), {CB->getArgOperand(0), B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)}); return; }
      case Intrinsic::expect: shadow[CB] = sh(CB->getArgOperand(0)); return;
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        Sh a=sh(CB->getArgOperand(0)), b=sh(CB->getArgOperand(1)), c=sh(CB->getArgOperand(2));
        if (allNull(a)&&allNull(b)&&allNull(c)) return;
        IRBuilder<> B(afterCall(CB));
        Value *av=asDbl(B,CB->getArgOperand(0)), *bv=asDbl(B,CB->getArgOperand(1)), *cv=asDbl(B,CB->getArgOperand(2));
        auto fb = R("__vs_fbin", PtrTy, {I32, PtrTy, Dbl, PtrTy, Dbl, I32});
        Value *m = B.CreateCall(fb, {ci32(Instruction::FMul), a[0], av, b[0], bv, ci32(site(CB))});
        Value *r = B.CreateCall(fb, {ci32(Instruction::FAdd), m, B.CreateFMul(av,bv), c[0], cv, ci32(site(CB))});
        shadow[CB] = {r}; return; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs: case Intrinsic::usub_sat: {
        Sh a=sh(CB->getArgOperand(0)), b=sh(CB->getArgOperand(1)); if (!CB->getType()->isIntegerTy()) return;
        if (allNull(a)&&allNull(b)) return;
        int k = id==Intrinsic::smax?0:id==Intrinsic::smin?1:id==Intrinsic::umax?2:id==Intrinsic::umin?3:id==Intrinsic::abs?4:5;
        IRBuilder<> B(afterCall(CB));
        Value *r = B.CreateCall(R("__vs_iminmax", PtrTy, {I32,I32,PtrTy,I64,PtrTy,I64}), {ci32(k), ci32(widthOf(CB->getType())), a[0], bits(B,CB->getArgOperand(0)), b[0], bits(B,CB->getArgOperand(1))});
        shadow[CB] = {r}; return; }
      case Intrinsic::is_fpclass: {
        Sh a=sh(CB->getArgOperand(0)); if (allNull(a)) return;
        IRBuilder<> B(afterCall(CB));
        Value *r = B.CreateCall(R("__vs_fpclass", PtrTy, {PtrTy, I32}), {a[0], CB->getArgOperand(1)});
        shadow[CB] = {r}; return; }
      default: break;
    }
    if (int fn = mathIntrinsic(id)) { if (CB->getType()->isDoubleTy()||CB->getType()->isFloatTy()) doMath(CB, fn); return; }
    if (isa<DbgInfoIntrinsic>(CB) || id==Intrinsic::lifetime_start || id==Intrinsic::lifetime_end || id==Intrinsic::assume || id==Intrinsic::donothing || id==Intrinsic::trap) return;
    // default: concretise integer operands, refuse symbolic doubles
    for (unsigned i=0;i<CB->arg_size();++i) {
      Value *V = CB->getArgOperand(i);
      if (V->getType()->isMetadataTy() || V->getType()->isTokenTy()) continue;
      Sh s = sh(V); if (allNull(s)) continue;
      if (V->getType()->isIntegerTy()) concretizeArg(CB,i);
      else { IRBuilder<> B(CB); for (auto *e : s) B.CreateCall(R("__vs_unsupported", Void, {PtrTy,PtrTy,I32}), {e, B.CreateGlobalStringPtr(("intrinsic "+F->getName()).str()), ci32(site(CB))}); }
    }
  }

  void run(Function &F) {
    if (F.isDeclaration() || isRuntimeName(F.getName())) return;
    shadow.clear();
    // split edges: every invoke's normal destination must have a single predecessor
    std::vector<InvokeInst*> invs;
    for (auto &BB : F) if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(II);
    for (auto *II : invs) {
      BasicBlock *ND = II->getNormalDest();
      if (!ND->getSinglePredecessor() || isa<PHINode>(ND->front())) SplitEdge(II->getParent(), ND);
    }
    std::vector<Instruction*> work; std::vector<PHINode*> phis;
    for (BasicBlock &BB : F) for (Instruction &I : BB) work.push_back(&I);
    // order: reverse post order so that operands are visited before uses (phis resolved at the end)
    std::vector<Instruction*> order;
    { std::set<BasicBlock*> seen; std::vector<BasicBlock*> post; std::vector<std::pair<BasicBlock*, unsigned>> st;
      st.push_back({&F.getEntryBlock(),0}); seen.insert(&F.getEntryBlock());
      while (!st.empty()) { auto &[b,i] = st.back(); auto *T = b->getTerminator();
        if (i < T->getNumSuccessors()) { BasicBlock *s = T->getSuccessor(i++); if (seen.insert(s).second) st.push_back({s,0}); }
        else { post.push_back(b); st.pop_back(); } }
      for (auto it = post.rbegin(); it != post.rend(); ++it) for (Instruction &I : **it) order.push_back(&I); }
    // entry: fetch argument shadows
    Instruction *entryIP = &*F.getEntryBlock().getFirstInsertionPt();
    while (isa<AllocaInst>(entryIP)) entryIP = entryIP->getNextNode();
    {
      IRBuilder<> B(entryIP);
      if (F.arg_size()) {
        bool need=false; for (auto &A : F.args()) if (!A.getType()->isPointerTy() || A.hasByValAttr()) need=true;
        if (need) {
          Value *c = B.CreateICmpEQ(B.CreateLoad(PtrTy, GCallee), &F);
          unsigned k=0;
          for (auto &A : F.args()) {
            if (A.getType()->isPointerTy()) {
              if (A.hasByValAttr()) { Value *src = B.CreateLoad(PtrTy, argSlot(B,GArgs,k));
                B.CreateCall(R("__vs_byval", Void, {PtrTy,PtrTy,I64,I1}), {&A, src, ci(DL.getTypeAllocSize(A.getParamByValType())), c}); }
              k++; continue; }
            Sh s; unsigned n=leafCount(A.getType());
            for (unsigned i=0;i<n;++i) { Value *l = B.CreateLoad(PtrTy, argSlot(B,GArgs,k++)); s.push_back(B.CreateSelect(c, l, Null)); }
            shadow[&A] = s;
          }
        }
      }
      B.CreateStore(Null, GCallee);
    }
    for (Instruction *I : order) {
      if (auto *P = dyn_cast<PHINode>(I)) {
        if (P->getType()->isPointerTy() || !P->getType()->isFirstClassType()) continue;
        IRBuilder<> B(P); Sh s;
        for (unsigned i=0;i<leafCount(P->getType());++i) s.push_back(B.CreatePHI(PtrTy, P->getNumIncomingValues()));
        shadow[P]=s; phis.push_back(P); continue;
      }
      visit(I);
    }
    for (auto *P : phis) for (unsigned i=0;i<P->getNumIncomingValues();++i) {
      Sh s = sh(P->getIncomingValue(i));
      for (unsigned j=0;j<s.size();++j) cast<PHINode>(shadow[P][j])->addIncoming(s[j], P->getIncomingBlock(i));
    }
  }
  void visit(Instruction *I) {
    if (auto *A = dyn_cast<AllocaInst>(I)) {
      if (A->isArrayAllocation() && !isa<ConstantInt>(A->getArraySize())) { concretizeOperand(A,0); }
      uint64_t n=1; if (auto *CI = dyn_cast<ConstantInt>(A->getArraySize())) n = CI->getZExtValue();
      Instruction *ip = A->getNextNode(); while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      B.CreateCall(R("__vs_clear", Void, {PtrTy,I64}), {A, ci(n*DL.getTypeAllocSize(A->getAllocatedType()))});
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (L->getType()->isPointerTy()) return;
      IRBuilder<> B(L->getNextNode()); std::vector<Leaf> lv; leaves(L->getType(), 0, lv); Sh s;
      for (auto &l : lv) { if (l.T->isPointerTy()) { s.push_back(Null); continue; }
        Value *p = l.off ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), L->getPointerOperand(), l.off) : L->getPointerOperand();
        s.push_back(B.CreateCall(R("__vs_load", PtrTy, {PtrTy,I64,I32}), {p, ci(DL.getTypeStoreSize(l.T)), ci32(l.T->isIntegerTy()?l.T->getIntegerBitWidth():0)})); }
      shadow[L]=s; return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *V = S->getValueOperand(); IRBuilder<> B(S->getNextNode()); std::vector<Leaf> lv; leaves(V->getType(),0,lv); Sh s = sh(V);
      for (unsigned i=0;i<lv.size();++i) {
        Value *p = lv[i].off ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), S->getPointerOperand(), lv[i].off) : S->getPointerOperand();
        B.CreateCall(R("__vs_store", Void, {PtrTy,I64,PtrTy}), {p, ci(DL.getTypeStoreSize(lv[i].T)), s[i]}); }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) { for (unsigned k=1;k<G->getNumOperands();++k) concretizeOperand(G,k); return; }
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      Value *x=BO->getOperand(0), *y=BO->getOperand(1); Sh a=sh(x), b=sh(y); if (allNull(a)&&allNull(b)) return;
      IRBuilder<> B(BO->getNextNode());
      if (BO->getType()->isVectorTy()) {
        auto *VT = cast<FixedVectorType>(BO->getType()); Sh s;
        for (unsigned i=0;i<VT->getNumElements();++i) { Value *xe=B.CreateExtractElement(x,i), *ye=B.CreateExtractElement(y,i);
          if (VT->getElementType()->isFloatingPointTy()) s.push_back(B.CreateCall(R("__vs_fbin", PtrTy, {I32, PtrTy, Dbl, PtrTy, Dbl, I32}), {ci32(BO->getOpcode()), a[i], asDbl(B,xe), b[i], asDbl(B,ye), ci32(site(BO))}));
          else s.push_back(B.CreateCall(R("__vs_bin", PtrTy, {I32,I32,PtrTy,I64,PtrTy,I64,I32}), {ci32(BO->getOpcode()), ci32(widthOf(VT->getElementType())), a[i], bits(B,xe), b[i], bits(B,ye), ci32(site(BO))})); }
        shadow[BO]=s; return;
      }
      if (BO->getType()->isFloatingPointTy()) shadow[BO] = {B.CreateCall(R("__vs_fbin", PtrTy, {I32, PtrTy, Dbl, PtrTy, Dbl, I32}), {ci32(BO->getOpcode()), a[0], asDbl(B,x), b[0], asDbl(B,y), ci32(site(BO))})};
      else {
        unsigned op = BO->getOpcode();
        // a symbolic divisor/dividend would trap natively on junk: concretise
        if (op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem) { concretizeOperand(BO,0); concretizeOperand(BO,1); return; }
        shadow[BO] = {B.CreateCall(R("__vs_bin", PtrTy, {I32,I32,PtrTy,I64,PtrTy,I64,I32}), {ci32(op), ci32(widthOf(BO->getType())), a[0], bits(B,x), b[0], bits(B,y), ci32(site(BO))})};
      }
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) { // fneg
      Sh a=sh(U->getOperand(0)); if (allNull(a)) return; IRBuilder<> B(U->getNextNode()); Sh s;
      for (auto *e : a) s.push_back(B.CreateCall(R("__vs_fneg", PtrTy, {PtrTy}), {e}));
      shadow[U]=s; return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Value *x=IC->getOperand(0), *y=IC->getOperand(1); if (x->getType()->isPointerTy() || x->getType()->isVectorTy()) return;
      Sh a=sh(x), b=sh(y); if (allNull(a)&&allNull(b)) return; IRBuilder<> B(IC->getNextNode());
      shadow[IC] = {B.CreateCall(R("__vs_icmp", PtrTy, {I32,I32,PtrTy,I64,PtrTy,I64}), {ci32(IC->getPredicate()), ci32(widthOf(x->getType())), a[0], bits(B,x), b[0], bits(B,y)})}; return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(I)) {
      Value *x=FC->getOperand(0), *y=FC->getOperand(1); if (x->getType()->isVectorTy()) return;
      Sh a=sh(x), b=sh(y); if (allNull(a)&&allNull(b)) return; IRBuilder<> B(FC->getNextNode());
      shadow[FC] = {B.CreateCall(R("__vs_fcmp", PtrTy, {I32,PtrTy,Dbl,PtrTy,Dbl}), {ci32(FC->getPredicate()), a[0], asDbl(B,x), b[0], asDbl(B,y)})}; return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *x=CI->getOperand(0); Type *ST=x->getType(), *DT=CI->getType(); if (ST->isPointerTy()) return;
      Sh a=sh(x); if (allNull(a)) return;
      switch (CI->getOpcode()) {
        case Instruction::BitCast: if (leafCount(ST)==leafCount(DT)) shadow[CI]=a; else { IRBuilder<> B(CI); for (auto*e:a) B.CreateCall(R("__vs_unsupported", Void, {PtrTy,PtrTy,I32}), {e, B.CreateGlobalStringPtr("bitcast"), ci32(site(CI))}); } return;
        case Instruction::FPExt: case Instruction::FPTrunc: shadow[CI]=a; return;
        case Instruction::IntToPtr: concretizeOperand(CI,0); return;
        case Instruction::SIToFP: case Instruction::UIToFP: {
          IRBuilder<> B(CI->getNextNode());
          shadow[CI] = {B.CreateCall(R("__vs_itofp", PtrTy, {PtrTy,I32,I32}), {a[0], ci32(widthOf(ST)), ci32(CI->getOpcode()==Instruction::SIToFP)})}; return; }
        case Instruction::FPToSI: case Instruction::FPToUI: {
          IRBuilder<> B(CI->getNextNode());
          shadow[CI] = {B.CreateCall(R("__vs_fptoi", PtrTy, {PtrTy,I32,I32}), {a[0], ci32(widthOf(DT)), ci32(site(CI))})}; return; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
          IRBuilder<> B(CI->getNextNode());
          shadow[CI] = {B.CreateCall(R("__vs_icast", PtrTy, {I32,I32,I32,PtrTy}), {ci32(CI->getOpcode()), ci32(widthOf(ST)), ci32(widthOf(DT)), a[0]})}; return; }
        default: return;
      }
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      Value *c=S->getCondition(), *x=S->getTrueValue(), *y=S->getFalseValue(); Sh ec=sh(c), a=sh(x), b=sh(y);
      if (c->getType()->isVectorTy()) return;
      if (!allNull(ec)) {
        IRBuilder<> B(S);
        bool forkIt = S->getType()->isPointerTy() || leafCount(S->getType())!=1 || S->getType()->isFloatingPointTy();
        if (forkIt) {
          Value *nc = B.CreateCall(R("__vs_branch", I1, {PtrTy,I1,I32}), {ec[0], c, ci32(site(S))});
          S->setCondition(nc);
          if (!S->getType()->isPointerTy()) { Sh s; for (unsigned i=0;i<a.size();++i) s.push_back(B.CreateSelect(nc, a[i], b[i])); shadow[S]=s; }
        } else {
          IRBuilder<> B2(S->getNextNode());
          shadow[S] = {B2.CreateCall(R("__vs_ite", PtrTy, {PtrTy,I1,I32,PtrTy,I64,PtrTy,I64}), {ec[0], c, ci32(widthOf(S->getType())), a[0], bits(B2,x), b[0], bits(B2,y)})};
        }
      } else if (!S->getType()->isPointerTy() && !(allNull(a)&&allNull(b))) {
        IRBuilder<> B(S->getNextNode()); Sh s; for (unsigned i=0;i<a.size();++i) s.push_back(B.CreateSelect(c, a[i], b[i])); shadow[S]=s;
      }
      return;
    }
    if (auto *BI = dyn_cast<BranchInst>(I)) {
      if (!BI->isConditional()) return; Sh ec=sh(BI->getCondition()); if (allNull(ec)) return;
      IRBuilder<> B(BI); BI->setCondition(B.CreateCall(R("__vs_branch", I1, {PtrTy,I1,I32}), {ec[0], BI->getCondition(), ci32(site(BI))})); return;
    }
    if (auto *SI = dyn_cast<SwitchInst>(I)) { concretizeOperand(SI,0); return; }
    if (auto *RI = dyn_cast<ReturnInst>(I)) {
      Value *V = RI->getReturnValue(); if (!V || V->getType()->isPointerTy()) return;
      IRBuilder<> B(RI); Sh s=sh(V); for (unsigned i=0;i<s.size();++i) B.CreateStore(s[i], argSlot(B,GRet,i)); return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      Sh a=sh(E->getAggregateOperand()); if (allNull(a)) return;
      Type *T=E->getAggregateOperand()->getType(); unsigned off=0;
      for (unsigned ix : E->indices()) { if (auto *S=dyn_cast<StructType>(T)) { for (unsigned i=0;i<ix;++i) off+=leafCount(S->getElementType(i)); T=S->getElementType(ix);} else { auto *A=cast<ArrayType>(T); off+=ix*leafCount(A->getElementType()); T=A->getElementType(); } }
      if (T->isPointerTy()) return;
      shadow[E] = Sh(a.begin()+off, a.begin()+off+leafCount(T)); return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(I)) {
      Sh a=sh(E->getAggregateOperand()), v=sh(E->getInsertedValueOperand()); if (allNull(a)&&allNull(v)) return;
      Type *T=E->getAggregateOperand()->getType(); unsigned off=0;
      for (unsigned ix : E->indices()) { if (auto *S=dyn_cast<StructType>(T)) { for (unsigned i=0;i<ix;++i) off+=leafCount(S->getElementType(i)); T=S->getElementType(ix);} else { auto *A=cast<ArrayType>(T); off+=ix*leafCount(A->getElementType()); T=A->getElementType(); } }
      for (unsigned i=0;i<v.size();++i) a[off+i]=v[i];
      shadow[E]=a; return;
    }
    if (auto *E = dyn_cast<ExtractElementInst>(I)) { if (auto *ix=dyn_cast<ConstantInt>(E->getIndexOperand())) { Sh a=sh(E->getVectorOperand()); if (!allNull(a)) shadow[E]={a[ix->getZExtValue()]}; } return; }
    if (auto *E = dyn_cast<InsertElementInst>(I)) { if (auto *ix=dyn_cast<ConstantInt>(E->getOperand(2))) { Sh a=sh(E->getOperand(0)); Sh v=sh(E->getOperand(1)); a[ix->getZExtValue()]=v[0]; if (!allNull(a)) shadow[E]=a; } return; }
    if (auto *E = dyn_cast<ShuffleVectorInst>(I)) { Sh a=sh(E->getOperand(0)), b=sh(E->getOperand(1)); if (allNull(a)&&allNull(b)) return; Sh s; for (int m : E->getShuffleMask()) s.push_back(m<0?Null:(unsigned)m<a.size()?a[m]:b[m-a.size()]); shadow[E]=s; return; }
    if (auto *Fz = dyn_cast<FreezeInst>(I)) { Sh a=sh(Fz->getOperand(0)); if (!allNull(a)) shadow[Fz]=a; return; }
    if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
  }
};

int main(int argc, char **argv) {
  if (argc<4) { errs() << "usage: vgsym-instr in.bc out.bc funcs.txt\n"; return 2; }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  // evidence: every viennagrid function present in the encoded module (including inlined ones)
  std::set<std::string> funcs;
  auto note = [&](DISubprogram *SP) { if (!SP) return; std::string f = SP->getFilename().str();
    if (f.find("viennagrid/")!=std::string::npos) { std::string n = SP->getName().str(); size_t p=f.rfind("viennagrid/"); funcs.insert(f.substr(p)+":"+n); } };
  for (auto &F : *M) { note(F.getSubprogram()); for (auto &BB : F) for (auto &I : BB) { DILocation *L = I.getDebugLoc().get(); while (L) { note(L->getScope()->getSubprogram()); L = L->getInlinedAt(); } } }
  { std::ofstream o(argv[3]); for (auto &f : funcs) o << f << "\n"; }
  Instr P(*M);
  std::vector<Function*> fs; for (auto &F : *M) fs.push_back(&F);
  for (auto *F : fs) { F->removeFnAttr(Attribute::Memory); F->removeFnAttr("probe-stack");
    for (auto A : {Attribute::NoSync, Attribute::WillReturn, Attribute::NoFree, Attribute::Speculatable}) F->removeFnAttr(A);
    for (unsigned i=0;i<F->arg_size();++i) { for (auto A : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoAlias, Attribute::NoCapture, Attribute::NoUndef}) F->removeParamAttr(i,A); }
    F->removeRetAttr(Attribute::NoUndef);
    for (auto &BB : *F) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) { if (CB->getCalledFunction() && CB->getCalledFunction()->isIntrinsic()) continue;
      CB->removeFnAttr(Attribute::Memory); for (unsigned i=0;i<CB->arg_size();++i) for (auto A : {Attribute::NoUndef, Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly}) CB->removeParamAttr(i,A);
      CB->removeRetAttr(Attribute::NoUndef);
      CB->removeFnAttr(Attribute::NoBuiltin);
      if (auto *CI = dyn_cast<CallInst>(CB)) if (CI->getTailCallKind()!=CallInst::TCK_MustTail) CI->setTailCallKind(CallInst::TCK_None); }
    // tbaa/range/noundef metadata would let later passes reason about junk values
    for (auto &BB : *F) for (auto &I : BB) { I.setMetadata(LLVMContext::MD_tbaa, nullptr); I.setMetadata(LLVMContext::MD_range, nullptr); I.setMetadata(LLVMContext::MD_noundef, nullptr); I.setMetadata(LLVMContext::MD_tbaa_struct, nullptr); I.setMetadata(LLVMContext::MD_invariant_load, nullptr);
      if (isa<BinaryOperator>(I) || isa<GetElementPtrInst>(I) || isa<CastInst>(I)) I.dropPoisonGeneratingFlags(); }
  }
  for (auto *F : fs) P.run(*F);
  // site table
  { std::vector<Constant*> cs; for (auto &s : P.sites) { Constant *d = ConstantDataArray::getString(C, s); auto *g = new GlobalVariable(*M, d->getType(), true, GlobalValue::PrivateLinkage, d, "__vssite"); cs.push_back(g); }
    auto *AT = ArrayType::get(P.PtrTy, cs.size()); new GlobalVariable(*M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, cs), "__vs_sites");
    new GlobalVariable(*M, P.I32, true, GlobalValue::ExternalLinkage, ConstantInt::get(P.I32, cs.size()), "__vs_nsites"); }
  if (verifyModule(*M, &errs())) { errs() << "verify failed\n"; return 3; }
  std::error_code EC; raw_fd_ostream out(argv[2], EC, sys::fs::OF_None); WriteBitcodeToFile(*M, out);
  return 0;
}
