// LLVM pass: rewrites the floating-point semantics of a translation unit into calls of the symbolic runtime (rt.cpp).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <map>
#include <set>
using namespace llvm;

namespace {
struct NS : PassInfoMixin<NS> {
  static bool isRequired() { return true; }
  Module *M; LLVMContext *C; Type *D, *I32, *I64, *VoidT; PointerType *PT;
  bool mem = false;
  std::map<std::string, unsigned> unsupported;

  FunctionCallee fn(const std::string &n, Type *r, ArrayRef<Type *> a) {
    return M->getOrInsertFunction(n, FunctionType::get(r, a, false));
  }
  static std::string mathName(StringRef n) {
    static const std::set<std::string> m1 = {"sqrt","exp","log","sin","cos","tan","asin","acos","atan","fabs","floor","ceil",
      "trunc","round","rint","nearbyint","exp2","log2","log10","log1p","expm1","cbrt","tanh","sinh","cosh","erf","erfc"};
    static const std::set<std::string> m2 = {"pow","atan2","hypot","fmod","fmin","fmax","copysign","remainder"};
    if (m1.count(n.str()) || m2.count(n.str())) return n.str();
    return "";
  }
  bool runOnFunction(Function &F) {
    std::vector<Instruction *> work;
    for (auto &I : instructions(F)) work.push_back(&I);
    bool ch = false;
    for (auto *I : work) ch |= visit(I);
    return ch;
  }
  bool isD(Value *v) { return v->getType() == D; }
  void repl(Instruction *I, Value *v) { I->replaceAllUsesWith(v); I->eraseFromParent(); }
  bool visit(Instruction *I) {
    IRBuilder<> B(I);
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
      const char *n = nullptr;
      switch (bo->getOpcode()) {
        case Instruction::FAdd: n = "__ns_add"; break; case Instruction::FSub: n = "__ns_sub"; break;
        case Instruction::FMul: n = "__ns_mul"; break; case Instruction::FDiv: n = "__ns_div"; break;
        case Instruction::FRem: n = "__ns_m_fmod"; break; default: return false;
      }
      if (!isD(bo)) { if (bo->getType()->isVectorTy()) unsupported["vector-fp"]++; return false; }
      repl(I, B.CreateCall(fn(n, D, {D, D}), {bo->getOperand(0), bo->getOperand(1)}));
      return true;
    }
    if (auto *u = dyn_cast<UnaryOperator>(I)) {
      if (u->getOpcode() == Instruction::FNeg && isD(u)) {
        repl(I, B.CreateCall(fn("__ns_neg", D, {D}), {u->getOperand(0)})); return true;
      }
      return false;
    }
    if (auto *fc = dyn_cast<FCmpInst>(I)) {
      if (!isD(fc->getOperand(0))) { if (fc->getOperand(0)->getType()->isVectorTy()) unsupported["vector-fp"]++; return false; }
      auto *c = B.CreateCall(fn("__ns_fcmp", I32, {I32, D, D}),
                             {ConstantInt::get(I32, fc->getPredicate()), fc->getOperand(0), fc->getOperand(1)});
      repl(I, B.CreateICmpNE(c, ConstantInt::get(I32, 0)));
      return true;
    }
    if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
      if (!isD(I->getOperand(0)) || !I->getType()->isIntegerTy()) return false;
      Value *c = B.CreateCall(fn(isa<FPToSIInst>(I) ? "__ns_fptosi" : "__ns_fptoui", I64, {D}), {I->getOperand(0)});
      if (I->getType() != I64) c = B.CreateIntCast(c, I->getType(), true);
      repl(I, c); return true;
    }
    if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
      if (!isD(I->getOperand(0))) return false;
      I->setOperand(0, B.CreateCall(fn("__ns_concrete", D, {D}), {I->getOperand(0)})); return true;
    }
    if (auto *bc = dyn_cast<BitCastInst>(I)) {
      if (isD(bc->getOperand(0)) && bc->getType()->isIntegerTy()) {
        I->setOperand(0, B.CreateCall(fn("__ns_concrete", D, {D}), {I->getOperand(0)})); return true;
      }
      return false;
    }
    if (auto *ci = dyn_cast<CallBase>(I)) {
      Function *cf = ci->getCalledFunction();
      if (!cf) return false;
      StringRef n = cf->getName();
      if (auto *ii = dyn_cast<IntrinsicInst>(I)) {
        std::string nm; unsigned ar = 1;
        switch (ii->getIntrinsicID()) {
          case Intrinsic::fabs: nm = "fabs"; break; case Intrinsic::sqrt: nm = "sqrt"; break;
          case Intrinsic::floor: nm = "floor"; break; case Intrinsic::ceil: nm = "ceil"; break;
          case Intrinsic::trunc: nm = "trunc"; break; case Intrinsic::round: nm = "round"; break;
          case Intrinsic::rint: nm = "rint"; break; case Intrinsic::nearbyint: nm = "nearbyint"; break;
          case Intrinsic::exp: nm = "exp"; break; case Intrinsic::log: nm = "log"; break; case Intrinsic::exp2: nm = "exp2"; break;
          case Intrinsic::log2: nm = "log2"; break; case Intrinsic::log10: nm = "log10"; break;
          case Intrinsic::sin: nm = "sin"; break; case Intrinsic::cos: nm = "cos"; break;
          case Intrinsic::pow: nm = "pow"; ar = 2; break; case Intrinsic::minnum: nm = "fmin"; ar = 2; break;
          case Intrinsic::maxnum: nm = "fmax"; ar = 2; break; case Intrinsic::copysign: nm = "copysign"; ar = 2; break;
          case Intrinsic::fma: case Intrinsic::fmuladd:
            if (!isD(I)) return false;
            { auto *m = B.CreateCall(fn("__ns_mul", D, {D, D}), {ii->getArgOperand(0), ii->getArgOperand(1)});
              repl(I, B.CreateCall(fn("__ns_add", D, {D, D}), {m, ii->getArgOperand(2)})); return true; }
          case Intrinsic::powi:
            if (!isD(I)) return false;
            repl(I, B.CreateCall(fn("__ns_powi", D, {D, I32}), {ii->getArgOperand(0), ii->getArgOperand(1)})); return true;
          case Intrinsic::is_fpclass:
            if (!isD(ii->getArgOperand(0))) return false;
            repl(I, B.CreateICmpNE(B.CreateCall(fn("__ns_fpclass", I32, {D, I32}), {ii->getArgOperand(0), ii->getArgOperand(1)}),
                                   ConstantInt::get(I32, 0)));
            return true;
          case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset:
            if (mem) {
              if (auto *mt = dyn_cast<MemTransferInst>(ii))
                B.CreateCall(fn("__ns_load", VoidT, {PT, I64}), {mt->getRawSource(), B.CreateZExtOrTrunc(mt->getLength(), I64)});
              auto *mi = cast<MemIntrinsic>(ii);
              B.CreateCall(fn("__ns_store", VoidT, {PT, I64}), {mi->getRawDest(), B.CreateZExtOrTrunc(mi->getLength(), I64)});
              return true;
            }
            return false;
          default: return false;
        }
        if (!isD(I)) { if (I->getType()->isVectorTy()) unsupported["vector-fp"]++; return false; }
        std::vector<Value *> a; std::vector<Type *> t;
        for (unsigned k = 0; k < ar; ++k) { a.push_back(ii->getArgOperand(k)); t.push_back(D); }
        repl(I, B.CreateCall(fn("__ns_m_" + nm, D, t), a));
        return true;
      }
      std::string target;
      if (cf->isDeclaration()) {
        std::string m = mathName(n);
        if (!m.empty() && I->getType() == D) target = "__ns_m_" + m;
        else if (n == "malloc" || n == "free" || n == "realloc" || n == "calloc" || n == "posix_memalign" || n == "aligned_alloc")
          target = ("__ns_" + n).str();
        else if (n == "__cxa_atexit") target = "__ns_atexit";
      }
      if (n == "_Znwm" || n == "_Znam") target = "__ns_malloc";
      else if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") target = "__ns_malloc_nothrow";
      else if (n == "_ZdlPvRKSt9nothrow_t" || n == "_ZdaPvRKSt9nothrow_t") target = "__ns_free_nothrow";
      else if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") target = "__ns_memalign_sz";
      else if (n == "_ZdlPv" || n == "_ZdaPv") target = "__ns_free";
      else if (n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdaPvSt11align_val_t") target = "__ns_free2";
      else if (n == "_ZdlPvmSt11align_val_t" || n == "_ZdaPvmSt11align_val_t") target = "__ns_free3";
      else if (n == "_ZNSolsEd" || n == "_ZNSo9_M_insertIdEERSoT_") target = "__ns_print";
      else if (n == "_ZSt3minIdERKT_S2_S2_") target = "__ns_stdmin";
      else if (n == "_ZSt3maxIdERKT_S2_S2_") target = "__ns_stdmax";
      if (!target.empty()) {
        ci->setCalledFunction(M->getOrInsertFunction(target, ci->getFunctionType()));
        if (mem && (target == "__ns_stdmin" || target == "__ns_stdmax")) {
          B.CreateCall(fn("__ns_load", VoidT, {PT, I64}), {ci->getArgOperand(0), ConstantInt::get(I64, 8)});
          B.CreateCall(fn("__ns_load", VoidT, {PT, I64}), {ci->getArgOperand(1), ConstantInt::get(I64, 8)});
        }
        return true;
      }
      return false;
    }
    if (auto *rm = dyn_cast<AtomicRMWInst>(I)) if (isD(I) && (rm->getOperation() == AtomicRMWInst::FAdd || rm->getOperation() == AtomicRMWInst::FSub)) {
      auto *l = B.CreateLoad(D, rm->getPointerOperand()); l->setAtomic(AtomicOrdering::Monotonic); l->setAlignment(Align(8));
      auto *st = B.CreateStore(B.CreateCall(fn(rm->getOperation() == AtomicRMWInst::FAdd ? "__ns_add" : "__ns_sub", D, {D, D}), {l, rm->getValOperand()}), rm->getPointerOperand()); st->setAtomic(AtomicOrdering::Monotonic); st->setAlignment(Align(8));
      repl(I, l); return true;
    }
    if (mem) {
      const DataLayout &DL = M->getDataLayout();
      if (auto *l = dyn_cast<LoadInst>(I)) {
        if (l->isAtomic() || isa<AllocaInst>(l->getPointerOperand()->stripPointerCasts())) return false;
        B.CreateCall(fn("__ns_load", VoidT, {PT, I64}), {l->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(l->getType()))});
        return true;
      }
      if (auto *s = dyn_cast<StoreInst>(I)) {
        if (auto *g = dyn_cast<GlobalVariable>(s->getPointerOperand()->stripInBoundsOffsets())) if (g->getName().starts_with("__ns_")) return false;
        if (s->isAtomic() || isa<AllocaInst>(s->getPointerOperand()->stripPointerCasts())) return false;
        B.CreateCall(fn("__ns_store", VoidT, {PT, I64}),
                     {s->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(s->getValueOperand()->getType()))});
        return true;
      }
    }
    if (auto *se = dyn_cast<SelectInst>(I)) if (se->getType()->isVectorTy()) unsupported["vector-select"]++;
    if (isa<CastInst>(I) && I->getType()->isVectorTy() && I->getType()->isFPOrFPVectorTy()) unsupported["vector-cast"]++;
    return false;
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod; C = &Mod.getContext(); D = Type::getDoubleTy(*C); I32 = Type::getInt32Ty(*C); I64 = Type::getInt64Ty(*C);
    VoidT = Type::getVoidTy(*C); PT = PointerType::getUnqual(*C);
    mem = getenv("NS_MEM") != nullptr;
    std::string repo = getenv("NS_REPO") ? getenv("NS_REPO") : "/repo/";
    // writable globals
    std::vector<GlobalVariable *> gv;
    for (auto &g : Mod.globals())
      if (!g.isConstant() && !g.isDeclaration() && !g.getName().starts_with("llvm.") && !g.getName().starts_with("__ns_") &&
          !g.hasAppendingLinkage())
        gv.push_back(&g);
    std::vector<Function *> fs;
    for (auto &F : Mod) if (!F.isDeclaration()) fs.push_back(&F);
    // coverage of repository functions
    std::vector<std::string> names; std::vector<Function *> cov;
    for (auto *F : fs) {
      auto *sp = F->getSubprogram(); if (!sp || !sp->getFile()) continue;
      std::string f = (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str();
      if (sp->getFile()->getFilename().starts_with("/")) f = sp->getFile()->getFilename().str();
      if (f.find(repo) == std::string::npos) continue;
      std::string base = f.substr(f.rfind('/') + 1);
      names.push_back(base + ":" + sp->getName().str() + ":" + std::to_string(sp->getLine())); cov.push_back(F);
    }
    if (!cov.empty()) {
      auto *AT = ArrayType::get(Type::getInt8Ty(*C), cov.size());
      auto *arr = new GlobalVariable(Mod, AT, false, GlobalValue::InternalLinkage, ConstantAggregateZero::get(AT), "__ns_covarr");
      std::string all; for (auto &n : names) { all += n; all.push_back('\n'); }
      auto *str = ConstantDataArray::getString(*C, all);
      auto *sg = new GlobalVariable(Mod, str->getType(), true, GlobalValue::InternalLinkage, str, "__ns_covnames");
      for (size_t k = 0; k < cov.size(); ++k) {
        IRBuilder<> B(&*cov[k]->getEntryBlock().getFirstInsertionPt());
        auto *p = B.CreateConstInBoundsGEP2_64(AT, arr, 0, k);
        B.CreateStore(ConstantInt::get(Type::getInt8Ty(*C), 1), p)->setVolatile(false);
      }
      auto *ft = FunctionType::get(VoidT, false);
      auto *rf = Function::Create(ft, GlobalValue::InternalLinkage, "__ns_covreg_fn", Mod);
      IRBuilder<> B(BasicBlock::Create(*C, "e", rf));
      B.CreateCall(fn("__ns_covreg", VoidT, {PT, PT, I64}), {arr, sg, ConstantInt::get(I64, cov.size())});
      B.CreateRetVoid();
      appendToGlobalCtors(Mod, rf, 101);
    }
    for (auto *F : fs) runOnFunction(*F);
    // register writable globals
    {
      auto *ft = FunctionType::get(VoidT, false);
      auto *rf = Function::Create(ft, GlobalValue::InternalLinkage, "__ns_globreg_fn", Mod);
      IRBuilder<> B(BasicBlock::Create(*C, "e", rf));
      auto reg = fn("__ns_globreg", VoidT, {PT, I64, PT});
      for (auto *g : gv) {
        Value *p = g;
        if (g->isThreadLocal()) p = B.CreateThreadLocalAddress(g);
        B.CreateCall(reg, {p, ConstantInt::get(I64, Mod.getDataLayout().getTypeAllocSize(g->getValueType())),
                           B.CreateGlobalStringPtr(g->getName())});
      }
      B.CreateRetVoid();
      appendToGlobalCtors(Mod, rf, 102);
    }
    for (auto &u : unsupported) errs() << "NSPASS-UNSUPPORTED " << u.first << " " << u.second << "\n";
    return PreservedAnalyses::none();
  }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "nspass", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(NS()); });
          }};
}
