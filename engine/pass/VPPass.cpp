// VP: symbolic-shadow instrumentation for LLVM IR (LLVM 18 new-PM plugin).
//
// Every floating point SSA value (and every integer SSA value that can come
// from memory, an argument or a call) gets a companion i32 "shadow": the id of
// an expression node held by the runtime (0 = concrete).  Comparisons,
// float->int conversions and symbolic indices are reported to the runtime as
// path constraints.  The native computation is left untouched.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include <map>
#include <set>
#include <string>
#include <cstdlib>

using namespace llvm;

namespace {

// must match vp_rt.cpp
enum Op {
  OP_ADD = 1, OP_SUB, OP_MUL, OP_DIV, OP_REM, OP_NEG, OP_CAST,
};

static const std::map<std::string, int> LIBFN = {
    {"sqrt", 1}, {"sin", 2}, {"cos", 3}, {"tan", 4}, {"asin", 5}, {"acos", 6},
    {"atan", 7}, {"sinh", 8}, {"cosh", 9}, {"tanh", 10}, {"exp", 11},
    {"log", 12}, {"log10", 13}, {"fabs", 14}, {"floor", 15}, {"ceil", 16},
    {"round", 17}, {"trunc", 18}, {"rint", 19}, {"nearbyint", 19},
    {"asinh", 20}, {"acosh", 21}, {"atanh", 22}, {"log2", 23}, {"exp2", 24},
    {"log1p", 25}, {"expm1", 26}, {"cbrt", 27},
    {"pow", 40}, {"atan2", 41}, {"fmod", 42}, {"hypot", 43}, {"fmin", 44},
    {"fmax", 45}, {"copysign", 46}, {"cabs", 43}, {"powi", 47},
    {"ldexp", 48},
    {"fma", 60}, {"fmuladd", 60},
};

struct VP : public PassInfoMixin<VP> {
  static bool isRequired() { return true; }

  Module *M;
  LLVMContext *C;
  const DataLayout *DL;
  Type *I32, *I64, *F64, *I1, *I8, *VoidT;
  PointerType *PtrT;
  FunctionCallee fFBin, fFNeg, fFCmp, fICmp, fIBin, fICast, fCast, fF2I, fConc,
      fLoad, fStore, fMemcpy, fMemset, fFn, fEnter, fExtRet, fExtRet80, fI2F,
      fLost;
  GlobalVariable *gArgs, *gRet, *gCallee;
  unsigned unsupported = 0;
  std::map<std::string, Constant *> strs;

  Constant *str(const std::string &s) {
    auto it = strs.find(s);
    if (it != strs.end()) return it->second;
    IRBuilder<> B(*C);
    Constant *d = ConstantDataArray::getString(*C, s, true);
    auto *g = new GlobalVariable(*M, d->getType(), true,
                                 GlobalValue::PrivateLinkage, d, ".vpstr");
    strs[s] = g;
    return g;
  }

  bool fp(Type *T) {
    return T->isDoubleTy() || T->isFloatTy() || T->isX86_FP80Ty();
  }
  bool in(Type *T) {
    if (!T->isIntegerTy()) return false;
    unsigned w = T->getIntegerBitWidth();
    return w == 8 || w == 16 || w == 32 || w == 64;
  }
  bool scalar(Type *T) { return fp(T) || in(T); }
  // number of shadow leaves of a type (0 = not shadowed)
  unsigned leaves(Type *T) {
    if (scalar(T)) return 1;
    if (auto *S = dyn_cast<StructType>(T)) {
      if (S->getNumElements() == 0 || S->getNumElements() > 8) return 0;
      bool any = false;
      for (auto *E : S->elements()) {
        if (scalar(E)) any = true;
      }
      return any ? S->getNumElements() : 0;
    }
    return 0;
  }

  void decl() {
    auto fn = [&](const char *n, Type *R, std::vector<Type *> A) {
      auto fc = M->getOrInsertFunction(n, FunctionType::get(R, A, false));
      if (auto *F = dyn_cast<Function>(fc.getCallee())) {
        F->addFnAttr(Attribute::NoUnwind);
      }
      return fc;
    };
    fFBin = fn("__vp_fbin", I32, {I32, I32, I32, F64, F64, F64});
    fFNeg = fn("__vp_fneg", I32, {I32, F64});
    fCast = fn("__vp_cast", I32, {I32, F64});
    fFCmp = fn("__vp_fcmp", VoidT, {I32, I32, I32, F64, F64, I32, PtrT});
    fICmp = fn("__vp_icmp", VoidT, {I32, I32, I32, I32, I64, I64, I32, PtrT});
    fIBin = fn("__vp_ibin", I32, {I32, I32, I32, I32, I64, I64, I64});
    fICast = fn("__vp_icast", I32, {I32, I32, I32, I32, I64});
    fF2I = fn("__vp_f2i", VoidT, {I32, F64, I64, PtrT});
    fI2F = fn("__vp_i2f", VoidT, {I32, I64, I32, PtrT});
    fConc = fn("__vp_conc", VoidT, {I32, I64, I32, PtrT});
    fLoad = fn("__vp_load", I32, {PtrT, I32, I64});
    fStore = fn("__vp_store", VoidT, {PtrT, I32, I32});
    fMemcpy = fn("__vp_memcpy", VoidT, {PtrT, PtrT, I64});
    fMemset = fn("__vp_memset", VoidT, {PtrT, I64});
    fFn = fn("__vp_fn", I32, {I32, I32, I32, I32, F64, F64, F64, F64, PtrT});
    fEnter = fn("__vp_enter", VoidT, {PtrT, PtrT});
    fExtRet = fn("__vp_extret", I32, {I32, F64});
    fLost = fn("__vp_lost", VoidT, {I32, PtrT});
    auto gv = [&](const char *n, Type *T) {
      auto *g = M->getGlobalVariable(n);
      if (!g)
        g = new GlobalVariable(*M, T, false, GlobalValue::ExternalLinkage,
                               nullptr, n);
      return g;
    };
    gArgs = gv("__vp_args", ArrayType::get(I32, 64));
    gRet = gv("__vp_ret", ArrayType::get(I32, 8));
    gCallee = gv("__vp_callee", PtrT);
  }

  // ------------------------------------------------------------------
  Function *F;
  std::map<std::pair<Value *, unsigned>, Value *> sh;
  std::set<Value *> taint;  // statically possibly shadowed
  std::string siteStr(Instruction *I) {
    std::string s;
    if (auto &dl = I->getDebugLoc()) {
      if (auto *sc = dl->getScope()) {
        std::string fnm = cast<DIScope>(sc)->getFilename().str();
        auto p = fnm.rfind('/');
        if (p != std::string::npos) fnm = fnm.substr(p + 1);
        s = fnm + ":" + std::to_string(dl.getLine());
        return s;
      }
    }
    return F->getName().str();
  }

  Value *z32() { return ConstantInt::get(I32, 0); }

  Value *S(Value *V, unsigned leaf = 0) {
    if (isa<Constant>(V)) return z32();
    auto it = sh.find({V, leaf});
    if (it == sh.end()) return z32();
    return it->second;
  }
  bool zero(Value *s) {
    auto *c = dyn_cast<ConstantInt>(s);
    return c && c->isZero();
  }
  Value *toF64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isDoubleTy()) return V;
    if (T->isFloatTy()) return B.CreateFPExt(V, F64);
    if (T->isX86_FP80Ty()) return B.CreateFPTrunc(V, F64);
    return ConstantFP::get(F64, 0.0);
  }
  Value *toI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateFPExt(V, F64), I64);
    if (T->isX86_FP80Ty())
      return B.CreateBitCast(B.CreateFPTrunc(V, F64), I64);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(V, I64);
    return ConstantInt::get(I64, 0);
  }
  // size code for load/store: bytes, +100 for float/fp80 carriers
  int szcode(Type *T) {
    if (T->isDoubleTy()) return 8;
    if (T->isFloatTy()) return 104;
    if (T->isX86_FP80Ty()) return 110;
    return (int)DL->getTypeStoreSize(T).getFixedValue();
  }
  Value *i32(int v) { return ConstantInt::get(I32, v, true); }

  bool staticTaintSource(Instruction &I) {
    if (isa<LoadInst>(I)) return leaves(I.getType()) > 0;
    if (isa<CallBase>(I)) return leaves(I.getType()) > 0;
    return false;
  }

  void computeTaint() {
    taint.clear();
    for (auto &A : F->args())
      if (leaves(A.getType())) taint.insert(&A);
    bool ch = true;
    for (auto &I : instructions(F))
      if (staticTaintSource(I)) taint.insert(&I);
    while (ch) {
      ch = false;
      for (auto &I : instructions(F)) {
        if (taint.count(&I) || !leaves(I.getType())) continue;
        bool t = false;
        if (isa<BinaryOperator>(I) || isa<PHINode>(I) || isa<CastInst>(I) ||
            isa<UnaryOperator>(I) || isa<ExtractValueInst>(I) ||
            isa<InsertValueInst>(I) || isa<FreezeInst>(I)) {
          for (auto &U : I.operands())
            if (taint.count(U.get())) t = true;
        } else if (isa<SelectInst>(I)) {
          if (taint.count(I.getOperand(1)) || taint.count(I.getOperand(2)))
            t = true;
        }
        if (t) {
          taint.insert(&I);
          ch = true;
        }
      }
    }
  }

  void handleCallRet(CallBase *CB, IRBuilder<> &B) {
    // B is positioned after the call
    unsigned n = leaves(CB->getType());
    if (!n) return;
    if (n == 1) {
      Value *s = B.CreateLoad(I32, gRet);
      Type *T = CB->getType();
      if (fp(T)) {
        s = B.CreateCall(fExtRet, {s, toF64(B, CB)});
      } else {
        s = B.CreateCall(
            M->getOrInsertFunction("__vp_extreti",
                                   FunctionType::get(I32, {I32, I64}, false)),
            {s, toI64(B, CB)});
      }
      sh[{CB, 0}] = s;
    } else {
      auto *ST = cast<StructType>(CB->getType());
      for (unsigned i = 0; i < n; i++) {
        Type *T = ST->getElementType(i);
        if (!scalar(T)) continue;
        Value *s = B.CreateLoad(
            I32, B.CreateConstInBoundsGEP2_32(gRet->getValueType(), gRet, 0, i));
        Value *e = B.CreateExtractValue(CB, i);
        if (fp(T)) s = B.CreateCall(fExtRet, {s, toF64(B, e)});
        else
          s = B.CreateCall(
              M->getOrInsertFunction("__vp_extreti",
                                     FunctionType::get(I32, {I32, I64}, false)),
              {s, toI64(B, e)});
        sh[{CB, i}] = s;
      }
    }
  }

  int libfn(CallBase *CB, Function *Callee) {
    if (!Callee) return 0;
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::sqrt: return 1;
      case Intrinsic::sin: return 2;
      case Intrinsic::cos: return 3;
      case Intrinsic::exp: return 11;
      case Intrinsic::log: return 12;
      case Intrinsic::log10: return 13;
      case Intrinsic::fabs: return 14;
      case Intrinsic::floor: return 15;
      case Intrinsic::ceil: return 16;
      case Intrinsic::round: return 17;
      case Intrinsic::trunc: return 18;
      case Intrinsic::rint: case Intrinsic::nearbyint: return 19;
      case Intrinsic::pow: return 40;
      case Intrinsic::minnum: case Intrinsic::minimum: return 44;
      case Intrinsic::maxnum: case Intrinsic::maximum: return 45;
      case Intrinsic::copysign: return 46;
      case Intrinsic::powi: return 47;
      case Intrinsic::fma: case Intrinsic::fmuladd: return 60;
      default: return 0;
      }
    }
    if (!Callee->isDeclaration()) return 0;
    std::string n = Callee->getName().str();
    auto it = LIBFN.find(n);
    if (it == LIBFN.end()) {
      if (!n.empty() && (n.back() == 'f' || n.back() == 'l')) {
        std::string m = n.substr(0, n.size() - 1);
        auto jt = LIBFN.find(m);
        if (jt != LIBFN.end() && (m != "cei" )) {
          if (fp(CB->getType())) return jt->second;
        }
      }
      return 0;
    }
    if (!fp(CB->getType())) return 0;
    return it->second;
  }

  void visitCall(CallBase *CB) {
    if (CB->isInlineAsm()) return;
    Function *Callee = CB->getCalledFunction();
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      if (auto *MC = dyn_cast<MemTransferInst>(II)) {
        IRBuilder<> B(II);
        Value *n = B.CreateZExtOrTrunc(MC->getLength(), I64);
        B.CreateCall(fMemcpy, {MC->getDest(), MC->getSource(), n});
        return;
      }
      if (auto *MS = dyn_cast<MemSetInst>(II)) {
        IRBuilder<> B(II);
        Value *n = B.CreateZExtOrTrunc(MS->getLength(), I64);
        B.CreateCall(fMemset, {MS->getDest(), n});
        return;
      }
    }
    int fid = libfn(CB, Callee);
    if (fid) {
      Instruction *after = nullptr;
      if (auto *IV = dyn_cast<InvokeInst>(CB))
        after = &*IV->getNormalDest()->getFirstInsertionPt();
      else
        after = CB->getNextNode();
      IRBuilder<> B(after);
      Value *s[3] = {z32(), z32(), z32()};
      Value *a[3] = {ConstantFP::get(F64, 0), ConstantFP::get(F64, 0),
                     ConstantFP::get(F64, 0)};
      unsigned k = 0;
      for (auto &U : CB->args()) {
        if (k >= 3) break;
        if (fp(U->getType())) {
          s[k] = S(U);
          a[k] = toF64(B, U);
        } else if (U->getType()->isIntegerTy()) {
          a[k] = B.CreateSIToFP(U, F64);
        }
        k++;
      }
      if (zero(s[0]) && zero(s[1]) && zero(s[2])) return;
      sh[{CB, 0}] =
          B.CreateCall(fFn, {i32(fid), s[0], s[1], s[2], a[0], a[1], a[2],
                             toF64(B, CB), str(siteStr(CB))});
      return;
    }
    if (Callee && Callee->isIntrinsic()) {
      // vector / FP intrinsics we do not model lose the shadow: report
      if (leaves(CB->getType()) && fp(CB->getType())) {
        IRBuilder<> B(CB);
        for (auto &U : CB->args())
          if (!zero(S(U)))
            B.CreateCall(fLost, {S(U), str(siteStr(CB))});
      }
      return;
    }
    if (Callee && Callee->getName().starts_with("__vp_")) return;
    if (Callee && (Callee->getName() == "memcpy" ||
                   Callee->getName() == "memmove")) {
      IRBuilder<> B(CB);
      B.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1),
                             B.CreateZExtOrTrunc(CB->getArgOperand(2), I64)});
    }
    // generic protocol
    bool must = isa<CallInst>(CB) && cast<CallInst>(CB)->isMustTailCall();
    {
      IRBuilder<> B(CB);
      unsigned i = 0;
      bool any = false;
      for (auto &U : CB->args()) {
        if (i < 64 && scalar(U->getType())) {
          B.CreateStore(S(U), B.CreateConstInBoundsGEP2_32(
                                  gArgs->getValueType(), gArgs, 0, i));
          any = true;
        }
        i++;
      }
      (void)any;
      B.CreateStore(CB->getCalledOperand(), gCallee);
      unsigned n = leaves(CB->getType());
      for (unsigned k = 0; k < n; k++)
        B.CreateStore(z32(), B.CreateConstInBoundsGEP2_32(
                                 gRet->getValueType(), gRet, 0, k));
    }
    if (must) return;
    if (leaves(CB->getType())) {
      Instruction *after = nullptr;
      if (auto *IV = dyn_cast<InvokeInst>(CB))
        after = &*IV->getNormalDest()->getFirstInsertionPt();
      else
        after = CB->getNextNode();
      IRBuilder<> B(after);
      handleCallRet(CB, B);
    }
    CB->removeFnAttr(Attribute::Memory);
  }

  void visit(Instruction *I) {
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      Value *sa = S(a), *sb = S(b);
      if (zero(sa) && zero(sb)) return;
      if (fp(BO->getType())) {
        int op = 0;
        switch (BO->getOpcode()) {
        case Instruction::FAdd: op = OP_ADD; break;
        case Instruction::FSub: op = OP_SUB; break;
        case Instruction::FMul: op = OP_MUL; break;
        case Instruction::FDiv: op = OP_DIV; break;
        case Instruction::FRem: op = OP_REM; break;
        default: return;
        }
        IRBuilder<> B(I->getNextNode());
        sh[{I, 0}] = B.CreateCall(
            fFBin, {i32(op), sa, sb, toF64(B, a), toF64(B, b), toF64(B, I)});
      } else if (in(BO->getType())) {
        IRBuilder<> B(I->getNextNode());
        sh[{I, 0}] = B.CreateCall(
            fIBin, {i32(BO->getOpcode()),
                    i32(BO->getType()->getIntegerBitWidth()), sa, sb,
                    toI64(B, a), toI64(B, b), toI64(B, I)});
      }
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) {
      if (U->getOpcode() == Instruction::FNeg && fp(U->getType())) {
        Value *s = S(U->getOperand(0));
        if (zero(s)) return;
        IRBuilder<> B(I->getNextNode());
        sh[{I, 0}] = B.CreateCall(fFNeg, {s, toF64(B, I)});
      }
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(I)) {
      if (!fp(FC->getOperand(0)->getType())) return;
      Value *sa = S(FC->getOperand(0)), *sb = S(FC->getOperand(1));
      if (zero(sa) && zero(sb)) return;
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(fFCmp,
                   {i32(FC->getPredicate()), sa, sb, toF64(B, FC->getOperand(0)),
                    toF64(B, FC->getOperand(1)), B.CreateZExt(I, I32),
                    str(siteStr(I))});
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      if (!in(IC->getOperand(0)->getType())) return;
      Value *sa = S(IC->getOperand(0)), *sb = S(IC->getOperand(1));
      if (zero(sa) && zero(sb)) return;
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(
          fICmp,
          {i32(IC->getPredicate()),
           i32(IC->getOperand(0)->getType()->getIntegerBitWidth()), sa, sb,
           toI64(B, IC->getOperand(0)), toI64(B, IC->getOperand(1)),
           B.CreateZExt(I, I32), str(siteStr(I))});
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *a = CI->getOperand(0);
      Value *s = S(a);
      if (zero(s)) return;
      Type *D = CI->getType();
      if (fp(a->getType()) && fp(D)) {
        IRBuilder<> B(I->getNextNode());
        sh[{I, 0}] = B.CreateCall(fCast, {s, toF64(B, I)});
      } else if (fp(a->getType()) && (isa<FPToSIInst>(CI) || isa<FPToUIInst>(CI))) {
        IRBuilder<> B(I->getNextNode());
        Value *r = isa<FPToSIInst>(CI) ? B.CreateSExtOrTrunc(I, I64)
                                       : B.CreateZExtOrTrunc(I, I64);
        B.CreateCall(fF2I, {s, toF64(B, a), r, str(siteStr(I))});
      } else if (in(a->getType()) && fp(D)) {
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(fConc, {s, toI64(B, a),
                             i32(a->getType()->getIntegerBitWidth()),
                             str(siteStr(I))});
      } else if (isa<BitCastInst>(CI)) {
        if (leaves(D)) sh[{I, 0}] = s;
      } else if (in(a->getType()) && in(D)) {
        IRBuilder<> B(I->getNextNode());
        sh[{I, 0}] = B.CreateCall(
            fICast, {i32(CI->getOpcode()),
                     i32(a->getType()->getIntegerBitWidth()),
                     i32(D->getIntegerBitWidth()), s, toI64(B, I)});
      } else if (in(a->getType())) {
        // to i1, pointers, odd widths: concretise
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(fConc, {s, toI64(B, a),
                             i32(a->getType()->getIntegerBitWidth()),
                             str(siteStr(I))});
      }
      return;
    }
    if (isa<FreezeInst>(I)) {
      for (unsigned k = 0; k < leaves(I->getType()); k++)
        sh[{I, k}] = S(I->getOperand(0), k);
      return;
    }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
      unsigned n = leaves(SI->getType());
      if (!n || !SI->getCondition()->getType()->isIntegerTy()) return;
      IRBuilder<> B(I->getNextNode());
      for (unsigned k = 0; k < n; k++) {
        Value *a = S(SI->getTrueValue(), k), *b = S(SI->getFalseValue(), k);
        if (zero(a) && zero(b)) continue;
        sh[{I, k}] = B.CreateSelect(SI->getCondition(), a, b);
      }
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      if (EV->getNumIndices() != 1) return;
      if (!leaves(EV->getAggregateOperand()->getType())) return;
      if (!scalar(EV->getType())) return;
      Value *s = S(EV->getAggregateOperand(), EV->getIndices()[0]);
      if (!zero(s)) sh[{I, 0}] = s;
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      unsigned n = leaves(IV->getType());
      if (!n || IV->getNumIndices() != 1) return;
      for (unsigned k = 0; k < n; k++) {
        Value *s = k == IV->getIndices()[0]
                       ? S(IV->getInsertedValueOperand(), 0)
                       : S(IV->getAggregateOperand(), k);
        if (!zero(s)) sh[{I, k}] = s;
      }
      return;
    }
    if (auto *LI = dyn_cast<LoadInst>(I)) {
      Type *T = LI->getType();
      if (scalar(T)) {
        IRBuilder<> B(I->getNextNode());
        sh[{I, 0}] = B.CreateCall(
            fLoad, {LI->getPointerOperand(), i32(szcode(T)), toI64(B, I)});
      } else if (auto *ST = dyn_cast<StructType>(T)) {
        unsigned n = leaves(T);
        if (!n) return;
        IRBuilder<> B(I->getNextNode());
        const StructLayout *SL = DL->getStructLayout(ST);
        for (unsigned k = 0; k < n; k++) {
          Type *E = ST->getElementType(k);
          if (!scalar(E)) continue;
          Value *p = B.CreateConstInBoundsGEP1_64(I8, LI->getPointerOperand(),
                                                  SL->getElementOffset(k));
          Value *e = B.CreateExtractValue(I, k);
          sh[{I, k}] = B.CreateCall(fLoad, {p, i32(szcode(E)), toI64(B, e)});
        }
      }
      return;
    }
    if (auto *SI = dyn_cast<StoreInst>(I)) {
      Value *V = SI->getValueOperand();
      Type *T = V->getType();
      IRBuilder<> B(I->getNextNode());
      if (scalar(T)) {
        B.CreateCall(fStore, {SI->getPointerOperand(), i32(szcode(T)), S(V)});
      } else if (auto *ST = dyn_cast<StructType>(T); ST && leaves(T)) {
        const StructLayout *SL = DL->getStructLayout(ST);
        for (unsigned k = 0; k < leaves(T); k++) {
          Type *E = ST->getElementType(k);
          Value *p = B.CreateConstInBoundsGEP1_64(I8, SI->getPointerOperand(),
                                                  SL->getElementOffset(k));
          int sz = scalar(E) ? szcode(E)
                             : (int)DL->getTypeStoreSize(E).getFixedValue();
          B.CreateCall(fStore, {p, i32(sz), scalar(E) ? S(V, k) : z32()});
        }
      } else {
        auto sz = DL->getTypeStoreSize(T).getFixedValue();
        B.CreateCall(fMemset,
                     {SI->getPointerOperand(), ConstantInt::get(I64, sz)});
        if (T->isVectorTy() && T->getScalarType()->isFloatingPointTy())
          unsupported++;
      }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      IRBuilder<> B(I);
      for (auto &U : G->indices()) {
        if (!in(U->getType())) continue;
        Value *s = S(U);
        if (zero(s)) continue;
        B.CreateCall(fConc, {s, toI64(B, U),
                             i32(U->getType()->getIntegerBitWidth()),
                             str(siteStr(I))});
      }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      visitCall(CB);
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      if (!R->getReturnValue()) return;
      // do not clobber the shadow set by a musttail callee
      if (auto *P = dyn_cast_or_null<CallInst>(R->getPrevNode()))
        if (P->isMustTailCall()) return;
      unsigned n = leaves(R->getReturnValue()->getType());
      IRBuilder<> B(I);
      for (unsigned k = 0; k < n; k++)
        B.CreateStore(S(R->getReturnValue(), k),
                      B.CreateConstInBoundsGEP2_32(gRet->getValueType(), gRet,
                                                   0, k));
      return;
    }
  }

  // the two functions that turn a number into its 64 bit pattern and back:
  // their bodies are decided bit by bit elsewhere (C15, codec); here the
  // symbolic identity of the number travels with the pattern
  static int codec(const Function &Fn) {
    if (Fn.getName() == "_ZN7moordyn2io2IO9SerializeERKd") return 1;
    if (Fn.getName() == "_ZN7moordyn2io2IO11DeserializeEPKmRd") return 2;
    return 0;
  }

  void runOn(Function &Fn) {
    F = &Fn;
    sh.clear();
    // unique normal destinations for invokes
    SmallVector<InvokeInst *, 16> invs;
    for (auto &I : instructions(F))
      if (auto *IV = dyn_cast<InvokeInst>(&I)) invs.push_back(IV);
    for (auto *IV : invs) {
      if (!IV->getNormalDest()->getSinglePredecessor())
        SplitEdge(IV->getParent(), IV->getNormalDest());
    }
    computeTaint();

    SmallVector<Instruction *, 256> work;
    ReversePostOrderTraversal<Function *> RPO(F);
    for (auto *BB : RPO)
      for (auto &I : *BB) work.push_back(&I);

    // phis first (placeholders)
    SmallVector<PHINode *, 32> phis;
    for (auto *I : work)
      if (auto *P = dyn_cast<PHINode>(I)) {
        if (!taint.count(P)) continue;
        unsigned n = leaves(P->getType());
        for (unsigned k = 0; k < n; k++) {
          IRBuilder<> B(P);
          sh[{P, k}] = B.CreatePHI(I32, P->getNumIncomingValues());
        }
        phis.push_back(P);
      }
    // entry
    {
      BasicBlock::iterator ip = F->getEntryBlock().getFirstInsertionPt();
      IRBuilder<> B(&*ip);
      bool any = false;
      unsigned i = 0;
      for (auto &A : F->args()) {
        if (scalar(A.getType()) && i < 64) any = true;
        i++;
      }
      if (any) {
        Value *cal = B.CreateLoad(PtrT, gCallee);
        Value *ok = B.CreateICmpEQ(cal, F);
        i = 0;
        for (auto &A : F->args()) {
          if (scalar(A.getType()) && i < 64) {
            Value *s = B.CreateLoad(
                I32,
                B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, i));
            sh[{&A, 0}] = B.CreateSelect(ok, s, z32());
          }
          i++;
        }
      }
      B.CreateStore(ConstantPointerNull::get(PtrT), gCallee);
      auto *slot = new GlobalVariable(*M, I8, false, GlobalValue::PrivateLinkage,
                                      ConstantInt::get(I8, 0), ".vpslot");
      std::string where;
      if (auto *SP = F->getSubprogram()) {
        where = SP->getFilename().str();
      }
      B.CreateCall(fEnter, {slot, str(demangle(F->getName().str()) + "\t" + where)});
    }
    for (auto *I : work)
      if (!isa<PHINode>(I)) visit(I);
    for (auto *P : phis) {
      unsigned n = leaves(P->getType());
      for (unsigned k = 0; k < n; k++) {
        auto *SP = cast<PHINode>(sh[{P, k}]);
        for (unsigned j = 0; j < P->getNumIncomingValues(); j++)
          SP->addIncoming(S(P->getIncomingValue(j), k), P->getIncomingBlock(j));
      }
    }
    if (int k = codec(Fn)) {
      {
        IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
        B.CreateCall(M->getOrInsertFunction("__vp_codec_in", FunctionType::get(VoidT, {}, false)));
      }
      for (auto &BB : *F)
        if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) {
          IRBuilder<> B(R);
          if (k == 1)
            B.CreateCall(M->getOrInsertFunction("__vp_codec_ser", FunctionType::get(VoidT, {PtrT, I64}, false)),
                         {F->getArg(1), R->getReturnValue()});
          else
            B.CreateCall(M->getOrInsertFunction("__vp_codec_des", FunctionType::get(VoidT, {PtrT, PtrT}, false)),
                         {F->getArg(1), F->getArg(2)});
        }
    }
    F->removeFnAttr(Attribute::Memory);
    F->removeFnAttr(Attribute::NoSync);
    F->removeFnAttr(Attribute::Speculatable);
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &AM) {
    M = &Mod;
    C = &Mod.getContext();
    DL = &Mod.getDataLayout();
    I1 = Type::getInt1Ty(*C);
    I8 = Type::getInt8Ty(*C);
    I32 = Type::getInt32Ty(*C);
    I64 = Type::getInt64Ty(*C);
    F64 = Type::getDoubleTy(*C);
    VoidT = Type::getVoidTy(*C);
    PtrT = PointerType::getUnqual(*C);
    decl();
    std::vector<Function *> fs;
    for (auto &Fn : Mod)
      if (!Fn.isDeclaration() && !Fn.getName().starts_with("__vp_") &&
          !Fn.hasFnAttribute(Attribute::Naked))
        fs.push_back(&Fn);
    auto &FAM =
        AM.getResult<FunctionAnalysisManagerModuleProxy>(Mod).getManager();
    for (auto *Fn : fs) {
      LowerSwitchPass LS;
      LS.run(*Fn, FAM);
      FAM.invalidate(*Fn, PreservedAnalyses::none());
      runOn(*Fn);
    }
    if (unsupported && getenv("VP_VERBOSE"))
      errs() << "vp: " << unsupported << " vector FP stores in "
             << Mod.getName() << "\n";
    return PreservedAnalyses::none();
  }
};

struct VPStart : public PassInfoMixin<VPStart> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    for (auto &Fn : Mod)
      if (VP::codec(Fn) && !Fn.isDeclaration() && !Fn.hasFnAttribute(Attribute::AlwaysInline))
        Fn.addFnAttr(Attribute::NoInline);
    return PreservedAnalyses::all();
  }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo
llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "VP", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) {
                  MPM.addPass(VPStart());
                });
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) {
                  MPM.addPass(
                      createModuleToFunctionPassAdaptor(ScalarizerPass()));
                  MPM.addPass(VP());
                });
          }};
}
