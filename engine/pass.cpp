// tsym instrumentation pass (LLVM 18, new pass manager plugin).
//
// Rewrites every function of a module so that it carries, next to each scalar
// SSA value, a shadow pointer to a symbolic expression (null = concrete) and
// calls the tsym runtime (runtime.cpp) for every operation on a value whose
// shadow is not null.  The encoding is therefore derived from the code that is
// compiled, on every run.
#include "llvm/IR/AttributeMask.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

namespace {

static const uint64_t SHADOW_XOR = 0x500000000000ULL;

struct Tsym {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I8, *I32, *I64, *Ptr, *VoidT, *Dbl;
  Constant *Null;
  GlobalVariable *ArgG, *RetG;
  std::map<std::string, FunctionCallee> RT;

  // per function
  Function *F = nullptr;
  std::map<Value *, std::vector<Value *>> Sh; // leaves
  std::vector<std::pair<PHINode *, std::vector<PHINode *>>> Phis;
  Constant *FnName = nullptr;

  Tsym(Module &M)
      : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    Ptr = PointerType::getUnqual(C); VoidT = Type::getVoidTy(C); Dbl = Type::getDoubleTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(Ptr));
    auto *ArrT = ArrayType::get(Ptr, 64);
    ArgG = cast<GlobalVariable>(M.getOrInsertGlobal("__ts_arg", ArrT));
    RetG = cast<GlobalVariable>(M.getOrInsertGlobal("__ts_ret", ArrT));
  }

  FunctionCallee rt(const char *n, Type *R, std::vector<Type *> A) {
    auto it = RT.find(n);
    if (it != RT.end()) return it->second;
    FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(R, A, false));
    RT[n] = f;
    return f;
  }

  static bool scalarTracked(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth() <= 64;
    return T->isDoubleTy() || T->isFloatTy();
  }
  // pointers are always concrete.
  void leafTypes(Type *T, std::vector<Type *> &out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (auto *E : S->elements()) leafTypes(E, out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      for (uint64_t i = 0; i < A->getNumElements(); i++) leafTypes(A->getElementType(), out);
    } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
      for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back(V->getElementType());
    } else {
      out.push_back(T);
    }
  }
  unsigned nLeaves(Type *T) { std::vector<Type *> v; leafTypes(T, v); return v.size(); }

  unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) off += nLeaves(S->getElementType(k));
        T = S->getElementType(i);
      } else if (auto *A = dyn_cast<ArrayType>(T)) {
        off += i * nLeaves(A->getElementType());
        T = A->getElementType();
      }
    }
    return off;
  }

  // Shadow leaves of a value
  std::vector<Value *> shv(Value *V) {
    auto it = Sh.find(V);
    if (it != Sh.end()) return it->second;
    return std::vector<Value *>(nLeaves(V->getType()), Null);
  }
  Value *sh(Value *V) {
    auto it = Sh.find(V);
    if (it != Sh.end()) return it->second[0];
    return Null;
  }
  bool isNull(Value *S) { return S == Null; }

  Value *toI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isIntegerTy()) {
      if (T->getIntegerBitWidth() > 64) return ConstantInt::get(I64, 0);
      return B.CreateSExt(V, I64);
    }
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateFPExt(V, Dbl), I64);
    return ConstantInt::get(I64, 0);
  }
  // "kind" code: width for ints; 100 = double, 101 = float
  int kind(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isDoubleTy()) return 100;
    if (T->isFloatTy()) return 101;
    if (T->isPointerTy()) return 102;
    return 0;
  }
  Value *anyNonNull(IRBuilder<> &B, std::vector<Value *> ss) {
    Value *acc = nullptr;
    for (Value *s : ss) {
      if (isNull(s)) continue;
      Value *i = B.CreatePtrToInt(s, I64);
      acc = acc ? B.CreateOr(acc, i) : i;
    }
    if (!acc) return nullptr;
    return B.CreateICmpNE(acc, ConstantInt::get(I64, 0));
  }

  // if (any shadow non-null) result = call f(args) else null ; inserted at point IP
  Value *guardCall(Instruction *IP, std::vector<Value *> ss, std::function<Value *(IRBuilder<> &)> mk,
                   Value *elseV) {
    IRBuilder<> B(IP);
    Value *c = anyNonNull(B, ss);
    if (!c) return elseV;
    Instruction *Then = SplitBlockAndInsertIfThen(c, IP->getIterator(), false,
        MDBuilder(C).createBranchWeights(1, 2000));
    IRBuilder<> TB(Then);
    Value *r = mk(TB);
    if (!r || r->getType()->isVoidTy()) return elseV;
    IRBuilder<> PB(IP);
    // IP now at the tail block head
    PHINode *P = PHINode::Create(r->getType(), 2, "", &*IP->getParent()->begin());
    P->addIncoming(r, Then->getParent());
    for (BasicBlock *Pred : predecessors(IP->getParent()))
      if (Pred != Then->getParent()) P->addIncoming(elseV, Pred);
    return P;
  }

  Value *fn(IRBuilder<> &B) { return FnName; }

  void set(Value *V, Value *S) { if (S && S != Null) Sh[V] = {S}; }
  void setv(Value *V, std::vector<Value *> S) {
    for (auto *s : S) if (s != Null) { Sh[V] = S; return; }
  }

  // replace operand i of I by its concretised value
  void concOperand(Instruction *I, unsigned i) {
    Value *V = I->getOperand(i);
    if (isa<Constant>(V)) return;
    Value *S = sh(V);
    if (isNull(S)) return;
    if (!V->getType()->isIntegerTy()) return;
    Value *N = guardCall(I, {S}, [&](IRBuilder<> &B) -> Value * {
      Value *r = B.CreateCall(rt("__ts_conc", I64, {Ptr, I64, I32, Ptr}),
                              {S, toI64(B, V), ConstantInt::get(I32, kind(V->getType())), fn(B)});
      return B.CreateTrunc(r, V->getType());
    }, V);
    I->setOperand(i, N);
  }

  Value *slotPtr(IRBuilder<> &B, Value *addr) {
    Value *a = B.CreatePtrToInt(addr, I64);
    a = B.CreateAnd(a, ConstantInt::get(I64, ~7ULL));
    a = B.CreateXor(a, ConstantInt::get(I64, SHADOW_XOR));
    return B.CreateIntToPtr(a, Ptr);
  }

  Value *loadLeaf(Instruction *IP, Value *addr, Type *T, uint64_t align) {
    if (!scalarTracked(T)) return Null;
    uint64_t sz = DL.getTypeStoreSize(T);
    IRBuilder<> B(IP);
    Value *slot = B.CreateLoad(I64, slotPtr(B, addr));
    if (sz > align) {
      Value *last = B.CreateConstInBoundsGEP1_64(I8, addr, sz - 1);
      slot = B.CreateOr(slot, B.CreateLoad(I64, slotPtr(B, last)));
    }
    Value *c = B.CreateICmpNE(slot, ConstantInt::get(I64, 0));
    Instruction *Then = SplitBlockAndInsertIfThen(c, IP->getIterator(), false,
        MDBuilder(C).createBranchWeights(1, 2000));
    IRBuilder<> TB(Then);
    Value *r = TB.CreateCall(rt("__ts_load", Ptr, {Ptr, I32, I32, Ptr}),
                             {addr, ConstantInt::get(I32, sz), ConstantInt::get(I32, kind(T)), FnName});
    PHINode *P = PHINode::Create(Ptr, 2, "", &*IP->getParent()->begin());
    P->addIncoming(r, Then->getParent());
    for (BasicBlock *Pred : predecessors(IP->getParent()))
      if (Pred != Then->getParent()) P->addIncoming(Null, Pred);
    return P;
  }

  void storeLeaf(Instruction *IP, Value *addr, Value *S, Type *T, uint64_t align) {
    uint64_t sz = DL.getTypeStoreSize(T);
    IRBuilder<> B(IP);
    Value *acc = nullptr;
    for (uint64_t o = 0; o < sz; o += 8) {
      Value *p = o ? B.CreateConstInBoundsGEP1_64(I8, addr, o) : addr;
      Value *l = B.CreateLoad(I64, slotPtr(B, p));
      acc = acc ? B.CreateOr(acc, l) : l;
    }
    if (align < 8 && sz > align) {
      Value *last = B.CreateConstInBoundsGEP1_64(I8, addr, sz - 1);
      acc = B.CreateOr(acc, B.CreateLoad(I64, slotPtr(B, last)));
    }
    if (!isNull(S)) acc = B.CreateOr(acc, B.CreatePtrToInt(S, I64));
    Value *c = B.CreateICmpNE(acc, ConstantInt::get(I64, 0));
    Instruction *Then = SplitBlockAndInsertIfThen(c, IP->getIterator(), false,
        MDBuilder(C).createBranchWeights(1, 2000));
    IRBuilder<> TB(Then);
    TB.CreateCall(rt("__ts_store", VoidT, {Ptr, I32, I32, Ptr}),
                  {addr, ConstantInt::get(I32, sz), ConstantInt::get(I32, kind(T)), S});
  }

  void leafOffsets(Type *T, uint64_t base, std::vector<uint64_t> &out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      const StructLayout *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++)
        leafOffsets(S->getElementType(i), base + L->getElementOffset(i), out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL.getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements(); i++) leafOffsets(A->getElementType(), base + i * es, out);
    } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
      uint64_t es = DL.getTypeAllocSize(V->getElementType());
      for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back(base + i * es);
    } else out.push_back(base);
  }

  void visitLoad(LoadInst *I) {
    std::vector<Type *> lt; leafTypes(I->getType(), lt);
    std::vector<uint64_t> off; leafOffsets(I->getType(), 0, off);
    std::vector<Value *> res;
    Instruction *IP = I->getNextNode();
    // shadow loaded before the native load is fine (single thread)
    for (size_t k = 0; k < lt.size(); k++) {
      Value *addr = I->getPointerOperand();
      if (off[k]) { IRBuilder<> B(I); addr = B.CreateConstInBoundsGEP1_64(I8, addr, off[k]); }
      res.push_back(loadLeaf(I, addr, lt[k], lt.size() == 1 ? I->getAlign().value() : std::min<uint64_t>(I->getAlign().value(), 1)));
    }
    (void)IP;
    setv(I, res);
  }
  void visitStore(StoreInst *I) {
    Type *T = I->getValueOperand()->getType();
    std::vector<Type *> lt; leafTypes(T, lt);
    std::vector<uint64_t> off; leafOffsets(T, 0, off);
    auto S = shv(I->getValueOperand());
    for (size_t k = 0; k < lt.size(); k++) {
      Value *addr = I->getPointerOperand();
      if (off[k]) { IRBuilder<> B(I); addr = B.CreateConstInBoundsGEP1_64(I8, addr, off[k]); }
      storeLeaf(I, addr, S[k], lt[k], lt.size() == 1 ? I->getAlign().value() : 1);
    }
  }

  void visitBin(BinaryOperator *I) {
    if (!scalarTracked(I->getType())) return;
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    Value *sa = sh(a), *sb = sh(b);
    if (isNull(sa) && isNull(sb)) return;
    // guard native traps
    unsigned op = I->getOpcode();
    if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) {
      IRBuilder<> B(I);
      if (!isa<Constant>(b)) {
        Value *z = B.CreateICmpEQ(b, Constant::getNullValue(b->getType()));
        Value *nz = B.CreateSelect(B.CreateAnd(z, anyNonNull(B, {sa, sb})), ConstantInt::get(b->getType(), 1), b);
        I->setOperand(1, nz);
      }
    }
    int flags = 0;
    if (auto *O = dyn_cast<OverflowingBinaryOperator>(I)) {
      if (O->hasNoSignedWrap()) flags |= 1;
      if (O->hasNoUnsignedWrap()) flags |= 2;
    }
    Instruction *IP = I->getNextNode();
    Value *r = guardCall(IP, {sa, sb}, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("__ts_bin", Ptr, {I32, I32, I32, Ptr, I64, Ptr, I64, Ptr}),
                          {ConstantInt::get(I32, op), ConstantInt::get(I32, kind(I->getType())),
                           ConstantInt::get(I32, flags), sa, toI64(B, a), sb, toI64(B, b), fn(B)});
    }, Null);
    set(I, r);
  }
  void visitFNeg(UnaryOperator *I) {
    if (!scalarTracked(I->getType())) return;
    Value *s = sh(I->getOperand(0));
    if (isNull(s)) return;
    Value *r = guardCall(I->getNextNode(), {s}, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("__ts_fneg", Ptr, {Ptr}), {s});
    }, Null);
    set(I, r);
  }
  void visitCmp(CmpInst *I) {
    Type *T = I->getOperand(0)->getType();
    if (!scalarTracked(T)) return;
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    Value *sa = sh(a), *sb = sh(b);
    if (isNull(sa) && isNull(sb)) return;
    Value *r = guardCall(I->getNextNode(), {sa, sb}, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("__ts_cmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64, Ptr}),
                          {ConstantInt::get(I32, (int)I->getPredicate()), ConstantInt::get(I32, kind(T)),
                           sa, toI64(B, a), sb, toI64(B, b), fn(B)});
    }, Null);
    set(I, r);
  }
  void visitCast(CastInst *I) {
    Type *S = I->getSrcTy(), *D = I->getDestTy();
    Value *s = sh(I->getOperand(0));
    if (isNull(s)) return;
    if (isa<IntToPtrInst>(I)) { concOperand(I, 0); return; }
    if (!scalarTracked(S) || !scalarTracked(D)) return;
    if (isa<BitCastInst>(I)) { setv(I, shv(I->getOperand(0))); return; }
    Value *r = guardCall(I->getNextNode(), {s}, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("__ts_cast", Ptr, {I32, I32, I32, Ptr, Ptr}),
                          {ConstantInt::get(I32, I->getOpcode()), ConstantInt::get(I32, kind(S)),
                           ConstantInt::get(I32, kind(D)), s, fn(B)});
    }, Null);
    set(I, r);
  }
  void visitSelect(SelectInst *I) {
    Value *c = I->getCondition();
    Type *T = I->getType();
    if (c->getType()->isVectorTy()) return;
    Value *sc = sh(c);
    auto st = shv(I->getTrueValue()), sf = shv(I->getFalseValue());
    if (!scalarTracked(T)) {
      // pointer or aggregate: decide the condition
      if (!isNull(sc)) {
        Value *nc = guardCall(I, {sc}, [&](IRBuilder<> &B) -> Value * {
          Value *r = B.CreateCall(rt("__ts_branch", I32, {Ptr, I32, Ptr}), {sc, B.CreateZExt(c, I32), fn(B)});
          return B.CreateTrunc(r, Type::getInt1Ty(C));
        }, c);
        I->setCondition(nc);
      }
      bool any = false;
      for (size_t k = 0; k < st.size(); k++) if (!isNull(st[k]) || !isNull(sf[k])) any = true;
      if (any) {
        IRBuilder<> B(I->getNextNode());
        std::vector<Value *> r;
        for (size_t k = 0; k < st.size(); k++) r.push_back(B.CreateSelect(I->getCondition(), st[k], sf[k]));
        setv(I, r);
      }
      return;
    }
    if (isNull(sc) && isNull(st[0]) && isNull(sf[0])) return;
    if (isNull(sc)) {
      IRBuilder<> B(I->getNextNode());
      set(I, B.CreateSelect(c, st[0], sf[0]));
      return;
    }
    if (T->isFloatingPointTy()) {
      // decide (fork) on reals: keeps polynomial normal forms
      Value *nc = guardCall(I, {sc}, [&](IRBuilder<> &B) -> Value * {
        Value *r = B.CreateCall(rt("__ts_branch", I32, {Ptr, I32, Ptr}), {sc, B.CreateZExt(c, I32), fn(B)});
        return B.CreateTrunc(r, Type::getInt1Ty(C));
      }, c);
      I->setCondition(nc);
      IRBuilder<> B(I->getNextNode());
      set(I, B.CreateSelect(nc, st[0], sf[0]));
      return;
    }
    Value *tv = I->getTrueValue(), *fv = I->getFalseValue();
    Instruction *IP = I->getNextNode();
    IRBuilder<> B0(IP);
    Value *dflt = (isNull(st[0]) && isNull(sf[0])) ? (Value *)Null : B0.CreateSelect(c, st[0], sf[0]);
    Value *r = guardCall(IP, {sc}, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(rt("__ts_select", Ptr, {I32, Ptr, Ptr, I64, Ptr, I64}),
                          {ConstantInt::get(I32, kind(T)), sc, st[0], toI64(B, tv), sf[0], toI64(B, fv)});
    }, dflt);
    set(I, r);
  }
  void visitGEP(GetElementPtrInst *I) {
    for (unsigned k = 1; k < I->getNumOperands(); k++) concOperand(I, k);
  }
  void visitBr(BranchInst *I) {
    if (!I->isConditional()) return;
    Value *c = I->getCondition();
    Value *sc = sh(c);
    if (isNull(sc)) return;
    Value *nc = guardCall(I, {sc}, [&](IRBuilder<> &B) -> Value * {
      Value *r = B.CreateCall(rt("__ts_branch", I32, {Ptr, I32, Ptr}), {sc, B.CreateZExt(c, I32), fn(B)});
      return B.CreateTrunc(r, Type::getInt1Ty(C));
    }, c);
    I->setCondition(nc);
  }
  void visitSwitch(SwitchInst *I) {
    Value *c = I->getCondition();
    Value *sc = sh(c);
    if (isNull(sc)) return;
    std::vector<Constant *> vals;
    for (auto &cs : I->cases()) vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getSExtValue(), true));
    auto *AT = ArrayType::get(I64, vals.size());
    auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, vals), "ts_sw");
    Value *nc = guardCall(I, {sc}, [&](IRBuilder<> &B) -> Value * {
      Value *r = B.CreateCall(rt("__ts_switch", I64, {Ptr, I64, I32, I32, Ptr, Ptr}),
                              {sc, toI64(B, c), ConstantInt::get(I32, kind(c->getType())),
                               ConstantInt::get(I32, vals.size()), G, fn(B)});
      return B.CreateTrunc(r, c->getType());
    }, c);
    I->setCondition(nc);
  }
  void visitRet(ReturnInst *I) {
    if (!I->getReturnValue()) return;
    auto S = shv(I->getReturnValue());
    IRBuilder<> B(I);
    for (size_t k = 0; k < S.size() && k < 64; k++)
      if (!isNull(S[k]))
        B.CreateStore(S[k], B.CreateConstInBoundsGEP2_64(RetG->getValueType(), RetG, 0, k));
  }

  // math functions: name -> code
  static int mathCode(StringRef n) {
    static const std::map<std::string, int> m = {
        {"sin", 1}, {"cos", 2}, {"tan", 3}, {"asin", 4}, {"acos", 5}, {"atan", 6}, {"atan2", 7}, {"exp", 8},
        {"log", 9}, {"log10", 10}, {"pow", 11}, {"sqrt", 12}, {"fabs", 13}, {"floor", 14}, {"ceil", 15},
        {"fmod", 16}, {"sinh", 17}, {"cosh", 18}, {"tanh", 19}, {"fmin", 20}, {"fmax", 21}, {"round", 22},
        {"cbrt", 23}, {"trunc", 24}, {"llvm.sin.f64", 1}, {"llvm.cos.f64", 2}, {"llvm.exp.f64", 8}, {"llvm.log.f64", 9},
        {"llvm.log10.f64", 10}, {"llvm.pow.f64", 11}, {"llvm.sqrt.f64", 12}, {"llvm.fabs.f64", 13},
        {"llvm.floor.f64", 14}, {"llvm.ceil.f64", 15}, {"llvm.minnum.f64", 20}, {"llvm.maxnum.f64", 21},
        {"llvm.round.f64", 22}, {"llvm.trunc.f64", 24}, {"llvm.fmuladd.f64", 25}, {"llvm.fma.f64", 25},
        {"llvm.copysign.f64", 26}, {"llvm.powi.f64.i32", 27}};
    auto it = m.find(n.str());
    return it == m.end() ? 0 : it->second;
  }
  static bool renameLibc(StringRef n, std::string &out) {
    static const std::set<std::string> s = {"strlen", "strcmp", "strncmp", "memcmp", "bcmp", "atoi", "atof", "atol",
        "strtol", "strtod", "strcpy", "strncpy", "strcat", "strchr", "memchr", "toupper", "tolower", "isdigit",
        "isspace", "sprintf", "snprintf", "vsnprintf", "strstr", "strdup", "strtoul", "strtoll"};
    if (n.starts_with("__isoc23_")) n = n.substr(9);
    if (s.count(n.str())) { out = "__tsl_" + n.str(); return true; }
    return false;
  }

  void doMemIntr(CallBase *I, Value *dst, Value *src, Value *len, bool set, Value *val) {
    IRBuilder<> B(I);
    Value *l = B.CreateZExtOrTrunc(len, I64);
    if (!set) {
      B.CreateCall(rt("__ts_memcpy", VoidT, {Ptr, Ptr, I64}), {dst, src, l});
    } else {
      Value *s = sh(val);
      B.CreateCall(rt("__ts_memset", VoidT, {Ptr, Ptr, I64}), {dst, s, l});
    }
  }

  // operations after a call must go to the normal destination of an invoke
  Instruction *afterCall(CallBase *I) {
    if (auto *Inv = dyn_cast<InvokeInst>(I)) {
      BasicBlock *N = Inv->getNormalDest();
      if (!N->getSinglePredecessor()) {
        BasicBlock *NB = BasicBlock::Create(C, "", N->getParent(), N);
        BranchInst::Create(N, NB);
        Inv->setNormalDest(NB);
        for (PHINode &P : N->phis())
          if (!P.getNumIncomingValues()) continue;  // shadow phi, filled at the end
          else P.replaceIncomingBlockWith(Inv->getParent(), NB);
        return NB->getTerminator();
      }
      return &*N->getFirstInsertionPt();
    }
    return I->getNextNode();
  }

  void visitCall(CallBase *I) {
    if (I->isInlineAsm()) return;
    Function *Callee = I->getCalledFunction();
    StringRef n = Callee ? Callee->getName() : "";
    if (n.starts_with("__ts_") ) {
      // harness API functions implemented in the runtime take shadows through __ts_arg too
      if (n.starts_with("__ts_api_")) {
        genericCall(I);
      }
      return;
    }
    if (Callee && Callee->isIntrinsic()) {
      if (auto *MI = dyn_cast<MemTransferInst>(I)) {
        concOperand(I, 2);
        doMemIntr(I, MI->getDest(), MI->getSource(), I->getArgOperand(2), false, nullptr);
        return;
      }
      if (auto *MS = dyn_cast<MemSetInst>(I)) {
        concOperand(I, 2);
        doMemIntr(I, MS->getDest(), nullptr, I->getArgOperand(2), true, MS->getValue());
        return;
      }
      if (n.starts_with("llvm.va_start")) {
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(rt("__ts_vastart", VoidT, {Ptr}), {I->getArgOperand(0)});
        return;
      }
      int mc = mathCode(n);
      if (mc) { mathCall(I, mc); return; }
      intrinsicCall(I, cast<IntrinsicInst>(I));
      return;
    }
    if (n == "memcpy" || n == "memmove") {
      concOperand(I, 2);
      doMemIntr(I, I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2), false, nullptr);
      return;
    }
    if (n == "memset") {
      concOperand(I, 2);
      doMemIntr(I, I->getArgOperand(0), nullptr, I->getArgOperand(2), true, I->getArgOperand(1));
      return;
    }
    if (Callee && Callee->isDeclaration()) {
      int mc = mathCode(n);
      if (mc) { mathCall(I, mc); return; }
      if (n == "abs" || n == "labs") {
        Value *s = sh(I->getArgOperand(0));
        if (isNull(s)) return;
        Value *r = guardCall(afterCall(I), {s}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(rt("__ts_iabs", Ptr, {Ptr, I32}), {s, ConstantInt::get(I32, kind(I->getType()))});
        }, Null);
        set(I, r);
        return;
      }
      // allocation: fresh memory has no shadow
      if (n == "malloc" || n == "calloc" || n == "realloc" || n == "_Znwm" || n == "_Znam" || n == "aligned_alloc" ||
          n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
        for (unsigned k = 0; k < I->arg_size(); k++) concArg(I, k);
        if (n == "realloc") {
          // malloc + copy + free keeps shadows
          IRBuilder<> B(I);
          I->setCalledFunction(rt("__ts_realloc", Ptr, {Ptr, I64}));
          return;
        }
        Instruction *IP = afterCall(I);
        IRBuilder<> B(IP);
        Value *sz = I->getArgOperand(0);
        if (n == "calloc") sz = B.CreateMul(sz, I->getArgOperand(1));
        if (n == "aligned_alloc") sz = I->getArgOperand(1);
        B.CreateCall(rt("__ts_clear", VoidT, {Ptr, I64}), {I, B.CreateZExtOrTrunc(sz, I64)});
        return;
      }
    }
    std::string nn;
    if (Callee && Callee->isDeclaration() && renameLibc(n, nn) ) {
      FunctionCallee f = M.getOrInsertFunction(nn, Callee->getFunctionType());
      I->setCalledFunction(f);
    }
    genericCall(I);
  }

  void concArg(CallBase *I, unsigned k) {
    Value *V = I->getArgOperand(k);
    if (isa<Constant>(V) || !V->getType()->isIntegerTy()) return;
    Value *S = sh(V);
    if (isNull(S)) return;
    Value *N = guardCall(I, {S}, [&](IRBuilder<> &B) -> Value * {
      Value *r = B.CreateCall(rt("__ts_conc", I64, {Ptr, I64, I32, Ptr}),
                              {S, toI64(B, V), ConstantInt::get(I32, kind(V->getType())), FnName});
      return B.CreateTrunc(r, V->getType());
    }, V);
    I->setArgOperand(k, N);
  }

  void mathCall(CallBase *I, int mc) {
    std::vector<Value *> ss;
    for (unsigned k = 0; k < I->arg_size(); k++) ss.push_back(sh(I->getArgOperand(k)));
    bool any = false;
    for (auto *s : ss) if (!isNull(s)) any = true;
    if (!any) return;
    Value *r = guardCall(afterCall(I), ss, [&](IRBuilder<> &B) -> Value * {
      std::vector<Value *> a = {ConstantInt::get(I32, mc)};
      for (unsigned k = 0; k < 3; k++) {
        if (k < I->arg_size()) {
          Value *v = I->getArgOperand(k);
          a.push_back(ss[k]);
          if (v->getType()->isIntegerTy()) v = B.CreateSIToFP(v, Dbl);
          a.push_back(toI64(B, v));
        } else { a.push_back(Null); a.push_back(ConstantInt::get(I64, 0)); }
      }
      a.push_back(FnName);
      return B.CreateCall(rt("__ts_math", Ptr, {I32, Ptr, I64, Ptr, I64, Ptr, I64, Ptr}), a);
    }, Null);
    set(I, r);
  }

  void intrinsicCall(CallBase *I, IntrinsicInst *II) {
    int code = 0;
    switch (II->getIntrinsicID()) {
      case Intrinsic::abs: code = 1; break;
      case Intrinsic::smax: code = 2; break;
      case Intrinsic::smin: code = 3; break;
      case Intrinsic::umax: code = 4; break;
      case Intrinsic::umin: code = 5; break;
      case Intrinsic::uadd_sat: code = 6; break;
      case Intrinsic::usub_sat: code = 7; break;
      case Intrinsic::fshl: code = 8; break;
      case Intrinsic::bswap: code = 9; break;
      case Intrinsic::ctpop: code = 10; break;
      case Intrinsic::umul_with_overflow: code = 20; break;
      case Intrinsic::uadd_with_overflow: code = 21; break;
      case Intrinsic::sadd_with_overflow: code = 22; break;
      case Intrinsic::smul_with_overflow: code = 23; break;
      case Intrinsic::usub_with_overflow: code = 24; break;
      case Intrinsic::ssub_with_overflow: code = 25; break;
      case Intrinsic::assume:
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::expect:
        if (II->getIntrinsicID() == Intrinsic::expect) setv(I, shv(I->getArgOperand(0)));
        return;
      default: code = 0;
    }
    std::vector<Value *> ss;
    bool any = false;
    for (unsigned k = 0; k < I->arg_size(); k++) {
      Value *v = I->getArgOperand(k);
      Value *s = scalarTracked(v->getType()) ? sh(v) : Null;
      ss.push_back(s);
      if (!isNull(s)) any = true;
    }
    if (!any) return;
    if (code == 0) {
      std::string nm = II->getCalledFunction()->getName().str();
      IRBuilder<> B0(I);
      Value *g = B0.CreateGlobalStringPtr(nm);
      guardCall(I, ss, [&](IRBuilder<> &B) -> Value * {
        B.CreateCall(rt("__ts_unsupported", VoidT, {Ptr, Ptr}), {g, FnName});
        return nullptr;
      }, Null);
      return;
    }
    if (code >= 20) {
      // concretise
      for (unsigned k = 0; k < I->arg_size(); k++) concArg(I, k);
      return;
    }
    if (code >= 8) { for (unsigned k = 0; k < I->arg_size(); k++) concArg(I, k); return; }
    Value *r = guardCall(I->getNextNode(), ss, [&](IRBuilder<> &B) -> Value * {
      Value *s1 = I->arg_size() > 1 ? ss[1] : Null;
      Value *v1 = I->arg_size() > 1 ? toI64(B, I->getArgOperand(1)) : ConstantInt::get(I64, 0);
      return B.CreateCall(rt("__ts_iintr", Ptr, {I32, I32, Ptr, I64, Ptr, I64}),
                          {ConstantInt::get(I32, code), ConstantInt::get(I32, kind(I->getType())), ss[0],
                           toI64(B, I->getArgOperand(0)), s1, v1});
    }, Null);
    set(I, r);
  }

  void genericCall(CallBase *I) {
    Function *Callee = I->getCalledFunction();
    bool knownExternal = Callee && Callee->isDeclaration() && !Callee->getName().starts_with("__tsl_") &&
                         !Callee->getName().starts_with("__ts_api_") && isLibExternal(Callee->getName());
    IRBuilder<> B(I);
    // argument shadows
    unsigned slot = 0;
    if (!knownExternal) {
      for (unsigned k = 0; k < I->arg_size(); k++) {
        auto S = shv(I->getArgOperand(k));
        if (I->isByValArgument(k)) S = {I->getArgOperand(k)};
        for (auto *s : S) {
          if (slot < 64) B.CreateStore(s, B.CreateConstInBoundsGEP2_64(ArgG->getValueType(), ArgG, 0, slot));
          slot++;
        }
      }
    } else {
      // concretise int arguments of library externals (reals are passed as-is: reported)
      std::vector<Value *> ss;
      for (unsigned k = 0; k < I->arg_size(); k++) {
        Value *v = I->getArgOperand(k);
        if (!scalarTracked(v->getType())) continue;
        Value *s = sh(v);
        if (isNull(s)) continue;
        ss.push_back(s);
      }
      if (!ss.empty()) {
        Value *g = B.CreateGlobalStringPtr(Callee->getName());
        guardCall(I, ss, [&](IRBuilder<> &B2) -> Value * {
          B2.CreateCall(rt("__ts_extsym", VoidT, {Ptr, Ptr}), {g, FnName});
          return nullptr;
        }, Null);
      }
    }
    Type *R = I->getType();
    if (R->isVoidTy()) return;
    std::vector<Type *> lt; leafTypes(R, lt);
    bool any = false;
    for (auto *t : lt) if (scalarTracked(t)) any = true;
    if (!any) return;
    if (knownExternal) return;
    {
      IRBuilder<> B2(I);
      for (size_t k = 0; k < lt.size() && k < 64; k++)
        if (scalarTracked(lt[k]))
          B2.CreateStore(Null, B2.CreateConstInBoundsGEP2_64(RetG->getValueType(), RetG, 0, k));
    }
    Instruction *IP = afterCall(I);
    IRBuilder<> B3(IP);
    std::vector<Value *> res;
    for (size_t k = 0; k < lt.size(); k++) {
      if (k < 64 && scalarTracked(lt[k]))
        res.push_back(B3.CreateLoad(Ptr, B3.CreateConstInBoundsGEP2_64(RetG->getValueType(), RetG, 0, k)));
      else res.push_back(Null);
    }
    setv(I, res);
  }

  // names resolved by libc / libstdc++ / libgcc: never instrumented
  static bool isLibExternal(StringRef n) {
    static const std::set<std::string> s = {"printf", "fprintf", "vprintf", "vfprintf", "puts", "putchar", "fflush",
        "fopen", "fclose", "fwrite", "fread", "fputs", "fputc", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "exit", "abort",
        "getenv", "time", "gettimeofday", "clock", "__cxa_allocate_exception", "__cxa_throw", "__cxa_begin_catch",
        "__cxa_end_catch", "__cxa_free_exception", "__cxa_rethrow", "__cxa_guard_acquire", "__cxa_guard_release",
        "__cxa_guard_abort", "__cxa_atexit", "__dynamic_cast", "_Unwind_Resume", "__gxx_personality_v0",
        "dgesv_", "dgbsv_", "dgtsv_", "dgetrf_", "dgetri_", "dgetrs_", "dgemm_", "dgbtrf_", "dgbtrs_", "dgeqrf_",
        "dorgqr_", "dtrtri_", "dgesvd_", "dtpsv_", "__cxa_pure_virtual", "swapcontext", "makecontext", "getcontext"};
    if (s.count(n.str())) return true;
    if (n.starts_with("_ZSt") || n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZSt")) return true;
    if (n.starts_with("__cxa_")) return true;
    return false;
  }

  void run(Function &Fn) {
    F = &Fn;
    Sh.clear();
    Phis.clear();
    // collect original instructions in reverse post order
    std::vector<Instruction *> work;
    ReversePostOrderTraversal<Function *> RPO(&Fn);
    for (BasicBlock *BB : RPO)
      for (Instruction &I : *BB) work.push_back(&I);
    // entry
    Instruction *IP = &*Fn.getEntryBlock().getFirstInsertionPt();
    // keep allocas first
    while (isa<AllocaInst>(IP)) IP = IP->getNextNode();
    {
      IRBuilder<> B(IP);
      FnName = B.CreateGlobalStringPtr(Fn.getName());
      unsigned slot = 0;
      if (Fn.getName() != "main")
      for (Argument &A : Fn.args()) {
        std::vector<Type *> lt; leafTypes(A.getType(), lt);
        std::vector<Value *> res;
        if (A.hasByValAttr()) {
          // the callee's private copy: the caller passes the source address in the slot
          uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
          Value *src = B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_64(ArgG->getValueType(), ArgG, 0, slot));
          B.CreateCall(rt("__ts_memcpy", VoidT, {Ptr, Ptr, I64}), {&A, src, ConstantInt::get(I64, sz)});
        }
        for (auto *t : lt) {
          if (slot < 64 && scalarTracked(t))
            res.push_back(B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_64(ArgG->getValueType(), ArgG, 0, slot)));
          else res.push_back(Null);
          slot++;
        }
        setv(&A, res);
      }
    }
    // create shadow phis first
    for (Instruction *I : work)
      if (auto *P = dyn_cast<PHINode>(I)) {
        std::vector<Type *> lt; leafTypes(P->getType(), lt);
        bool any = false;
        for (auto *t : lt) if (scalarTracked(t)) any = true;
        if (!any) continue;
        std::vector<PHINode *> ps;
        std::vector<Value *> vs;
        for (size_t k = 0; k < lt.size(); k++) {
          PHINode *N = PHINode::Create(Ptr, P->getNumIncomingValues(), "", P);
          ps.push_back(N);
          vs.push_back(N);
        }
        Phis.push_back({P, ps});
        Sh[P] = vs;
      }
    for (Instruction *I : work) visit(I);
    // fill phis (incoming blocks were kept up to date by block splitting)
    for (auto &pr : Phis) {
      PHINode *P = pr.first;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        auto S = shv(P->getIncomingValue(i));
        for (size_t k = 0; k < pr.second.size(); k++)
          pr.second[k]->addIncoming(S[k], P->getIncomingBlock(i));
      }
    }
  }

  void visit(Instruction *I) {
    if (isa<PHINode>(I)) return;
    if (auto *X = dyn_cast<LoadInst>(I)) return visitLoad(X);
    if (auto *X = dyn_cast<StoreInst>(I)) return visitStore(X);
    if (auto *X = dyn_cast<BinaryOperator>(I)) {
      if (X->getType()->isVectorTy()) { vecUnsupported(I); return; }
      return visitBin(X);
    }
    if (auto *X = dyn_cast<UnaryOperator>(I)) return visitFNeg(X);
    if (auto *X = dyn_cast<CmpInst>(I)) {
      if (X->getOperand(0)->getType()->isVectorTy()) { vecUnsupported(I); return; }
      return visitCmp(X);
    }
    if (auto *X = dyn_cast<CastInst>(I)) return visitCast(X);
    if (auto *X = dyn_cast<SelectInst>(I)) return visitSelect(X);
    if (auto *X = dyn_cast<GetElementPtrInst>(I)) return visitGEP(X);
    if (auto *X = dyn_cast<BranchInst>(I)) return visitBr(X);
    if (auto *X = dyn_cast<SwitchInst>(I)) return visitSwitch(X);
    if (auto *X = dyn_cast<ReturnInst>(I)) return visitRet(X);
    if (auto *X = dyn_cast<CallBase>(I)) return visitCall(X);
    if (auto *X = dyn_cast<FreezeInst>(I)) { setv(I, shv(X->getOperand(0))); return; }
    if (auto *X = dyn_cast<ExtractValueInst>(I)) {
      auto S = shv(X->getAggregateOperand());
      unsigned o = leafIndex(X->getAggregateOperand()->getType(), X->getIndices());
      unsigned n = nLeaves(X->getType());
      setv(I, std::vector<Value *>(S.begin() + o, S.begin() + o + n));
      return;
    }
    if (auto *X = dyn_cast<InsertValueInst>(I)) {
      auto S = shv(X->getAggregateOperand());
      auto V = shv(X->getInsertedValueOperand());
      unsigned o = leafIndex(X->getType(), X->getIndices());
      for (size_t k = 0; k < V.size(); k++) S[o + k] = V[k];
      setv(I, S);
      return;
    }
    if (auto *X = dyn_cast<ExtractElementInst>(I)) {
      auto S = shv(X->getVectorOperand());
      if (auto *c = dyn_cast<ConstantInt>(X->getIndexOperand())) {
        std::vector<Value *> r = {S[c->getZExtValue()]};
        setv(I, r);
      }
      return;
    }
    if (auto *X = dyn_cast<InsertElementInst>(I)) {
      auto S = shv(X->getOperand(0));
      if (auto *c = dyn_cast<ConstantInt>(X->getOperand(2))) S[c->getZExtValue()] = sh(X->getOperand(1));
      setv(I, S);
      return;
    }
    if (auto *X = dyn_cast<ShuffleVectorInst>(I)) {
      auto A = shv(X->getOperand(0)), Bv = shv(X->getOperand(1));
      std::vector<Value *> r;
      for (int m : X->getShuffleMask()) {
        if (m < 0) r.push_back(Null);
        else if ((size_t)m < A.size()) r.push_back(A[m]);
        else r.push_back(Bv[m - A.size()]);
      }
      setv(I, r);
      return;
    }
    // AtomicRMW, CmpXchg, fences, va_arg, resume ...: concrete only
  }
  void vecUnsupported(Instruction *I) {
    std::vector<Value *> ss;
    for (Value *o : I->operands()) for (Value *s : shv(o)) if (!isNull(s)) ss.push_back(s);
    if (ss.empty()) return;
    IRBuilder<> B0(I);
    Value *g = B0.CreateGlobalStringPtr("vector op");
    guardCall(I, ss, [&](IRBuilder<> &B) -> Value * {
      B.CreateCall(rt("__ts_unsupported", VoidT, {Ptr, Ptr}), {g, FnName});
      return nullptr;
    }, Null);
  }
};

struct TsymPass : PassInfoMixin<TsymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Tsym T(M);
    std::vector<Function *> fs;
    for (Function &F : M)
      if (!F.isDeclaration() && !F.getName().starts_with("__ts_")) fs.push_back(&F);
    // every function now has side effects on the shadow state
    AttributeMask AM;
    for (auto k : {Attribute::Memory, Attribute::Speculatable, Attribute::WillReturn, Attribute::NoSync,
                   Attribute::NoFree, Attribute::NoCallback, Attribute::NoRecurse})
      AM.addAttribute(k);
    AttributeMask PM;
    for (auto k : {Attribute::ReadOnly, Attribute::ReadNone, Attribute::WriteOnly, Attribute::Returned})
      PM.addAttribute(k);
    for (Function &F : M) {
      if (F.isIntrinsic()) continue;
      F.removeFnAttrs(AM);
      for (auto &A : F.args()) A.removeAttrs(PM);
      for (Instruction &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->getCalledFunction() && CB->getCalledFunction()->isIntrinsic()) continue;
          CB->removeFnAttrs(AM);
          for (unsigned k = 0; k < CB->arg_size(); k++) CB->removeParamAttrs(k, PM);
          if (auto *CI = dyn_cast<CallInst>(CB)) if (CI->isTailCall() && !CI->isMustTailCall()) CI->setTailCall(false);
        }
    }
    for (Function *F : fs) T.run(*F);
    // library templates instantiated here must not replace those inside shared libraries
    for (Function *F : fs)
      if ((F->hasLinkOnceLinkage() || F->hasWeakLinkage()) && F->getName().contains("St") &&
          (F->getName().starts_with("_ZNS") || F->getName().starts_with("_ZNKS") || F->getName().starts_with("_ZS") || F->getName().starts_with("_ZSt")))
        F->setVisibility(GlobalValue::HiddenVisibility);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "tsym", "1", [](PassBuilder &PB) {
            PB.registerOptimizerEarlyEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
              MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass()));
              MPM.addPass(TsymPass());
            });
          }};
}
