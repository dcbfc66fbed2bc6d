// Random LLVM-IR modules: arbitrary (mostly forward) control flow over memory
// cells, with pointers, structs, arrays, globals, calls, function pointers,
// invokes, ... as switched on by the options. Everything verifies and can be
// executed by interp::Machine.
#pragma once
#include "pbt.h"

#include "llvm/IR/DIBuilder.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace irgen {
using namespace llvm;

struct Opts {
  unsigned MinFuns = 1, MaxFuns = 4, MaxBlocks = 6, MaxStmts = 6, MaxInts = 3;
  bool Loops = true, Ptrs = true, PtrPtrs = false, Arrays = false,
       Structs = false, Globals = true, FnPtrs = false, Recursion = true,
       Invokes = false, Switch = true, Select = false, Dbg = false,
       Unreach = false, DeadBlocks = false, Malloc = false, Memcpy = false,
       MainArgs = false, UninitLocals = false, Calls = true, Externs = true,
       Ternary = false, Linkage = false, PtrRets = true, Casts = false,
       PtrGlobals = true, FnPtrGlobals = false, NullPtrs = true,
       MultiRet = false, ConstGlobals = false;
  unsigned Mem2RegOf = 4; // chance 1/N to promote a function (0: never)
  std::vector<Instruction::BinaryOps> Ops = {
      Instruction::Add, Instruction::Sub, Instruction::Mul, Instruction::Xor};
  unsigned ExtraWeight = 0;
};

struct Gen {
  pbt::Ctx &C;
  Opts O;
  LLVMContext &Ctx;
  std::unique_ptr<Module> M;
  IRBuilder<> B;
  IntegerType *I32;
  Type *I32P, *I8P, *Void;
  StructType *ST; // { i32, i32*, i32 }
  Type *FT1P;     // i32 (i32)*
  FunctionType *FT1;
  std::vector<Function *> Funs; // [0] = main
  std::vector<GlobalVariable *> GInts, GPtrs, GFps, GArrs, GStructs;
  std::function<void(Gen &)> Extra;
  Function *Thrower = nullptr, *Pers = nullptr;
  std::unique_ptr<DIBuilder> DIB;
  DICompileUnit *CU = nullptr;
  DIFile *File = nullptr;
  DIType *DInt = nullptr;

  // current function
  Function *F = nullptr;
  unsigned FIdx = 0;
  std::vector<Value *> Ints, PtrVars, PPVars, Arrs, Strs, FpVars, StrPtrs;
  std::vector<Value *> TmpI, TmpP; // values of the current block
  std::vector<Value *> ArgI, ArgP, ArgF;
  BasicBlock *CurNext = nullptr;
  unsigned NBlocksLeft = 0;
  std::map<Value *, DILocalVariable *> DVs;
  DISubprogram *SP = nullptr;

  Gen(pbt::Ctx &C, const Opts &O, LLVMContext &Ctx)
      : C(C), O(O), Ctx(Ctx), M(std::make_unique<Module>("gen", Ctx)), B(Ctx) {
    M->setDataLayout(
        "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128");
    M->setTargetTriple("x86_64-unknown-linux-gnu");
    I32 = B.getInt32Ty();
    I32P = I32->getPointerTo();
    I8P = B.getInt8PtrTy();
    Void = B.getVoidTy();
    ST = StructType::create(Ctx, {I32, I32P, I32}, "struct.S");
    FT1 = FunctionType::get(I32, {I32}, false);
    FT1P = FT1->getPointerTo();
  }

  ConstantInt *num(int64_t V) { return ConstantInt::getSigned(I32, V); }
  ConstantInt *smallNum() { return num(C.range(-2, 9)); }

  Function *ext(const char *Name, Type *Ret, ArrayRef<Type *> Args) {
    return cast<Function>(
        M->getOrInsertFunction(Name, FunctionType::get(Ret, Args, false))
            .getCallee());
  }
  CallBase *call(FunctionCallee Fn, ArrayRef<Value *> Args) {
    return B.CreateCall(Fn, Args);
  }

  // ---- values
  Value *intLV() {
    std::vector<int> K;
    if (!Ints.empty())
      K.push_back(0), K.push_back(0), K.push_back(0);
    if (!GInts.empty())
      K.push_back(1);
    if (O.Ptrs && (!PtrVars.empty() || !ArgP.empty()))
      K.push_back(2), K.push_back(2);
    if (!Arrs.empty())
      K.push_back(3);
    if (!Strs.empty())
      K.push_back(4);
    if (K.empty())
      return nullptr;
    switch (C.pick(K)) {
    case 0:
      return C.pick(Ints);
    case 1:
      return C.pick(GInts);
    case 2:
      return derefable();
    case 3: {
      auto *A = C.pick(Arrs);
      Value *Idx = num(C.draw(3));
      if (C.chance(1, 4))
        Idx = B.CreateAnd(intRV(), num(1));
      return B.CreateInBoundsGEP(ArrayType::get(I32, 3), A, {num(0), Idx});
    }
    default: {
      auto *S = C.pick(Strs);
      return B.CreateStructGEP(ST, S, C.flip() ? 2 : 0);
    }
    }
  }
  Value *derefable() {
    if (!TmpP.empty() && C.chance(1, 4))
      return C.pick(TmpP);
    std::vector<Value *> Cand;
    for (auto *V : PtrVars)
      Cand.push_back(V);
    size_t NV = Cand.size();
    for (auto *A : ArgP)
      Cand.push_back(A);
    size_t K = C.draw(Cand.size());
    if (K >= NV)
      return Cand[K];
    auto *L = B.CreateLoad(I32P, Cand[K]);
    TmpP.push_back(L);
    return L;
  }
  Value *intRV() {
    std::vector<int> K{0, 1, 1};
    if (!ArgI.empty())
      K.push_back(2);
    if (!TmpI.empty())
      K.push_back(3);
    switch (C.pick(K)) {
    case 0:
      return smallNum();
    case 2:
      return C.pick(ArgI);
    case 3:
      return C.pick(TmpI);
    default: {
      auto *LV = intLV();
      if (!LV)
        return smallNum();
      auto *L = B.CreateLoad(I32, LV);
      TmpI.push_back(L);
      return L;
    }
    }
  }
  Value *ptrLV() {
    std::vector<Value *> Cand;
    for (auto *V : PtrVars)
      Cand.push_back(V);
    for (auto *V : GPtrs)
      Cand.push_back(V);
    for (auto *V : Strs)
      Cand.push_back(V);
    for (auto *V : PPVars)
      Cand.push_back(V);
    if (Cand.empty())
      return nullptr;
    auto *V = C.pick(Cand);
    auto *E = cast<PointerType>(V->getType())->getNonOpaquePointerElementType();
    if (E == ST)
      return B.CreateStructGEP(ST, V, 1);
    if (E == I32P->getPointerTo())
      return B.CreateLoad(I32P->getPointerTo(), V);
    return V;
  }
  Value *ptrRV() {
    std::vector<int> K{0, 0, 1, 1};
    if (!ArgP.empty())
      K.push_back(2);
    if (!TmpP.empty())
      K.push_back(3);
    if (O.Malloc)
      K.push_back(4);
    if (O.Casts)
      K.push_back(5);
    switch (C.pick(K)) {
    case 0:
    again: {
      auto *L = intLV();
      if (L)
        return L;
      return ConstantPointerNull::get(cast<PointerType>(I32P));
    }
    case 1: {
      auto *L = ptrLV();
      if (!L)
        goto again;
      auto *P = B.CreateLoad(I32P, L);
      TmpP.push_back(P);
      return P;
    }
    case 2:
      return C.pick(ArgP);
    case 3:
      return C.pick(TmpP);
    case 5: {
      auto *P = ptrLV();
      if (!P)
        goto again;
      auto *L = B.CreateLoad(I32P, P);
      auto *X = B.CreateBitCast(L, I8P);
      auto *Y = B.CreateBitCast(X, I32P);
      TmpP.push_back(Y);
      return Y;
    }
    default: {
      auto *Mal = ext("malloc", I8P, {B.getInt64Ty()});
      auto *R = B.CreateCall(Mal, {B.getInt64(4)});
      auto *P = B.CreateBitCast(R, I32P);
      TmpP.push_back(P);
      return P;
    }
    }
  }
  std::vector<Function *> fns1() {
    std::vector<Function *> R;
    for (auto *X : Funs)
      if (X->getFunctionType() == FT1)
        R.push_back(X);
    return R;
  }
  Value *fpRV() {
    auto Fs = fns1();
    std::vector<Value *> Cand(Fs.begin(), Fs.end());
    size_t NF = Cand.size();
    for (auto *A : ArgF)
      Cand.push_back(A);
    size_t NA = Cand.size();
    for (auto *V : FpVars)
      Cand.push_back(V);
    for (auto *V : GFps)
      Cand.push_back(V);
    if (Cand.empty())
      return ConstantPointerNull::get(cast<PointerType>(FT1P));
    size_t K = C.draw(Cand.size());
    (void)NF;
    if (K < NA)
      return Cand[K];
    return B.CreateLoad(FT1P, Cand[K]);
  }
  Value *argFor(Type *T) {
    if (T == I32)
      return intRV();
    if (T == I32P)
      return ptrRV();
    if (T == FT1P)
      return fpRV();
    return Constant::getNullValue(T);
  }

  // ---- statements
  void useResult(Value *R) {
    if (R->getType() == I32) {
      TmpI.push_back(R);
      if (!C.chance(1, 4))
        if (auto *L = intLV())
          B.CreateStore(R, L);
    } else if (R->getType() == I32P) {
      TmpP.push_back(R);
      if (!C.chance(1, 4))
        if (auto *L = ptrLV())
          B.CreateStore(R, L);
    }
  }
  void emitCall() {
    FunctionCallee Callee;
    if (O.FnPtrs && C.chance(1, 3)) {
      auto *FP = fpRV();
      Callee = FunctionCallee(FT1, FP);
    } else {
      std::vector<Function *> Cand;
      for (unsigned K = 1; K < Funs.size(); ++K)
        if (O.Recursion || K > FIdx)
          Cand.push_back(Funs[K]);
      if (Cand.empty())
        return;
      Callee = C.pick(Cand);
    }
    std::vector<Value *> Args;
    for (auto *T : Callee.getFunctionType()->params())
      Args.push_back(argFor(T));
    Value *R;
    if (O.Invokes && C.chance(1, 3)) {
      ensurePers();
      auto *Cont = BasicBlock::Create(Ctx, "", F);
      auto *LPad = BasicBlock::Create(Ctx, "", F);
      R = B.CreateInvoke(Callee, Cont, LPad, Args);
      auto *Save = B.GetInsertBlock();
      (void)Save;
      auto TI = TmpI;
      auto TP = TmpP;
      B.SetInsertPoint(LPad);
      auto *LP = B.CreateLandingPad(
          StructType::get(Ctx, {I8P, I32}), 1);
      LP->addClause(ConstantPointerNull::get(cast<PointerType>(I8P)));
      if (C.flip())
        if (auto *L = intLV())
          B.CreateStore(smallNum(), L);
      if (C.flip() || PendingBlocks.empty())
        B.CreateResume(LP);
      else
        B.CreateBr(C.pick(PendingBlocks));
      TmpI = TI;
      TmpP = TP;
      B.SetInsertPoint(Cont);
      // the values of the old block still dominate
    } else {
      R = B.CreateCall(Callee, Args);
    }
    useResult(R);
  }
  std::vector<BasicBlock *> PendingBlocks;
  void ensurePers() {
    if (!Pers) {
      Pers = cast<Function>(
          M->getOrInsertFunction("__gxx_personality_v0",
                                 FunctionType::get(I32, {}, true))
              .getCallee());
    }
    F->setPersonalityFn(Pers);
  }
  void dbg() {
    if (!DIB || !SP || Ints.empty())
      return;
    auto *Loc = DILocation::get(Ctx, 1, 1, SP);
    auto *A = C.pick(Ints);
    auto *&DV = DVs[A];
    if (!DV) // one variable per stack slot
      DV = DIB->createAutoVariable(SP, "v" + std::to_string(DVs.size()),
                                   SP->getFile(), 1, DInt);
    if (C.flip())
      DIB->insertDeclare(A, DV, DIB->createExpression(), Loc, B.GetInsertBlock());
    else
      DIB->insertDbgValueIntrinsic(A, DV, DIB->createExpression(), Loc,
                                   B.GetInsertBlock());
  }
  void stmt() {
    std::vector<std::pair<unsigned, int>> W{{4, 0}, {4, 1}};
    if (O.Ptrs)
      W.push_back({4, 2});
    if (O.Calls && Funs.size() > 1)
      W.push_back({4, 3});
    if (O.Externs)
      W.push_back({1, 4});
    if (O.FnPtrs)
      W.push_back({2, 5});
    if (O.Select)
      W.push_back({1, 6});
    if (O.Dbg)
      W.push_back({2, 7});
    if (O.Memcpy && (Strs.size() > 1 || Arrs.size() > 1))
      W.push_back({2, 8});
    if (O.PtrPtrs && !PPVars.empty() && !PtrVars.empty())
      W.push_back({2, 9});
    if (O.ExtraWeight)
      W.push_back({O.ExtraWeight, 10});
    if (O.Casts)
      W.push_back({1, 11});
    unsigned Sum = 0;
    for (auto &[X, K] : W)
      Sum += X;
    unsigned D = C.draw(Sum);
    int Kind = 0;
    for (auto &[X, K] : W) {
      if (D < X) {
        Kind = K;
        break;
      }
      D -= X;
    }
    switch (Kind) {
    case 0: { // copy / const
      auto *V = intRV();
      if (auto *L = intLV())
        B.CreateStore(V, L);
      break;
    }
    case 1: { // binop
      auto Op = C.pick(O.Ops);
      auto *X = intRV();
      Value *Y = C.flip() ? (Value *)smallNum() : intRV();
      if (isa<Constant>(X) && isa<Constant>(Y)) {
        // keep it an instruction
        if (auto *L = intLV())
          X = B.CreateLoad(I32, L);
      }
      auto *R = B.CreateBinOp(Op, X, Y);
      TmpI.push_back(R);
      if (!C.chance(1, 4))
        if (auto *L = intLV())
          B.CreateStore(R, L);
      break;
    }
    case 2: {
      auto *P = ptrRV();
      if (auto *L = ptrLV())
        B.CreateStore(P, L);
      break;
    }
    case 3:
      emitCall();
      break;
    case 4:
      useResult(B.CreateCall(ext("input", I32, {}), {}));
      break;
    case 5: {
      auto *P = fpRV();
      std::vector<Value *> Cand = FpVars;
      for (auto *G : GFps)
        Cand.push_back(G);
      if (!Cand.empty())
        B.CreateStore(P, C.pick(Cand));
      break;
    }
    case 6: {
      auto *Cn = cond();
      if (O.Ptrs && C.flip()) {
        auto *R = B.CreateSelect(Cn, ptrRV(), ptrRV());
        useResult(R);
      } else {
        useResult(B.CreateSelect(Cn, intRV(), intRV()));
      }
      break;
    }
    case 7:
      dbg();
      break;
    case 8: {
      bool S = Strs.size() > 1 && (Arrs.size() < 2 || C.flip());
      auto &V = S ? Strs : Arrs;
      auto *D = C.pick(V), *X = C.pick(V);
      if (D == X)
        break;
      uint64_t N = S ? 24 : 12;
      B.CreateMemCpy(B.CreateBitCast(D, I8P), MaybeAlign(4),
                     B.CreateBitCast(X, I8P), MaybeAlign(4), N);
      break;
    }
    case 9: {
      auto *D = C.pick(PPVars);
      B.CreateStore(C.pick(PtrVars), D);
      break;
    }
    case 10:
      Extra(*this);
      break;
    case 11: {
      auto *V = intRV();
      auto *T = B.CreateTrunc(V, B.getInt8Ty());
      auto *R = C.flip() ? B.CreateSExt(T, I32) : B.CreateZExt(T, I32);
      if (isa<Constant>(R))
        break;
      useResult(R);
      break;
    }
    }
  }
  Value *cond() {
    Value *X = C.chance(1, 3) && O.Externs
                   ? B.CreateCall(ext("input", I32, {}), {})
                   : intRV();
    if (isa<Constant>(X))
      if (auto *L = intLV())
        X = B.CreateLoad(I32, L);
    static const CmpInst::Predicate Ps[] = {CmpInst::ICMP_SLT, CmpInst::ICMP_EQ,
                                            CmpInst::ICMP_SGT, CmpInst::ICMP_NE};
    return B.CreateICmp(Ps[C.draw(4)], X, smallNum());
  }

  void declareFuns() {
    unsigned N = O.MinFuns + C.draw(O.MaxFuns - O.MinFuns + 1);
    for (unsigned K = 0; K < N; ++K) {
      Type *R = I32;
      std::vector<Type *> P;
      std::string Name = "f" + std::to_string(K);
      if (K == 0) {
        Name = "main";
        if (O.MainArgs)
          P = {I32, I8P->getPointerTo()};
      } else if (O.FnPtrs && C.chance(1, 2)) {
        P = {I32};
      } else {
        R = C.chance(1, 4)                          ? Void
            : (O.Ptrs && O.PtrRets && C.chance(1, 4)) ? I32P
                                                      : (Type *)I32;
        unsigned NP = C.draw(3);
        for (unsigned J = 0; J < NP; ++J)
          P.push_back(O.FnPtrs && C.chance(1, 5) ? FT1P
                      : O.Ptrs && C.chance(1, 2) ? I32P
                                                 : (Type *)I32);
      }
      auto Lk = O.Linkage && K && C.chance(1, 3) ? Function::InternalLinkage
                                                 : Function::ExternalLinkage;
      Funs.push_back(
          Function::Create(FunctionType::get(R, P, false), Lk, Name, *M));
    }
  }
  void globals() {
    if (!O.Globals)
      return;
    unsigned N = C.draw(3);
    for (unsigned K = 0; K < N; ++K)
      GInts.push_back(new GlobalVariable(*M, I32, O.ConstGlobals && C.chance(1,4),
                                         GlobalValue::InternalLinkage,
                                         smallNum(), "g" + std::to_string(K)));
    if (O.Ptrs && O.PtrGlobals && C.flip())
      GPtrs.push_back(new GlobalVariable(
          *M, I32P, false, GlobalValue::InternalLinkage,
          GInts.empty() || C.flip()
              ? (Constant *)ConstantPointerNull::get(cast<PointerType>(I32P))
              : C.pick(GInts),
          "gp"));
    if (O.FnPtrs && O.FnPtrGlobals && C.flip()) {
      auto Fs = fns1();
      GFps.push_back(new GlobalVariable(
          *M, FT1P, false, GlobalValue::InternalLinkage,
          Fs.empty() ? (Constant *)ConstantPointerNull::get(
                           cast<PointerType>(FT1P))
                     : C.pick(Fs),
          "gf"));
    }
  }
  void ret() {
    auto *R = F->getReturnType();
    if (R->isVoidTy())
      B.CreateRetVoid();
    else
      B.CreateRet(R == I32 ? intRV() : R == I32P ? ptrRV() : argFor(R));
  }
  void body(unsigned K) {
    FIdx = K;
    F = Funs[K];
    Ints.clear(), PtrVars.clear(), PPVars.clear(), Arrs.clear(), Strs.clear(),
        FpVars.clear(), TmpI.clear(), TmpP.clear(), ArgI.clear(), ArgP.clear(),
        ArgF.clear(), PendingBlocks.clear();
    for (auto &A : F->args()) {
      if (A.getType() == I32)
        ArgI.push_back(&A);
      if (A.getType() == I32P)
        ArgP.push_back(&A);
      if (A.getType() == FT1P)
        ArgF.push_back(&A);
    }
    SP = nullptr;
    if (O.Dbg && DIB) {
      auto *T = DIB->createSubroutineType(DIB->getOrCreateTypeArray({DInt}));
      SP = DIB->createFunction(CU, F->getName(), F->getName(), File, 1, T, 1,
                               DINode::FlagZero,
                               DISubprogram::SPFlagDefinition);
      F->setSubprogram(SP);
      DVs.clear();
    }
    unsigned NB = 1 + C.draw(O.MaxBlocks);
    std::vector<BasicBlock *> BBs;
    auto *Entry = BasicBlock::Create(Ctx, "entry", F);
    for (unsigned J = 0; J < NB; ++J)
      BBs.push_back(BasicBlock::Create(Ctx, "b" + std::to_string(J), F));
    B.SetInsertPoint(Entry);
    B.SetCurrentDebugLocation(SP ? DebugLoc(DILocation::get(Ctx, 1, 1, SP))
                                 : DebugLoc());
    unsigned NI = 1 + C.draw(O.MaxInts);
    for (unsigned J = 0; J < NI; ++J)
      Ints.push_back(B.CreateAlloca(I32));
    if (O.Ptrs) {
      unsigned NP = C.draw(3);
      for (unsigned J = 0; J < NP; ++J)
        PtrVars.push_back(B.CreateAlloca(I32P));
      if (O.PtrPtrs && !PtrVars.empty() && C.flip())
        PPVars.push_back(B.CreateAlloca(I32P->getPointerTo()));
    }
    if (O.Arrays && C.flip())
      for (unsigned J = 0, N = 1 + C.draw(2); J < N; ++J)
        Arrs.push_back(B.CreateAlloca(ArrayType::get(I32, 3)));
    if (O.Structs && C.flip())
      for (unsigned J = 0, N = 1 + C.draw(2); J < N; ++J)
        Strs.push_back(B.CreateAlloca(ST));
    if (O.FnPtrs)
      for (unsigned J = 0, N = C.draw(3); J < N; ++J)
        FpVars.push_back(B.CreateAlloca(FT1P));
    // initialise
    for (auto *V : Ints)
      if (!O.UninitLocals || C.flip())
        B.CreateStore(!ArgI.empty() && C.flip() ? C.pick(ArgI)
                                                : (Value *)smallNum(),
                      V);
    for (auto *V : PtrVars)
      if (!O.UninitLocals || C.flip())
        B.CreateStore(!ArgP.empty() && C.flip() ? C.pick(ArgP)
                                                : (Value *)C.pick(Ints),
                      V);
    for (auto *V : PPVars)
      B.CreateStore(C.pick(PtrVars), V);
    for (auto *V : Strs) {
      B.CreateStore(C.pick(Ints), B.CreateStructGEP(ST, V, 1));
      if (!O.UninitLocals || C.flip()) {
        B.CreateStore(smallNum(), B.CreateStructGEP(ST, V, 0));
        B.CreateStore(smallNum(), B.CreateStructGEP(ST, V, 2));
      }
    }
    for (auto *V : Arrs)
      for (int J = 0; J < 3; ++J)
        if (!O.UninitLocals || C.flip())
          B.CreateStore(smallNum(),
                        B.CreateInBoundsGEP(ArrayType::get(I32, 3), V,
                                            {num(0), num(J)}));
    for (auto *V : FpVars)
      B.CreateStore(fpRV(), V);
    B.CreateBr(BBs[0]);
    for (unsigned J = 0; J < NB; ++J) {
      B.SetInsertPoint(BBs[J]);
      TmpI.clear();
      TmpP.clear();
      PendingBlocks.clear();
      for (unsigned L = J + 1; L < NB; ++L)
        PendingBlocks.push_back(BBs[L]);
      unsigned NS = C.draw(O.MaxStmts + 1);
      for (unsigned L = 0; L < NS; ++L)
        stmt();
      auto Target = [&] {
        if (O.Loops && C.chance(1, 5))
          return BBs[C.draw(J + 1)];
        return PendingBlocks.empty() ? BBs[J] : C.pick(PendingBlocks);
      };
      bool Last = J + 1 == NB;
      unsigned T = Last ? (O.Loops && C.chance(1, 8) ? 2 : 0)
                        : C.weighted({0, 4, 4, 1, 1, 1});
      if (T == 3 && !O.MultiRet)
        T = 1;
      if (T == 4 && !O.Switch)
        T = 1;
      if (T == 5 && !O.Unreach)
        T = 1;
      switch (T) {
      case 0:
      case 3:
        ret();
        break;
      case 1:
        B.CreateBr(O.DeadBlocks && C.chance(1, 5) ? Target() : BBs[J + 1]);
        break;
      case 2: {
        auto *Cn = cond();
        if (Last) {
          auto *RB = BasicBlock::Create(Ctx, "x", F);
          B.CreateCondBr(Cn, BBs[C.draw(NB)], RB);
          B.SetInsertPoint(RB);
          TmpI.clear();
          TmpP.clear();
          ret();
        } else {
          B.CreateCondBr(Cn, BBs[J + 1], Target());
        }
        break;
      }
      case 4: {
        auto *X = intRV();
        auto *S = B.CreateSwitch(X, BBs[J + 1]);
        unsigned N = C.draw(4);
        for (unsigned L = 0; L < N; ++L)
          S->addCase(num(L), Target());
        break;
      }
      case 5:
        B.CreateUnreachable();
        break;
      }
    }
  }
  void promote() {
    if (!O.Mem2RegOf)
      return;
    for (auto *Fn : Funs) {
      if (Fn->isDeclaration() || !C.chance(1, O.Mem2RegOf))
        continue;
      std::vector<AllocaInst *> As;
      for (auto &I : Fn->getEntryBlock())
        if (auto *A = dyn_cast<AllocaInst>(&I))
          if (isAllocaPromotable(A))
            As.push_back(A);
      if (As.empty())
        continue;
      DominatorTree DT(*Fn);
      PromoteMemToReg(As, DT);
    }
  }
  std::unique_ptr<Module> run() {
    declareFuns();
    globals();
    if (O.Dbg && C.flip()) {
      DIB = std::make_unique<DIBuilder>(*M);
      File = DIB->createFile("gen.c", "/");
      CU = DIB->createCompileUnit(dwarf::DW_LANG_C, File, "irgen", false, "", 0);
      DInt = DIB->createBasicType("int", 32, dwarf::DW_ATE_signed);
      M->addModuleFlag(Module::Warning, "Debug Info Version",
                       DEBUG_METADATA_VERSION);
    }
    for (unsigned K = 0; K < Funs.size(); ++K)
      body(K);
    if (DIB)
      DIB->finalize();
    promote();
    std::string Err;
    raw_string_ostream OS(Err);
    if (verifyModule(*M, &OS)) {
      OS << "\n" << *M;
      C.fail("harness: generated module does not verify: " + OS.str());
    }
    return std::move(M);
  }
};

inline std::string print(const Module &M) {
  std::string S;
  raw_string_ostream OS(S);
  OS << M;
  return OS.str();
}
} // namespace irgen
