// A small concrete interpreter for LLVM-14 IR with shadow state, used as the
// oracle of what programs really do. Memory is a flat arena of bytes, each with
// a set of taint labels and an "uninitialised" flag.
#pragma once
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace interp {
using Inst = const llvm::Instruction *;

struct Val {
  uint64_t B = 0;
  uint64_t T = 0; // taint labels
  bool U = false; // uninitialised / undef
};

struct Object {
  uint64_t Base, Size;
  const llvm::Value *Site; // alloca, global, allocating call, function
  unsigned Act = 0;        // activation of the frame it belongs to
  bool Freed = false;
};

struct Frame {
  const llvm::Function *F = nullptr;
  Inst CallSite = nullptr;
  Frame *Caller = nullptr;
  unsigned Act = 0;
  std::unordered_map<const llvm::Value *, Val> R;
  std::unordered_map<const llvm::Value *, std::vector<Val>> Agg;
  std::vector<uint64_t> Objs;
  Inst Cur = nullptr;
  bool has(const llvm::Value *V) const { return R.count(V); }
};

struct Stop {}; // execution ended (step limit, UB, exit)
struct Throw {}; // exception unwinding

class Machine {
public:
  const llvm::Module &M;
  const llvm::DataLayout &DL;
  std::vector<uint8_t> Mem;
  std::vector<uint64_t> MT;
  std::vector<bool> MU;
  std::map<uint64_t, Object> Objs; // by base
  std::unordered_map<const llvm::Value *, uint64_t> GAddr;
  std::unordered_map<uint64_t, const llvm::Function *> FAddr;
  unsigned Steps = 0, MaxSteps = 2000, MaxDepth = 24, Depth = 0, NextAct = 1;
  static constexpr uint64_t Lo = 0x1000;

  /// before an instruction is executed
  std::function<void(Frame &, Inst)> OnInst;
  /// after an instruction of this frame was executed (value available)
  std::function<void(Frame &, Inst)> AfterInst;
  /// a call edge was taken
  std::function<void(Frame &, const llvm::CallBase *, const llvm::Function *)> OnCall;
  /// callee without a body
  std::function<Val(Frame &, const llvm::CallBase *, const llvm::Function *, std::vector<Val> &)> Extern;
  /// memory access: address, size, write
  std::function<void(Frame &, Inst, uint64_t, uint64_t, bool)> OnAccess;
  /// return about to happen
  std::function<void(Frame &, Inst, Val *)> OnReturn;

  explicit Machine(const llvm::Module &M) : M(M), DL(M.getDataLayout()) {
    Mem.assign(1 << 14, 0);
    MT.assign(Mem.size(), 0);
    MU.assign(Mem.size(), false);
    for (auto &F : M) {
      uint64_t A = alloc(1, &F, 0);
      GAddr[&F] = A;
      FAddr[A] = &F;
    }
    for (auto &G : M.globals())
      GAddr[&G] = alloc(DL.getTypeAllocSize(G.getValueType()), &G, 0);
    for (auto &G : M.globals())
      if (G.hasInitializer())
        init(GAddr[&G] - Lo, G.getInitializer());
  }

  uint64_t alloc(uint64_t Size, const llvm::Value *Site, unsigned Act) {
    uint64_t S = (Size + 15) / 16 * 16 + 16;
    if (Top + S > (1u << 22))
      throw Stop{};
    uint64_t A = Top;
    Top += S;
    if (Top > Mem.size()) {
      Mem.resize(Top * 2, 0);
      MT.resize(Mem.size(), 0);
      MU.resize(Mem.size(), false);
    }
    Objs[A + Lo] = {A + Lo, Size, Site, Act, false};
    return A + Lo;
  }
  Object *objAt(uint64_t A) {
    auto It = Objs.upper_bound(A);
    if (It == Objs.begin())
      return nullptr;
    --It;
    auto &O = It->second;
    return A >= O.Base && A < O.Base + std::max<uint64_t>(O.Size, 1) ? &O
                                                                     : nullptr;
  }
  Object *access(uint64_t A, uint64_t Size) {
    auto *O = objAt(A);
    if (!O || O->Freed || A + Size > O->Base + O->Size || FAddr.count(O->Base))
      throw Stop{};
    return O;
  }
  void setUninit(uint64_t A, uint64_t Size, bool U) {
    for (uint64_t I = 0; I < Size; ++I)
      MU[A - Lo + I] = U;
  }
  Val loadMem(uint64_t A, uint64_t Size) {
    access(A, Size);
    if (Size > 8)
      throw Stop{};
    Val V;
    for (uint64_t I = 0; I < Size; ++I) {
      V.B |= uint64_t(Mem[A - Lo + I]) << (8 * I);
      V.T |= MT[A - Lo + I];
      V.U |= MU[A - Lo + I];
    }
    return V;
  }
  void storeMem(uint64_t A, uint64_t Size, Val V) {
    access(A, Size);
    if (Size > 8)
      throw Stop{};
    for (uint64_t I = 0; I < Size; ++I) {
      Mem[A - Lo + I] = uint8_t(V.B >> (8 * I));
      MT[A - Lo + I] = V.T;
      MU[A - Lo + I] = V.U;
    }
  }

  static uint64_t trunc(uint64_t B, unsigned W) {
    return W >= 64 ? B : B & ((1ull << W) - 1);
  }
  static int64_t sext(uint64_t B, unsigned W) {
    return W >= 64 ? (int64_t)B : (int64_t)(B << (64 - W)) >> (64 - W);
  }
  static unsigned width(llvm::Type *T) {
    return T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
  }

  Val constant(const llvm::Constant *K) {
    if (auto *I = llvm::dyn_cast<llvm::ConstantInt>(K))
      return {I->getBitWidth() > 64 ? 0 : I->getZExtValue()};
    if (llvm::isa<llvm::ConstantPointerNull>(K))
      return {};
    if (auto *FP = llvm::dyn_cast<llvm::ConstantFP>(K))
      return {FP->getValueAPF().bitcastToAPInt().getLimitedValue()};
    if (llvm::isa<llvm::UndefValue>(K))
      return {0, 0, true};
    if (auto *A = llvm::dyn_cast<llvm::GlobalAlias>(K))
      return constant(A->getAliasee());
    if (auto It = GAddr.find(K); It != GAddr.end())
      return {It->second};
    if (auto *E = llvm::dyn_cast<llvm::ConstantExpr>(K)) {
      switch (E->getOpcode()) {
      case llvm::Instruction::BitCast:
      case llvm::Instruction::IntToPtr:
      case llvm::Instruction::PtrToInt:
        return constant(E->getOperand(0));
      case llvm::Instruction::GetElementPtr: {
        auto *G = llvm::cast<llvm::GEPOperator>(E);
        llvm::APInt Off(DL.getIndexTypeSizeInBits(G->getType()), 0);
        if (!G->accumulateConstantOffset(DL, Off))
          throw Stop{};
        Val V = constant(E->getOperand(0));
        V.B += Off.getSExtValue();
        return V;
      }
      case llvm::Instruction::Sub: {
        Val A = constant(E->getOperand(0)), B = constant(E->getOperand(1));
        return {A.B - B.B};
      }
      default:
        throw Stop{};
      }
    }
    if (K->isZeroValue())
      return {};
    throw Stop{};
  }
  void init(uint64_t Off, const llvm::Constant *K) {
    auto *T = K->getType();
    if (auto *S = llvm::dyn_cast<llvm::StructType>(T)) {
      if (K->isZeroValue() || llvm::isa<llvm::UndefValue>(K))
        return;
      auto *L = DL.getStructLayout(S);
      for (unsigned I = 0; I < S->getNumElements(); ++I)
        init(Off + L->getElementOffset(I), K->getAggregateElement(I));
      return;
    }
    if (auto *A = llvm::dyn_cast<llvm::ArrayType>(T)) {
      if (K->isZeroValue() || llvm::isa<llvm::UndefValue>(K))
        return;
      uint64_t ES = DL.getTypeAllocSize(A->getElementType());
      for (unsigned I = 0; I < A->getNumElements(); ++I)
        init(Off + I * ES, K->getAggregateElement(I));
      return;
    }
    if (!T->isIntegerTy() && !T->isPointerTy())
      return;
    Val V = constant(K);
    storeMem(Off + Lo, DL.getTypeStoreSize(T), V);
  }

  Val get(Frame &F, const llvm::Value *V) {
    if (auto *K = llvm::dyn_cast<llvm::Constant>(V))
      return constant(K);
    auto It = F.R.find(V);
    if (It == F.R.end())
      throw Stop{};
    return It->second;
  }

  uint64_t gep(Frame &F, const llvm::GEPOperator *G, Val &Out) {
    Val Base = get(F, G->getPointerOperand());
    uint64_t A = Base.B;
    Out.T |= Base.T;
    Out.U |= Base.U;
    for (auto TI = llvm::gep_type_begin(G), E = llvm::gep_type_end(G); TI != E;
         ++TI) {
      if (auto *S = TI.getStructTypeOrNull()) {
        unsigned Ix =
            llvm::cast<llvm::ConstantInt>(TI.getOperand())->getZExtValue();
        A += DL.getStructLayout(S)->getElementOffset(Ix);
      } else {
        Val Ix = get(F, TI.getOperand());
        Out.U |= Ix.U;
        A += DL.getTypeAllocSize(TI.getIndexedType()) *
             (uint64_t)sext(Ix.B, width(TI.getOperand()->getType()));
      }
    }
    return A;
  }

  Val run(const llvm::Function *Fn, std::vector<Val> Args,
          Frame *Caller = nullptr, Inst CS = nullptr) {
    if (Depth >= MaxDepth)
      throw Stop{};
    struct DepthGuard {
      Machine &M;
      Frame &F;
      DepthGuard(Machine &M, Frame &F) : M(M), F(F) { ++M.Depth; }
      ~DepthGuard() {
        --M.Depth;
        for (auto A : F.Objs)
          M.Objs[A].Freed = true;
      }
    };
    Frame F;
    DepthGuard DG{*this, F};
    F.F = Fn;
    F.CallSite = CS;
    F.Caller = Caller;
    F.Act = NextAct++;
    unsigned K = 0;
    for (auto &A : Fn->args())
      F.R[&A] = K < Args.size() ? Args[K++] : Val{};
    const llvm::BasicBlock *BB = &Fn->getEntryBlock(), *Prev = nullptr;
    while (true) {
      // phis read simultaneously
      std::vector<std::pair<const llvm::PHINode *, Val>> Phis;
      auto It = BB->begin();
      for (; llvm::isa<llvm::PHINode>(*It); ++It) {
        auto *P = llvm::cast<llvm::PHINode>(&*It);
        Phis.push_back({P, get(F, P->getIncomingValueForBlock(Prev))});
      }
      for (auto &[P, V] : Phis) {
        step(F, P);
        F.R[P] = V;
        if (AfterInst)
          AfterInst(F, P);
      }
      const llvm::BasicBlock *Next = nullptr;
      for (; It != BB->end(); ++It) {
        const llvm::Instruction *I = &*It;
        if (llvm::isa<llvm::DbgInfoIntrinsic>(I))
          continue;
        step(F, I);
        if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(I)) {
          Val V;
          if (R->getReturnValue())
            V = get(F, R->getReturnValue());
          if (OnReturn)
            OnReturn(F, I, R->getReturnValue() ? &V : nullptr);
          return V;
        }
        if (llvm::isa<llvm::ResumeInst>(I)) {
          if (OnReturn)
            OnReturn(F, I, nullptr);
          throw Throw{};
        }
        if (llvm::isa<llvm::UnreachableInst>(I))
          throw Stop{};
        if (auto *B = llvm::dyn_cast<llvm::BranchInst>(I)) {
          Next = B->getSuccessor(
              B->isConditional() ? !(get(F, B->getCondition()).B & 1) : 0);
          break;
        }
        if (auto *S = llvm::dyn_cast<llvm::SwitchInst>(I)) {
          Val C = get(F, S->getCondition());
          Next = S->getDefaultDest();
          for (auto &Cs : S->cases())
            if (Cs.getCaseValue()->getZExtValue() == C.B)
              Next = Cs.getCaseSuccessor();
          break;
        }
        if (auto *Inv = llvm::dyn_cast<llvm::InvokeInst>(I)) {
          try {
            call(F, Inv);
            Next = Inv->getNormalDest();
          } catch (Throw &) {
            Next = Inv->getUnwindDest();
          }
          break;
        }
        if (I->isTerminator())
          throw Stop{};
        exec(F, I);
        if (AfterInst)
          AfterInst(F, I);
      }
      Prev = BB;
      BB = Next;
    }
  }

private:
  uint64_t Top = 0;

  void step(Frame &F, Inst I) {
    if (++Steps > MaxSteps)
      throw Stop{};
    F.Cur = I;
    if (OnInst)
      OnInst(F, I);
  }

  void call(Frame &F, const llvm::CallBase *C) {
    if (auto *MI = llvm::dyn_cast<llvm::MemIntrinsic>(C)) {
      Val D = get(F, MI->getRawDest()), N = get(F, MI->getLength());
      if (N.B == 0)
        return;
      access(D.B, N.B);
      if (OnAccess)
        OnAccess(F, C, D.B, N.B, true);
      if (auto *MS = llvm::dyn_cast<llvm::MemSetInst>(MI)) {
        Val V = get(F, MS->getValue());
        for (uint64_t K = 0; K < N.B; ++K)
          storeMem(D.B + K, 1, V);
      } else {
        auto *MC = llvm::cast<llvm::MemTransferInst>(MI);
        Val S = get(F, MC->getRawSource());
        access(S.B, N.B);
        if (OnAccess)
          OnAccess(F, C, S.B, N.B, false);
        std::vector<Val> Tmp;
        for (uint64_t K = 0; K < N.B; ++K)
          Tmp.push_back(loadMem(S.B + K, 1));
        for (uint64_t K = 0; K < N.B; ++K)
          storeMem(D.B + K, 1, Tmp[K]);
      }
      return;
    }
    if (auto *WO = llvm::dyn_cast<llvm::BinaryOpIntrinsic>(C)) {
      Val X = get(F, WO->getLHS()), Y = get(F, WO->getRHS()), R;
      unsigned W = width(WO->getLHS()->getType());
      R.T = X.T | Y.T;
      R.U = X.U || Y.U;
      switch (WO->getBinaryOp()) {
      case llvm::Instruction::Add: R.B = X.B + Y.B; break;
      case llvm::Instruction::Sub: R.B = X.B - Y.B; break;
      case llvm::Instruction::Mul: R.B = X.B * Y.B; break;
      default: throw Stop{};
      }
      R.B = trunc(R.B, W);
      F.R[C] = R; // of an aggregate: the first member
      return;
    }
    if (auto *Cal = C->getCalledFunction(); Cal && Cal->isIntrinsic())
      return;
    std::vector<Val> Args;
    for (auto &A : C->args())
      Args.push_back(get(F, A.get()));
    Val FP = get(F, C->getCalledOperand());
    auto It = FAddr.find(FP.B);
    if (It == FAddr.end() || FP.U)
      throw Stop{};
    const llvm::Function *Fn = It->second;
    if (OnCall)
      OnCall(F, C, Fn);
    Val R;
    if (!Fn->isDeclaration())
      R = run(Fn, std::move(Args), &F, C);
    else if (Extern)
      R = Extern(F, C, Fn, Args);
    if (!C->getType()->isVoidTy()) {
      if (C->getType()->isIntegerTy())
        R.B = trunc(R.B, width(C->getType()));
      F.R[C] = R;
    }
  }

  void exec(Frame &F, Inst I) {
    using namespace llvm;
    auto Bin = [&](const Instruction *B) -> Val {
      Val X = get(F, B->getOperand(0)), Y = get(F, B->getOperand(1));
      unsigned W = width(B->getType());
      Val R;
      R.T = X.T | Y.T;
      R.U = X.U || Y.U;
      int64_t SX = sext(X.B, W), SY = sext(Y.B, W);
      switch (B->getOpcode()) {
      case Instruction::Add: R.B = X.B + Y.B; break;
      case Instruction::Sub: R.B = X.B - Y.B; break;
      case Instruction::Mul: R.B = X.B * Y.B; break;
      case Instruction::UDiv: if (!Y.B) throw Stop{}; R.B = X.B / Y.B; break;
      case Instruction::URem: if (!Y.B) throw Stop{}; R.B = X.B % Y.B; break;
      case Instruction::SDiv:
        if (!SY || (SY == -1 && X.B == (1ull << (W - 1)))) throw Stop{};
        R.B = SX / SY; break;
      case Instruction::SRem:
        if (!SY || (SY == -1 && X.B == (1ull << (W - 1)))) throw Stop{};
        R.B = SX % SY; break;
      case Instruction::And: R.B = X.B & Y.B; break;
      case Instruction::Or: R.B = X.B | Y.B; break;
      case Instruction::Xor: R.B = X.B ^ Y.B; break;
      case Instruction::Shl: if (Y.B >= W) throw Stop{}; R.B = X.B << Y.B; break;
      case Instruction::LShr: if (Y.B >= W) throw Stop{}; R.B = X.B >> Y.B; break;
      case Instruction::AShr: if (Y.B >= W) throw Stop{}; R.B = SX >> Y.B; break;
      default: throw Stop{};
      }
      R.B = trunc(R.B, W);
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(B)) {
        // poison: treat as the end of the defined behaviour
        __int128 Full = B->getOpcode() == Instruction::Add   ? (__int128)SX + SY
                        : B->getOpcode() == Instruction::Sub ? (__int128)SX - SY
                        : B->getOpcode() == Instruction::Mul ? (__int128)SX * SY
                                                             : (__int128)sext(R.B, W);
        if (O->hasNoSignedWrap() && Full != sext(R.B, W))
          throw Stop{};
      }
      return R;
    };
    if (auto *A = dyn_cast<AllocaInst>(I)) {
      uint64_t N = 1;
      if (A->isArrayAllocation())
        N = get(F, A->getArraySize()).B;
      if (N > 64)
        throw Stop{};
      uint64_t S = DL.getTypeAllocSize(A->getAllocatedType()) * N;
      uint64_t Ad = alloc(S, A, F.Act);
      setUninit(Ad, S, true);
      F.Objs.push_back(Ad);
      F.R[I] = {Ad};
    } else if (auto *X = dyn_cast<ExtractValueInst>(I);
               X && isa<BinaryOpIntrinsic>(X->getAggregateOperand()) &&
               X->getIndices()[0] == 0) {
      F.R[I] = get(F, X->getAggregateOperand());
    } else if (auto *IV = dyn_cast<InsertValueInst>(I);
               IV && IV->getNumIndices() == 1) {
      // flat aggregates that are built up from constants
      auto *Op = IV->getAggregateOperand();
      std::vector<Val> A;
      if (auto It = F.Agg.find(Op); It != F.Agg.end()) {
        A = It->second;
      } else if (isa<Constant>(Op)) {
        Val E;
        E.U = isa<UndefValue>(Op);
        A.assign(IV->getType()->getStructNumElements(), E);
      } else {
        throw Stop{};
      }
      A[IV->getIndices()[0]] = get(F, IV->getInsertedValueOperand());
      F.Agg[I] = std::move(A);
    } else if (auto *EV = dyn_cast<ExtractValueInst>(I);
               EV && EV->getNumIndices() == 1 &&
               F.Agg.count(EV->getAggregateOperand())) {
      F.R[I] = F.Agg[EV->getAggregateOperand()][EV->getIndices()[0]];
    } else if (auto *L = dyn_cast<LoadInst>(I)) {
      Val P = get(F, L->getPointerOperand());
      uint64_t S = DL.getTypeStoreSize(L->getType());
      access(P.B, S);
      if (OnAccess)
        OnAccess(F, I, P.B, S, false);
      Val V = loadMem(P.B, S);
      V.B = trunc(V.B, width(L->getType()));
      F.R[I] = V;
    } else if (auto *St = dyn_cast<StoreInst>(I)) {
      Val P = get(F, St->getPointerOperand());
      Val V = get(F, St->getValueOperand());
      uint64_t S = DL.getTypeStoreSize(St->getValueOperand()->getType());
      access(P.B, S);
      if (OnAccess)
        OnAccess(F, I, P.B, S, true);
      storeMem(P.B, S, V);
    } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      Val V;
      V.B = gep(F, cast<GEPOperator>(G), V);
      F.R[I] = V;
    } else if (auto *Cs = dyn_cast<CastInst>(I)) {
      Val V = get(F, Cs->getOperand(0));
      if (Cs->getOpcode() == Instruction::SExt)
        V.B = trunc((uint64_t)sext(V.B, width(Cs->getSrcTy())),
                    width(Cs->getDestTy()));
      else
        V.B = trunc(V.B, width(Cs->getDestTy()));
      F.R[I] = V;
    } else if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Val X = get(F, I->getOperand(0)), Y = get(F, I->getOperand(1));
      unsigned W = width(I->getOperand(0)->getType());
      int64_t SX = sext(X.B, W), SY = sext(Y.B, W);
      bool R = false;
      switch (IC->getPredicate()) {
      case CmpInst::ICMP_EQ: R = X.B == Y.B; break;
      case CmpInst::ICMP_NE: R = X.B != Y.B; break;
      case CmpInst::ICMP_UGT: R = X.B > Y.B; break;
      case CmpInst::ICMP_UGE: R = X.B >= Y.B; break;
      case CmpInst::ICMP_ULT: R = X.B < Y.B; break;
      case CmpInst::ICMP_ULE: R = X.B <= Y.B; break;
      case CmpInst::ICMP_SGT: R = SX > SY; break;
      case CmpInst::ICMP_SGE: R = SX >= SY; break;
      case CmpInst::ICMP_SLT: R = SX < SY; break;
      case CmpInst::ICMP_SLE: R = SX <= SY; break;
      default: throw Stop{};
      }
      F.R[I] = {R, X.T | Y.T, X.U || Y.U};
    } else if (auto *Se = dyn_cast<SelectInst>(I)) {
      Val C = get(F, Se->getCondition());
      Val V = get(F, C.B & 1 ? Se->getTrueValue() : Se->getFalseValue());
      F.R[I] = V;
    } else if (isa<BinaryOperator>(I)) {
      F.R[I] = Bin(I);
    } else if (isa<FreezeInst>(I)) {
      F.R[I] = get(F, I->getOperand(0));
    } else if (auto *C = dyn_cast<CallInst>(I)) {
      call(F, C);
    } else if (isa<LandingPadInst>(I)) {
      F.R[I] = {};
    } else {
      throw Stop{};
    }
  }
};
} // namespace interp
