// Random finite IDE/IFDS problems over random LLVM modules, and an independent
// naive reference solution (round-robin fixpoint of the realizable-path
// equations).
#pragma once
#include "pbt.h"

#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "phasar/ControlFlow/CallGraph.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"

#include "llvm/IR/DIBuilder.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>

namespace sg {
using llvm::Instruction;
using Inst = const llvm::Instruction *;
using Fn = const llvm::Function *;

// ---- the value lattice: Top (-1) below subsets of 4 bits; join = union
constexpr int Bits = 4;
constexpr int Full = (1 << Bits) - 1;
struct MaskVal {
  int V = -1; // -1: top
  friend bool operator==(MaskVal A, MaskVal B) noexcept { return A.V == B.V; }
  friend bool operator!=(MaskVal A, MaskVal B) noexcept { return A.V != B.V; }
  friend bool operator<(MaskVal A, MaskVal B) noexcept { return A.V < B.V; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, MaskVal M) {
    return OS << M.V;
  }
};
inline MaskVal joinMask(MaskVal A, MaskVal B) {
  if (A.V < 0)
    return B;
  if (B.V < 0)
    return A;
  return {A.V | B.V};
}
// x -> (x & A) | B, strict in top
struct GKMask {
  int A = Full, B = 0;
  GKMask norm() const { return {A & ~B, B}; }
  MaskVal apply(MaskVal V) const {
    return V.V < 0 ? V : MaskVal{(V.V & A) | B};
  }
  friend bool operator==(GKMask X, GKMask Y) {
    return X.A == Y.A && X.B == Y.B;
  }
};
inline GKMask thenMask(GKMask F, GKMask S) {
  return GKMask{F.A & S.A, (F.B & S.A) | S.B}.norm();
}
inline GKMask joinGK(GKMask F, GKMask S) {
  return GKMask{(F.A | F.B) | (S.A | S.B), F.B | S.B}.norm();
}
} // namespace sg

namespace psr {
template <> struct JoinLatticeTraits<sg::MaskVal> {
  static constexpr sg::MaskVal top() { return {-1}; }
  static constexpr sg::MaskVal bottom() { return {sg::Full}; }
  static sg::MaskVal join(sg::MaskVal A, sg::MaskVal B) {
    return sg::joinMask(A, B);
  }
};
} // namespace psr

namespace sg {
using psr::EdgeFunction;
using psr::EdgeFunctionRef;

inline EdgeFunction<MaskVal> mkEF(GKMask M, bool Heap);
inline bool unGK(const EdgeFunction<MaskVal> &E, GKMask &Out, bool &Heap);

template <int Pad> struct GKEF {
  using l_t = MaskVal;
  GKMask M;
  char P[Pad] = {};
  MaskVal computeTarget(MaskVal S) const { return M.apply(S); }
  static EdgeFunction<MaskVal> compose(EdgeFunctionRef<GKEF> This,
                                       const EdgeFunction<MaskVal> &Second) {
    GKMask O;
    bool H = Pad > 8;
    if (!unGK(Second, O, H))
      return nullptr;
    return mkEF(thenMask(This->M, O), Pad > 8);
  }
  static EdgeFunction<MaskVal> join(EdgeFunctionRef<GKEF> This,
                                    const EdgeFunction<MaskVal> &Other) {
    if (llvm::isa<psr::AllTop<MaskVal>>(Other))
      return This;
    GKMask O;
    bool H = Pad > 8;
    if (!unGK(Other, O, H))
      return nullptr;
    return mkEF(joinGK(This->M, O), Pad > 8);
  }
  friend bool operator==(const GKEF &X, const GKEF &Y) noexcept {
    return X.M == Y.M;
  }
};
using GKSmall = GKEF<1>; // note: 12 bytes, still heap allocated
struct GKPacked {        // small object optimised
  using l_t = MaskVal;
  unsigned char A, B;
  MaskVal computeTarget(MaskVal S) const { return GKMask{A, B}.apply(S); }
  static EdgeFunction<MaskVal> compose(EdgeFunctionRef<GKPacked> This,
                                       const EdgeFunction<MaskVal> &Second) {
    GKMask O;
    bool H;
    if (!unGK(Second, O, H))
      return nullptr;
    return mkEF(thenMask({This->A, This->B}, O), false);
  }
  static EdgeFunction<MaskVal> join(EdgeFunctionRef<GKPacked> This,
                                    const EdgeFunction<MaskVal> &Other) {
    if (llvm::isa<psr::AllTop<MaskVal>>(Other))
      return This;
    GKMask O;
    bool H;
    if (!unGK(Other, O, H))
      return nullptr;
    return mkEF(joinGK({This->A, This->B}, O), false);
  }
  friend bool operator==(GKPacked X, GKPacked Y) noexcept {
    return X.A == Y.A && X.B == Y.B;
  }
};
using GKHeap = GKEF<24>;
inline EdgeFunction<MaskVal> mkEF(GKMask M, bool Heap) {
  M = M.norm();
  if (M == GKMask{})
    return psr::EdgeIdentity<MaskVal>{};
  if (Heap)
    return GKHeap{M, {}};
  return GKPacked{(unsigned char)M.A, (unsigned char)M.B};
}
inline bool unGK(const EdgeFunction<MaskVal> &E, GKMask &Out, bool &Heap) {
  if (llvm::isa<psr::EdgeIdentity<MaskVal>>(E)) {
    Out = {};
    return true;
  }
  if (auto *P = llvm::dyn_cast<GKPacked>(E)) {
    Out = {P->A, P->B};
    return true;
  }
  if (auto *P = llvm::dyn_cast<GKHeap>(E)) {
    Out = P->M;
    Heap = true;
    return true;
  }
  return false;
}

// ---- one relation (flow function) with edge functions
struct Rel {
  std::map<int, std::map<int, GKMask>> R; // d -> d' -> ef
  const std::map<int, GKMask> &at(int D) const {
    static const std::map<int, GKMask> Empty;
    auto It = R.find(D);
    return It == R.end() ? Empty : It->second;
  }
};

struct Options {
  bool Values = true;    // generate non-identity edge functions
  bool Summaries = true; // special summaries
  bool KillZero = false; // only with autoAddZero off
  unsigned MaxFuns = 4, MaxBlocks = 4, MaxInsts = 3, MaxFacts = 4;
  bool SingleSeedFn = false;
  bool Dbg = true; // debug intrinsics, which are no statements of the CFG
  bool Acyclic = false;    // no loops; calls only to later functions
  bool Unbalanced = false; // mostly acyclic calls, seeds in the last function
  bool MidSeeds = true;    // seeds that are no start points
};

struct Prog {
  llvm::LLVMContext Ctx;
  std::unique_ptr<psr::LLVMProjectIRDB> IRDB;
  std::vector<llvm::Function *> Funs; // with bodies
  std::vector<llvm::Function *> Decls;
  std::map<Inst, std::vector<Fn>> Callees;
  std::unique_ptr<psr::LLVMBasedICFG> ICF;

  // structure, from LLVM
  std::map<Fn, std::vector<Inst>> Insts, Exits;
  std::map<Inst, std::vector<Inst>> Succs;
  std::map<Inst, int> Id;

  // problem
  int D = 1; // facts 0..D, 0 is zero
  bool AutoAddZero = true;
  bool HeapEF = false;
  std::map<std::pair<Inst, Inst>, Rel> Normal, CTR, Sum;
  std::map<std::pair<Inst, Fn>, Rel> Call;
  std::map<std::tuple<Inst, Fn, Inst, Inst>, Rel> Ret;
  std::set<std::pair<Inst, Fn>> HasSum;
  std::map<std::pair<Inst, Fn>, std::map<int, std::set<int>>> SumFlow;
  std::map<Inst, std::map<int, MaskVal>> Seeds;

  std::string dump() const {
    std::string S;
    llvm::raw_string_ostream OS(S);
    auto PR = [&](const Rel &R) {
      for (auto &[A, M] : R.R) {
        OS << " " << A << "->{";
        for (auto &[B, E] : M) {
          OS << " " << B;
          if (!(E == GKMask{}))
            OS << "[&" << E.A << "|" << E.B << "]";
        }
        OS << " }";
      }
      OS << "\n";
    };
    OS << "facts 0.." << D << " autoAddZero=" << AutoAddZero << "\n";
    for (auto *F : Funs) {
      OS << F->getName() << ":\n";
      for (auto *I : Insts.at(F)) {
        OS << "  n" << Id.at(I) << " [" << I->getParent()->getName() << "] "
           << I->getOpcodeName();
        auto CI = Callees.find(I);
        if (CI != Callees.end())
          for (auto *C : CI->second) {
            OS << " @" << C->getName();
            if (HasSum.count({I, C})) {
              OS << "(summary:";
              for (auto &[A, M] : SumFlow.at({I, C})) {
                OS << " " << A << "->{";
                for (int B : M)
                  OS << " " << B;
                OS << "}";
              }
              OS << ")";
            }
          }
        OS << " -> ";
        for (auto *T : Succs.at(I))
          OS << "n" << Id.at(T) << " ";
        OS << "\n";
        auto SI = Seeds.find(I);
        if (SI != Seeds.end())
          for (auto &[A, V] : SI->second)
            OS << "    seed " << A << " = " << V.V << "\n";
        for (auto &[K, R] : Normal)
          if (K.first == I) {
            OS << "    normal n" << Id.at(K.second) << ":";
            PR(R);
          }
        for (auto &[K, R] : CTR)
          if (K.first == I) {
            OS << "    ctr n" << Id.at(K.second) << ":";
            PR(R);
          }
        for (auto &[K, R] : Call)
          if (K.first == I) {
            OS << "    call " << K.second->getName() << ":";
            PR(R);
          }
        for (auto &[K, R] : Ret)
          if (std::get<0>(K) == I) {
            OS << "    ret " << std::get<1>(K)->getName() << " exit n"
               << Id.at(std::get<2>(K)) << " to n" << Id.at(std::get<3>(K))
               << ":";
            PR(R);
          }
      }
    }
    return S;
  }
};

inline Rel genRel(pbt::Ctx &C, int D, bool Values, bool ZeroStays) {
  Rel R;
  auto Id = [&] {
    for (int I = 0; I <= D; ++I)
      R.R[I][I];
  };
  switch (C.weighted({8, 4, 3, 4, 2, 3})) {
  case 0:
    Id();
    break;
  case 1: // generate from zero
    Id();
    R.R[0][1 + C.draw(D)];
    break;
  case 2: // kill
    Id();
    R.R.erase(1 + C.draw(D));
    break;
  case 3: { // copy
    Id();
    int S = 1 + C.draw(D);
    R.R[S][1 + C.draw(D)];
    break;
  }
  case 4: // kill all but zero
    R.R[0][0];
    break;
  case 5:
    for (int I = 0; I <= D; ++I)
      for (int J = 0; J <= D; ++J)
        if ((I || !J || true) && C.chance(1, 3))
          if (J != 0 || I == 0)
            R.R[I][J];
    break;
  }
  if (ZeroStays)
    R.R[0][0];
  if (Values && C.chance(1, 2))
    for (auto &[S, M] : R.R)
      for (auto &[T, E] : M)
        if (!(S == 0 && T == 0) && C.chance(1, 3))
          E = GKMask{(int)C.draw(Full + 1), (int)C.draw(Full + 1)}.norm();
  return R;
}

inline Inst skipDbg(Inst I) {
  while (llvm::isa<llvm::DbgInfoIntrinsic>(I))
    I = I->getNextNode();
  return I;
}

inline void buildStructure(Prog &P) {
  int N = 0;
  for (auto *F : P.Funs)
    for (auto &BB : *F)
      for (auto &I : BB) {
        if (llvm::isa<llvm::DbgInfoIntrinsic>(I))
          continue;
        P.Insts[F].push_back(&I);
        P.Id[&I] = N++;
        auto &S = P.Succs[&I];
        if (I.isTerminator()) {
          for (unsigned K = 0; K < I.getNumSuccessors(); ++K)
            S.push_back(skipDbg(&*I.getSuccessor(K)->begin()));
        } else {
          S.push_back(skipDbg(I.getNextNode()));
        }
        if (llvm::isa<llvm::ReturnInst>(I))
          P.Exits[F].push_back(&I);
      }
}

inline std::unique_ptr<Prog> genProg(pbt::Ctx &C, const Options &O) {
  auto P = std::make_unique<Prog>();
  auto M = std::make_unique<llvm::Module>("m", P->Ctx);
  auto *VoidFn = llvm::FunctionType::get(llvm::Type::getVoidTy(P->Ctx), false);
  auto *I32 = llvm::Type::getInt32Ty(P->Ctx);
  auto *G = new llvm::GlobalVariable(*M, I32, false,
                                     llvm::GlobalValue::ExternalLinkage,
                                     llvm::ConstantInt::get(I32, 0), "g");
  unsigned NF = 1 + C.draw(O.MaxFuns), ND = C.draw(2);
  for (unsigned I = 0; I < NF; ++I)
    P->Funs.push_back(llvm::Function::Create(
        VoidFn, llvm::GlobalValue::ExternalLinkage,
        I == 0 ? "main" : "f" + std::to_string(I), *M));
  for (unsigned I = 0; I < ND; ++I)
    P->Decls.push_back(llvm::Function::Create(
        VoidFn, llvm::GlobalValue::ExternalLinkage, "ext" + std::to_string(I),
        *M));
  auto *Pers = llvm::Function::Create(
      llvm::FunctionType::get(I32, true), llvm::GlobalValue::ExternalLinkage,
      "__gxx_personality_v0", *M);
  std::vector<Inst> Calls;
  auto *IntFn = llvm::FunctionType::get(I32, false);
  auto *ExtI = llvm::Function::Create(
      IntFn, llvm::GlobalValue::ExternalLinkage, "exti", *M);
  bool Dbg = O.Dbg && C.chance(1, 4);
  std::unique_ptr<llvm::DIBuilder> DB;
  llvm::DIFile *File = nullptr;
  llvm::DIBasicType *IntTy = nullptr;
  if (Dbg) {
    M->addModuleFlag(llvm::Module::Warning, "Debug Info Version", 3);
    DB = std::make_unique<llvm::DIBuilder>(*M);
    File = DB->createFile("t.c", "/");
    DB->createCompileUnit(llvm::dwarf::DW_LANG_C, File, "g", false, "", 0);
    IntTy = DB->createBasicType("int", 32, llvm::dwarf::DW_ATE_signed);
  }
  for (auto *F : P->Funs) {
    llvm::DISubprogram *DSP = nullptr;
    llvm::DILocalVariable *DV = nullptr;
    llvm::DebugLoc DL;
    if (Dbg) {
      DSP = DB->createFunction(
          File, F->getName(), F->getName(), File, 1,
          DB->createSubroutineType(DB->getOrCreateTypeArray({nullptr})), 1,
          llvm::DINode::FlagZero, llvm::DISubprogram::SPFlagDefinition);
      F->setSubprogram(DSP);
      DV = DB->createAutoVariable(DSP, "v", File, 2, IntTy);
      DL = llvm::DILocation::get(P->Ctx, 2, 1, DSP);
    }
    auto MaybeDbg = [&](llvm::IRBuilder<> &IB) {
      if (!Dbg)
        return;
      IB.SetCurrentDebugLocation(DL);
      for (unsigned K = C.weighted({3, 2, 1}); K > 0; --K)
        DB->insertDbgValueIntrinsic(llvm::ConstantInt::get(I32, 0), DV,
                                    DB->createExpression(), DL.get(),
                                    IB.GetInsertBlock());
    };
    unsigned NB = 1 + C.draw(O.MaxBlocks);
    std::vector<llvm::BasicBlock *> BBs;
    for (unsigned B = 0; B < NB; ++B)
      BBs.push_back(
          llvm::BasicBlock::Create(P->Ctx, "b" + std::to_string(B), F));
    llvm::BasicBlock *LPad = nullptr;
    unsigned CurB = 0;
    auto Target = [&]() {
      return O.Acyclic ? BBs[CurB + 1 + C.draw(NB - CurB - 1)]
                       : BBs[1 + C.draw(NB - 1)];
    };
    for (unsigned B = 0; B < NB; ++B) {
      CurB = B;
      llvm::IRBuilder<> IB(BBs[B]);
      unsigned NI = C.draw(O.MaxInsts + 1);
      for (unsigned I = 0; I < NI; ++I) {
        MaybeDbg(IB);
        if (C.chance(2, 5)) {
          if (C.chance(1, 4))
            Calls.push_back(IB.CreateCall(IntFn, ExtI));
          else
            Calls.push_back(IB.CreateCall(VoidFn, P->Funs[0]));
        } else if (C.chance(1, 4))
          IB.CreateLoad(I32, G);
        else
          IB.CreateStore(llvm::ConstantInt::get(I32, 1), G);
      }
      MaybeDbg(IB);
      size_t K =
          NB == 1 || (O.Acyclic && B + 1 == NB)
              ? C.weighted({10, 1})
              : (O.Acyclic ? C.weighted({2, 1, 4, 12, 3, 1})
                           : C.weighted({5, 1, 6, 6, 2, 1}));
      switch (K) {
      case 0:
        IB.CreateRetVoid();
        break;
      case 1:
        IB.CreateUnreachable();
        break;
      case 2:
        IB.CreateBr(Target());
        break;
      case 3: {
        auto *T1 = Target();
        IB.CreateCondBr(llvm::UndefValue::get(llvm::Type::getInt1Ty(P->Ctx)),
                        T1, Target());
        break;
      }
      case 4: {
        auto *S = IB.CreateSwitch(llvm::UndefValue::get(I32), Target(), 2);
        S->addCase(llvm::cast<llvm::ConstantInt>(llvm::ConstantInt::get(I32, 0)),
                   Target());
        S->addCase(llvm::cast<llvm::ConstantInt>(llvm::ConstantInt::get(I32, 1)),
                   Target());
        break;
      }
      case 5: {
        if (!LPad) {
          F->setPersonalityFn(Pers);
          LPad = llvm::BasicBlock::Create(P->Ctx, "lpad", F);
          llvm::IRBuilder<> LB(LPad);
          auto *LP = LB.CreateLandingPad(
              llvm::StructType::get(llvm::Type::getInt8PtrTy(P->Ctx), I32), 0);
          LP->setCleanup(true);
          MaybeDbg(LB);
          LB.CreateStore(llvm::ConstantInt::get(I32, 2), G);
          LB.CreateBr(BBs[NB - 1]);
        }
        if (C.chance(1, 3)) {
          Calls.push_back(IB.CreateInvoke(IntFn, ExtI, Target(), LPad));
        } else
          Calls.push_back(IB.CreateInvoke(VoidFn, P->Funs[0], Target(), LPad));
        break;
      }
      }
    }
  }
  if (Dbg)
    DB->finalize();
  if (llvm::verifyModule(*M, &llvm::errs()))
    abort();
  P->IRDB = std::make_unique<psr::LLVMProjectIRDB>(std::move(M));
  buildStructure(*P);
  // call graph
  psr::CallGraphBuilder<Inst, Fn> CGB;
  std::vector<Fn> All(P->Funs.begin(), P->Funs.end());
  All.insert(All.end(), P->Decls.begin(), P->Decls.end());
  CGB.reserve(All.size() + 1);
  for (auto *F : All)
    (void)CGB.addFunctionVertex(F);
  for (auto *CS : Calls) {
    unsigned NC = 1 + C.weighted({6, 2, 1});
    if (C.chance(1, 12))
      NC = 0;
    auto &Cs = P->Callees[CS];
    for (unsigned I = 0; I < NC; ++I) {
      Fn T = All[C.draw(All.size())];
      if (O.Unbalanced && !C.chance(1, 8)) {
        size_t Own = std::find(All.begin(), All.end(), CS->getFunction()) -
                     All.begin();
        if (Own + 1 >= All.size())
          continue;
        T = All[Own + 1 + C.draw(All.size() - Own - 1)];
      }
      if (O.Acyclic) {
        size_t Own = std::find(All.begin(), All.end(), CS->getFunction()) -
                     All.begin();
        if (Own + 1 >= All.size())
          continue;
        T = All[Own + 1 + C.draw(All.size() - Own - 1)];
      }
      if (std::find(Cs.begin(), Cs.end(), T) == Cs.end()) {
        Cs.push_back(T);
        CGB.addCallEdge(CS, T);
      }
    }
    if (Cs.empty())
      (void)CGB.addInstructionVertex(CS);
  }
  P->ICF =
      std::make_unique<psr::LLVMBasedICFG>(CGB.consumeCallGraph(), P->IRDB.get());

  // the problem
  P->D = 1 + C.draw(O.MaxFacts);
  P->AutoAddZero = !O.Acyclic && !C.chance(1, 4);
  P->HeapEF = C.flip();
  bool ZS = P->AutoAddZero || !O.KillZero || C.flip();
  for (auto *F : P->Funs)
    for (auto *I : P->Insts[F]) {
      std::set<Inst> Ss(P->Succs[I].begin(), P->Succs[I].end());
      std::vector<Inst> SV;
      for (auto *S : P->Succs[I])
        if (Ss.erase(S))
          SV.push_back(S);
      bool IsCall = P->Callees.count(I);
      for (auto *S : SV) {
        auto R = genRel(C, P->D, O.Values, ZS);
        (IsCall ? P->CTR : P->Normal)[{I, S}] = R;
      }
      if (!IsCall)
        continue;
      for (auto *T : P->Callees[I]) {
        if (O.Summaries && C.chance(1, 6)) {
          P->HasSum.insert({I, T});
          P->SumFlow[{I, T}];
          auto R = genRel(C, P->D, false, ZS);
          for (auto &[A, Mp] : R.R)
            for (auto &[B, E] : Mp)
              P->SumFlow[{I, T}][A].insert(B);
        }
        // also for summarised callees: it must then not be followed
        P->Call[{I, T}] = genRel(C, P->D, O.Values, ZS);
        for (auto *E : P->Exits[T])
          for (auto *S : SV)
            P->Ret[{I, T, E, S}] = genRel(C, P->D, O.Values, ZS);
      }
      // summary edge functions: per call, return site and pair of facts
      for (auto *S : SV) {
        Rel R;
        if (O.Values && O.Summaries && !P->HasSum.empty() &&
            std::prev(P->HasSum.end())->first && C.chance(1, 2))
          for (int A = 0; A <= P->D; ++A)
            for (int B = 1; B <= P->D; ++B)
              if (C.chance(1, 4))
                R.R[A][B] =
                    GKMask{(int)C.draw(Full + 1), (int)C.draw(Full + 1)}.norm();
        P->Sum[{I, S}] = R;
      }
    }
  // seeds at start points
  unsigned NS = O.SingleSeedFn ? 1 : 1 + C.weighted({5, 2, 1});
  for (unsigned I = 0; I < NS; ++I) {
    auto *F = I == 0 ? (O.Unbalanced ? P->Funs.back() : P->Funs[0])
                     : P->Funs[C.draw(P->Funs.size())];
    Inst SP = P->Insts[F].front();
    if (O.MidSeeds && !O.Unbalanced && C.chance(1, 5))
      SP = C.pick(P->Insts[F]);
    P->Seeds[SP][0] = MaskVal{Full};
    unsigned K = C.weighted({4, 3, 1});
    for (unsigned J = 0; J < K; ++J)
      P->Seeds[SP][1 + C.draw(P->D)] =
          MaskVal{O.Values ? (int)C.draw(Full + 1) : Full};
  }
  return P;
}

// ---- reference
using Solution = std::map<std::pair<Inst, int>, MaskVal>;

struct RefStats {
  int Recursive = 0, MultiCallee = 0, FactsNonZero = 0, CallsReached = 0,
      NonFull = 0, Sums = 0;
};

/// Unb: returns past the seeds are followed; *Unb becomes 1 if there was one
/// and -1 if the outcome depends on the order of processing.
inline Solution reference(const Prog &P, bool Values, RefStats *St = nullptr,
                          int *Unb = nullptr) {
  std::set<std::pair<Fn, int>> Incoming, UnbDone;
  // J[start fact of f][n][d]
  std::map<Fn, std::map<int, std::map<Inst, std::map<int, GKMask>>>> J;
  bool Changed = true;
  auto Add = [&](Fn F, int D1, Inst N, int D2, GKMask E) {
    auto &M = J[F][D1][N];
    auto It = M.find(D2);
    if (It == M.end()) {
      M[D2] = E;
      Changed = true;
    } else {
      auto N2 = joinGK(It->second, E);
      if (!(N2 == It->second)) {
        It->second = N2;
        Changed = true;
      }
    }
  };
  auto Z = [&](const std::map<int, GKMask> &M, int D) {
    auto R = M;
    if (P.AutoAddZero && D == 0)
      R.try_emplace(0, GKMask{});
    return R;
  };
  for (auto &[N, Fs] : P.Seeds)
    for (auto &[D, V] : Fs)
      Add(N->getFunction(), D, N, D, GKMask{});
  while (Changed) {
    Changed = false;
    auto Snap = J;
    for (auto &[F, A] : Snap)
      for (auto &[D1, B] : A)
        for (auto &[N, Mp] : B)
          for (auto &[D2, E] : Mp) {
            auto CI = P.Callees.find(N);
            if (Unb && llvm::isa<llvm::ReturnInst>(N) &&
                (!Incoming.count({F, D1}) || UnbDone.count({F, D1}))) {
              UnbDone.insert({F, D1});
              for (auto &[CS, Cs] : P.Callees)
                if (std::find(Cs.begin(), Cs.end(), F) != Cs.end())
                  for (auto *S : P.Succs.at(CS))
                    for (auto &[D5, E4] : Z(P.Ret.at({CS, F, N, S}).at(D2), D2)) {
                      *Unb = 1;
                      UnbDone.insert({CS->getFunction(), 0});
                      Add(CS->getFunction(), 0, S, D5, thenMask(E, E4));
                    }
            }
            if (CI == P.Callees.end()) {
              for (auto *S : P.Succs.at(N))
                for (auto &[D3, E2] : Z(P.Normal.at({N, S}).at(D2), D2))
                  Add(F, D1, S, D3, thenMask(E, E2));
              continue;
            }
            for (auto *S : P.Succs.at(N)) {
              for (auto &[D3, E2] : Z(P.CTR.at({N, S}).at(D2), D2))
                Add(F, D1, S, D3, thenMask(E, E2));
            }
            for (auto *T : CI->second) {
              if (P.HasSum.count({N, T})) {
                if (St)
                  St->Sums = 1;
                for (auto *S : P.Succs.at(N)) {
                  std::set<int> Ts;
                  auto &SF = P.SumFlow.at({N, T});
                  if (SF.count(D2))
                    Ts = SF.at(D2);
                  if (P.AutoAddZero && D2 == 0)
                    Ts.insert(0);
                  for (int D3 : Ts) {
                    auto &Row = P.Sum.at({N, S}).at(D2);
                    auto It = Row.find(D3);
                    Add(F, D1, S, D3,
                        thenMask(E, It == Row.end() ? GKMask{} : It->second));
                  }
                }
                continue;
              }
              if (T->isDeclaration())
                continue;
              Inst SP = P.Insts.at(T).front();
              for (auto &[D3, E2] : Z(P.Call.at({N, T}).at(D2), D2)) {
                Add(T, D3, SP, D3, GKMask{});
                Changed |= Incoming.insert({T, D3}).second;
                if (!P.Exits.count(T))
                  continue;
                for (auto *X : P.Exits.at(T)) {
                  auto &AtX = J[T][D3][X];
                  auto Copy = AtX;
                  for (auto &[D4, E3] : Copy)
                    for (auto *S : P.Succs.at(N))
                      for (auto &[D5, E4] :
                           Z(P.Ret.at({N, T, X, S}).at(D4), D4))
                        Add(F, D1, S, D5,
                            thenMask(E, thenMask(E2, thenMask(E3, E4))));
                }
              }
            }
          }
  }
  if (Unb)
    for (auto &[N, Fs] : P.Seeds)
      for (auto &[D, V] : Fs)
        UnbDone.insert({N->getFunction(), D});
  for (auto &K : UnbDone)
    if (Incoming.count(K))
      *Unb = -1;
  // phase II
  // V: values of the facts functions start with. Seeds in the middle of a
  // function add to them, except at the start of the function itself (only
  // if it is a call, the values there are joined as well)
  std::map<Fn, std::map<int, MaskVal>> V, AtStart;
  for (auto &[N, Fs] : P.Seeds)
    for (auto &[D, X] : Fs) {
      auto *F = N->getFunction();
      V[F][D] = joinMask(V[F][D], X);
      if (N == P.Insts.at(F).front())
        AtStart[F][D] = joinMask(AtStart[F][D], X);
    }
  Changed = true;
  while (Changed) {
    Changed = false;
    auto Snap = V;
    for (auto &[F, A] : Snap)
      for (auto &[D1, X] : A) {
        if (X.V < 0)
          continue;
        auto JF = J.find(F);
        if (JF == J.end() || !JF->second.count(D1))
          continue;
        for (auto &[N, Mp] : JF->second[D1]) {
          auto CI = P.Callees.find(N);
          if (CI == P.Callees.end())
            continue;
          for (auto &[D2, E] : Mp)
            for (auto *T : CI->second) {
              if (P.HasSum.count({N, T}) || T->isDeclaration())
                continue;
              for (auto &[D3, E2] : Z(P.Call.at({N, T}).at(D2), D2)) {
                auto &Cell = V[T][D3];
                auto XV = E2.apply(E.apply(X));
                AtStart[T][D3] = joinMask(AtStart[T][D3], XV);
                auto NV = joinMask(Cell, XV);
                if (NV != Cell) {
                  Cell = NV;
                  Changed = true;
                }
              }
            }
        }
      }
  }
  Solution R;
  for (auto &[F, A] : J)
    for (auto &[D1, B] : A)
      for (auto &[N, Mp] : B)
        for (auto &[D2, E] : Mp) {
          bool Start = N == P.Insts.at(F).front() && !P.Callees.count(N);
          auto X = E.apply(Start ? AtStart[F][D1] : V[F][D1]);
          auto &Cell = R[{N, D2}];
          Cell = joinMask(Cell, X);
          if (St) {
            St->FactsNonZero += D2 != 0;
            if (D2 && Cell.V >= 0 && Cell.V != Full)
              St->NonFull++;
            if (P.Callees.count(N)) {
              St->CallsReached++;
              St->MultiCallee += P.Callees.at(N).size() > 1;
              for (auto *T : P.Callees.at(N))
                St->Recursive += T == F;
            }
          }
        }
  if (!Values)
    for (auto &[K, X] : R)
      X = MaskVal{Full};
  return R;
}

// ---- the phasar problem
struct IntDomain : psr::LLVMAnalysisDomainDefault {
  using d_t = int;
  using l_t = MaskVal;
};

using SetT = std::set<int>;
template <typename FFs> struct RelFlow {
  static auto make(const std::map<int, std::set<int>> &) {}
};

struct TabFlow : psr::FlowFunction<int> {
  const Rel *R;
  explicit TabFlow(const Rel *R) : R(R) {}
  std::set<int> computeTargets(int S) override {
    std::set<int> O;
    for (auto &[T, E] : R->at(S))
      O.insert(T);
    return O;
  }
};
struct SumTabFlow : psr::FlowFunction<int> {
  const std::map<int, std::set<int>> *R;
  explicit SumTabFlow(const std::map<int, std::set<int>> *R) : R(R) {}
  std::set<int> computeTargets(int S) override {
    auto It = R->find(S);
    return It == R->end() ? std::set<int>{} : It->second;
  }
};

template <typename Base> struct ProblemFlows : Base {
  const Prog &P;
  uint64_t Queries = 0;
  std::function<void()> OnQuery;
  void q() {
    ++Queries;
    if (OnQuery)
      OnQuery();
  }
  using FFP = typename Base::FlowFunctionPtrType;
  template <typename... A>
  ProblemFlows(const Prog &P, A &&...Args)
      : Base(std::forward<A>(Args)...), P(P) {
    this->getIFDSIDESolverConfig().setAutoAddZero(P.AutoAddZero);
  }
  FFP getNormalFlowFunction(Inst N, Inst S) override {
    q();
    return std::make_shared<TabFlow>(&P.Normal.at({N, S}));
  }
  FFP getCallFlowFunction(Inst N, Fn F) override {
    q();
    static const Rel None;
    if (F->isDeclaration()) // flow into a declaration is never followed
      return std::make_shared<TabFlow>(&None);
    return std::make_shared<TabFlow>(&P.Call.at({N, F}));
  }
  FFP getRetFlowFunction(Inst N, Fn F, Inst X, Inst S) override {
    q();
    return std::make_shared<TabFlow>(&P.Ret.at({N, F, X, S}));
  }
  FFP getCallToRetFlowFunction(Inst N, Inst S, llvm::ArrayRef<Fn> Cs) override {
    q();
    return std::make_shared<TabFlow>(&P.CTR.at({N, S}));
  }
  FFP getSummaryFlowFunction(Inst N, Fn F) override {
    if (!P.HasSum.count({N, F}))
      return nullptr;
    return std::make_shared<SumTabFlow>(&P.SumFlow.at({N, F}));
  }
  bool isZeroValue(int D) const noexcept override { return D == 0; }
};

struct IDEProb : ProblemFlows<psr::IDETabulationProblem<IntDomain>> {
  using EF = EdgeFunction<MaskVal>;
  IDEProb(const Prog &P)
      : ProblemFlows(P, P.IRDB.get(), std::vector<std::string>{"main"}, 0) {}
  EF lk(const Rel &R, int A, int B) {
    auto &Row = R.at(A);
    auto It = Row.find(B);
    return It == Row.end() ? EF(psr::EdgeIdentity<MaskVal>{})
                           : mkEF(It->second, P.HeapEF);
  }
  EF getNormalEdgeFunction(Inst N, int A, Inst S, int B) override {
    return lk(P.Normal.at({N, S}), A, B);
  }
  EF getCallEdgeFunction(Inst N, int A, Fn F, int B) override {
    auto It = P.Call.find({N, F});
    return It == P.Call.end() ? EF(psr::EdgeIdentity<MaskVal>{})
                              : lk(It->second, A, B);
  }
  EF getReturnEdgeFunction(Inst N, Fn F, Inst X, int A, Inst S,
                           int B) override {
    return lk(P.Ret.at({N, F, X, S}), A, B);
  }
  EF getCallToRetEdgeFunction(Inst N, int A, Inst S, int B,
                              llvm::ArrayRef<Fn>) override {
    return lk(P.CTR.at({N, S}), A, B);
  }
  EF getSummaryEdgeFunction(Inst N, int A, Inst S, int B) override {
    return lk(P.Sum.at({N, S}), A, B);
  }
  psr::InitialSeeds<Inst, int, MaskVal> initialSeeds() override {
    psr::InitialSeeds<Inst, int, MaskVal> S;
    for (auto &[N, Fs] : P.Seeds)
      for (auto &[D, V] : Fs)
        if (D != 0 || !P.AutoAddZero)
          S.addSeed(N, D, V);
    // a seed statement without non-zero facts still has to be named
    for (auto &[N, Fs] : P.Seeds)
      S.addSeed(N, 0, MaskVal{Full});
    return S;
  }
};

struct IFDSProb : ProblemFlows<psr::IFDSTabulationProblem<IntDomain>> {
  IFDSProb(const Prog &P)
      : ProblemFlows(P, P.IRDB.get(), std::vector<std::string>{"main"}, 0) {}
  psr::InitialSeeds<Inst, int, psr::BinaryDomain> initialSeeds() override {
    psr::InitialSeeds<Inst, int, psr::BinaryDomain> S;
    for (auto &[N, Fs] : P.Seeds)
      for (auto &[D, V] : Fs)
        S.addSeed(N, D);
    return S;
  }
};

inline std::string fmt(const Prog &P, const Solution &S) {
  std::string R;
  for (auto &[K, V] : S)
    R += "n" + std::to_string(P.Id.at(K.first)) + ":" +
         std::to_string(K.second) + "=" + std::to_string(V.V) + " ";
  return R;
}
inline std::string diff(const Prog &P, const Solution &Want,
                        const Solution &Got) {
  std::string R;
  for (auto &[K, V] : Want) {
    auto It = Got.find(K);
    if (It == Got.end())
      R += pbt::strf(" missing (n%d, fact %d)=%d", P.Id.at(K.first), K.second,
                     V.V);
    else if (It->second != V)
      R += pbt::strf(" (n%d, fact %d): want %d got %d", P.Id.at(K.first),
                     K.second, V.V, It->second.V);
  }
  for (auto &[K, V] : Got)
    if (!Want.count(K))
      R += pbt::strf(" spurious (n%d, fact %d)=%d", P.Id.at(K.first), K.second,
                     V.V);
  return R;
}
} // namespace sg
