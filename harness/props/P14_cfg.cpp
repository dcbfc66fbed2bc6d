// BUILD:
// P14: CFG/ICFG structure mirrors the IR
#include "../common/irgen.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "nlohmann/json.hpp"

#include <map>
#include <set>
using namespace psr;
using Inst = const llvm::Instruction *;
using Set = std::set<Inst>;
using Bag = std::multiset<Inst>;

static std::string id(Inst I) {
  if (!I)
    return "null";
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (!I->getParent()) {
    OS << "<detached>";
    return S;
  }
  unsigned K = 0;
  for (auto &X : llvm::instructions(I->getFunction())) {
    if (&X == I)
      break;
    ++K;
  }
  OS << I->getFunction()->getName() << "#" << K << "[" << *I << "]";
  return S;
}
template <typename R> static std::string ids(R &&X) {
  std::string S = "{";
  for (auto *I : X)
    S += " " + id(I);
  return S + " }";
}

struct Model {
  bool Ign;
  std::map<Inst, Set> Succ, Pred;
  std::map<const llvm::Function *, std::vector<Inst>> Nodes;
  std::map<const llvm::Function *, Inst> Start;
  std::map<const llvm::Function *, Set> Exit;
  Inst first(const llvm::BasicBlock &BB) {
    for (auto &I : BB)
      if (!Ign || !llvm::isa<llvm::DbgInfoIntrinsic>(I))
        return &I;
    return nullptr;
  }
  static bool guard(const llvm::BranchInst *B) {
    if (!B->isConditional())
      return false;
    auto *X = llvm::dyn_cast<llvm::ICmpInst>(B->getCondition());
    if (!X || !X->isEquality())
      return false;
    if (auto *K = llvm::dyn_cast<llvm::CallInst>(X->getOperand(0)))
      return K->getCalledFunction() &&
             K->getCalledFunction()->getName() == "__cxa_guard_acquire";
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(X->getOperand(0)))
      return L->isAtomic();
    return false;
  }
  Model(const llvm::Module &M, bool Ign) : Ign(Ign) {
    for (auto &F : M) {
      if (F.isDeclaration())
        continue;
      Start[&F] = first(F.getEntryBlock());
      Exit[&F];
      for (auto &BB : F) {
        Inst Prev = nullptr;
        for (auto &I : BB) {
          bool D = llvm::isa<llvm::DbgInfoIntrinsic>(I);
          if (Ign && D)
            continue;
          Nodes[&F].push_back(&I);
          Succ[&I];
          Pred[&I];
          if (Prev)
            Succ[Prev].insert(&I), Pred[&I].insert(Prev);
          Prev = &I;
        }
        auto *T = BB.getTerminator();
        for (unsigned K = 0; K < T->getNumSuccessors(); ++K) {
          Inst S = first(*T->getSuccessor(K));
          Pred[S].insert(T);
          if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(T);
              Br && guard(Br) && K != 0)
            continue;
          Succ[T].insert(S);
        }
        if (llvm::isa<llvm::ReturnInst>(T) || llvm::isa<llvm::ResumeInst>(T))
          Exit[&F].insert(T);
      }
    }
  }
};

template <typename R> static Set toSet(R &&X) {
  return Set(X.begin(), X.end());
}

static void guardStmt(irgen::Gen &G) {
  using namespace llvm;
  auto &B = G.B;
  auto *GV = G.M->getOrInsertGlobal("_ZGVZ3foovE1x", B.getInt64Ty());
  cast<GlobalVariable>(GV)->setLinkage(GlobalValue::InternalLinkage);
  cast<GlobalVariable>(GV)->setInitializer(B.getInt64(0));
  Value *C;
  if (G.C.flip()) {
    auto *L = B.CreateLoad(B.getInt8Ty(),
                           B.CreateBitCast(GV, B.getInt8PtrTy()));
    L->setAtomic(AtomicOrdering::Acquire);
    L->setAlignment(Align(8));
    C = B.CreateICmpEQ(L, B.getInt8(0));
  } else {
    auto *R = B.CreateCall(
        G.ext("__cxa_guard_acquire", G.I32, {GV->getType()}), {GV});
    C = B.CreateICmpNE(R, G.num(0));
  }
  auto *Init = BasicBlock::Create(G.Ctx, "init", G.F);
  auto *Done = BasicBlock::Create(G.Ctx, "done", G.F);
  B.CreateCondBr(C, Init, Done);
  B.SetInsertPoint(Init);
  if (G.O.Dbg)
    G.dbg();
  B.CreateBr(Done);
  B.SetInsertPoint(Done);
  G.C.label("guard branch");
}

static irgen::Opts structural() {
  irgen::Opts O;
  O.MinFuns = 1;
  O.MaxFuns = 4;
  O.Invokes = O.Dbg = O.Unreach = O.DeadBlocks = O.MultiRet = O.Select =
      O.Structs = O.Arrays = O.FnPtrs = O.Linkage = true;
  O.ExtraWeight = 1;
  return O;
}

static void checkCFG(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Gen G(C, structural(), Ctx);
  G.Extra = guardStmt;
  auto M = G.run();
  C.describe(irgen::print(*M));
  bool Ign = C.flip();
  Model Md(*M, Ign);
  LLVMProjectIRDB IRDB(M.get(), C.flip());
  LLVMBasedCFG CFG(Ign);
  LLVMBasedICFG ICF(CallGraph<Inst, const llvm::Function *>{}, &IRDB);
  unsigned Branches = 0, DbgFirst = 0;
  for (auto &F : *M) {
    auto SP = CFG.getStartPointsOf(&F);
    auto EP = CFG.getExitPointsOf(&F);
    PBT_CHECK(C, CFG.getFunctionName(&F) == F.getName(), "function name");
    if (F.isDeclaration()) {
      PBT_CHECK(C, SP.empty() && EP.empty(), "declaration has start/exit points");
      continue;
    }
    PBT_CHECK(C, SP.size() == 1 && SP[0] == Md.Start[&F],
              "start points " + ids(SP) + " want " + id(Md.Start[&F]));
    PBT_CHECK(C, toSet(EP) == Md.Exit[&F] && EP.size() == Md.Exit[&F].size(),
              "exit points " + ids(EP) + " want " + ids(Md.Exit[&F]));
    std::set<std::pair<Inst, Inst>> Edges, Want;
    for (auto *I : Md.Nodes[&F]) {
      auto S = CFG.getSuccsOf(I);
      auto P = CFG.getPredsOf(I);
      PBT_CHECK(C, toSet(S) == Md.Succ[I],
                "getSuccsOf(" + id(I) + ") = " + ids(S) + " want " +
                    ids(Md.Succ[I]));
      PBT_CHECK(C, toSet(P) == Md.Pred[I],
                "getPredsOf(" + id(I) + ") = " + ids(P) + " want " +
                    ids(Md.Pred[I]));
      Branches += Md.Succ[I].size() > 1;
      for (auto *X : Md.Succ[I])
        Want.insert({I, X});
      bool Entry = I == Md.Start[&F];
      PBT_CHECK(C, CFG.isStartPoint(I) == Entry, "isStartPoint " + id(I));
      // a resume is listed by getExitPointsOf but not by isExitInst: known
      // finding P14-resume-exit
      if (!llvm::isa<llvm::ResumeInst>(I))
        PBT_CHECK(C, CFG.isExitInst(I) == bool(Md.Exit[&F].count(I)),
                  "isExitInst " + id(I));
      PBT_CHECK(C, CFG.isCallSite(I) == llvm::isa<llvm::CallBase>(I),
                "isCallSite " + id(I));
      PBT_CHECK(C, CFG.getFunctionOf(I) == &F, "getFunctionOf " + id(I));
      auto Field = [&](const llvm::Value *P) {
        return llvm::isa<llvm::GetElementPtrInst>(P);
      };
      auto *L = llvm::dyn_cast<llvm::LoadInst>(I);
      auto *St = llvm::dyn_cast<llvm::StoreInst>(I);
      PBT_CHECK(C, CFG.isFieldLoad(I) == (L && Field(L->getPointerOperand())),
                "isFieldLoad " + id(I));
      PBT_CHECK(C, CFG.isFieldStore(I) == (St && Field(St->getPointerOperand())),
                "isFieldStore " + id(I));
      // branch targets / fall through
      for (auto *X : Md.Nodes[&F]) {
        bool Tgt = false, Fall = false;
        if (I->isTerminator())
          for (unsigned K = 0; K < I->getNumSuccessors(); ++K)
            Tgt |= Md.first(*I->getSuccessor(K)) == X;
        if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(I))
          Fall = Md.first(*Br->getSuccessor(Br->isConditional())) == X;
        PBT_CHECK(C, CFG.isBranchTarget(I, X) == Tgt,
                  "isBranchTarget(" + id(I) + ", " + id(X) + ") want " +
                      std::to_string(Tgt));
        PBT_CHECK(C, CFG.isFallThroughSuccessor(I, X) == Fall,
                  "isFallThroughSuccessor(" + id(I) + ", " + id(X) + ") want " +
                      std::to_string(Fall));
      }
      // the ICFG is the CFG (it ignores debug instructions by default)
      if (Ign) {
        PBT_CHECK(C, toSet(ICF.getSuccsOf(I)) == Md.Succ[I], "ICFG succs");
        PBT_CHECK(C, toSet(ICF.getPredsOf(I)) == Md.Pred[I], "ICFG preds");
        if (llvm::isa<llvm::CallBase>(I))
          PBT_CHECK(C, toSet(ICF.getReturnSitesOfCallAt(I)) == Md.Succ[I],
                    "return sites of " + id(I));
      }
    }
    for (auto &BB : F)
      DbgFirst += llvm::isa<llvm::DbgInfoIntrinsic>(BB.front());
    for (auto &[A, B] : CFG.getAllControlFlowEdges(&F)) {
      PBT_CHECK(C, Want.count({A, B}),
                "extra control-flow edge " + id(A) + " -> " + id(B));
      Edges.insert({A, B});
    }
    for (auto &[A, B] : Want)
      PBT_CHECK(C, Edges.count({A, B}),
                "missing control-flow edge " + id(A) + " -> " + id(B));
    Bag AllI, WantI;
    for (auto *I : CFG.getAllInstructionsOf(&F))
      AllI.insert(I);
    for (auto &I : llvm::instructions(F))
      WantI.insert(&I);
    PBT_CHECK(C, AllI == WantI, "getAllInstructionsOf");
    Bag CW, WantC;
    for (auto *I : ICF.getCallsFromWithin(&F))
      CW.insert(I);
    for (auto &I : llvm::instructions(F))
      if (llvm::isa<llvm::CallBase>(I))
        WantC.insert(&I);
    PBT_CHECK(C, CW == WantC, "getCallsFromWithin " + ids(CW));
    // json export: one entry per edge that does not leave an unreachable
    auto J = CFG.exportCFGAsJson(&F);
    size_t NJ = 0;
    for (auto &[A, B] : CFG.getAllControlFlowEdges(&F))
      NJ += !llvm::isa<llvm::UnreachableInst>(A);
    PBT_CHECK(C, J.size() == NJ, "exportCFGAsJson edge count");
  }
  Bag NC, WantNC;
  for (auto *I : ICF.allNonCallStartNodes())
    NC.insert(I);
  for (auto &F : *M)
    for (auto &I : llvm::instructions(F))
      if (!llvm::isa<llvm::CallBase>(I) && !ICF.isStartPoint(&I))
        WantNC.insert(&I);
  PBT_CHECK(C, NC == WantNC, "allNonCallStartNodes");
  if (DbgFirst)
    C.label("block starting with a debug instruction");
  C.nontrivial(Branches >= 1);
}

static void checkBackward(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Gen G(C, structural(), Ctx);
  G.O.ExtraWeight = 0;
  auto M = G.run();
  C.describe(irgen::print(*M));
  bool Ign = C.flip();
  Model Md(*M, Ign);
  LLVMProjectIRDB IRDB(M.get(), false);
  bool Rets = C.flip();
  auto Check = [&](auto &CFG, bool Rets, bool Ign) {
    for (auto &F : *M) {
      if (F.isDeclaration())
        continue;
      auto SP = CFG.getStartPointsOf(&F);
      PBT_CHECK(C, toSet(SP) == Md.Exit[&F], "backward start points " + ids(SP));
      auto EP = CFG.getExitPointsOf(&F);
      PBT_CHECK(C, EP.size() == 1, "backward CFG: exit points of " + F.getName().str());
      Inst X = EP[0];
      PBT_CHECK(C, X && CFG.isExitInst(X), "backward exit point");
      PBT_CHECK(C, CFG.getFunctionOf(X) == &F, "function of the backward exit");
      if (!Rets)
        PBT_CHECK(C, X == Md.Start[&F], "backward exit is the entry");
      else {
        PBT_CHECK(C, !Md.Succ.count(X), "artificial exit is an instruction");
        PBT_CHECK(C, CFG.getSuccsOf(X).empty(), "succ of backward exit");
        PBT_CHECK(C, toSet(CFG.getPredsOf(X)) == Set{Md.Start[&F]},
                  "preds of the backward exit " + ids(CFG.getPredsOf(X)));
      }
      std::set<std::pair<Inst, Inst>> Want, Got;
      for (auto *I : Md.Nodes[&F]) {
        Set WS = Md.Pred[I];
        if (WS.empty() && Rets)
          WS = {X};
        PBT_CHECK(C, toSet(CFG.getSuccsOf(I)) == WS,
                  "backward getSuccsOf(" + id(I) + ") = " +
                      ids(CFG.getSuccsOf(I)) + " want " + ids(WS));
        PBT_CHECK(C, toSet(CFG.getPredsOf(I)) == Md.Succ[I],
                  "backward getPredsOf(" + id(I) + ")");
        for (auto *S : WS)
          Want.insert({I, S});
        if (!Rets)
          PBT_CHECK(C, CFG.isExitInst(I) == (I == Md.Start[&F]),
                    "backward isExitInst " + id(I));
        else
          PBT_CHECK(C, !CFG.isExitInst(I), "backward isExitInst " + id(I));
        if (!llvm::isa<llvm::ResumeInst>(I))
          PBT_CHECK(C, CFG.isStartPoint(I) == bool(Md.Exit[&F].count(I)),
                    "backward isStartPoint " + id(I));
      }
      for (auto &[A, B] : CFG.getAllControlFlowEdges(&F))
        Got.insert({A, B});
      PBT_CHECK(C, Got == Want, "backward getAllControlFlowEdges: " +
                                   std::to_string(Got.size()) + " edges, want " +
                                   std::to_string(Want.size()));
    }
  };
  if (Rets) {
    LLVMBasedBackwardCFG CFG(IRDB, Ign);
    Check(CFG, true, Ign);
  } else {
    LLVMBasedBackwardCFG CFG(Ign);
    Check(CFG, false, Ign);
  }
  C.nontrivial(M->size() >= 1 && Md.Succ.size() > 6);
  if (Rets)
    C.label("with artificial return nodes");
}

// special member functions from mangled names; what the name stands for is
// known by construction
static void checkSpecial(pbt::Ctx &C) {
  using S = SpecialMemberFunctionType;
  static const char *Ids[] = {"A",  "Foo", "C1", "D0",  "C2x", "xD1",
                              "C1C2", "aSERKS_", "aSEOS", "T1D2", "b3C1"};
  auto Ident = [&] {
    std::string I = Ids[C.draw(11)];
    return std::to_string(I.size()) + I;
  };
  std::string N;
  S Want = S::None;
  unsigned Shape = C.draw(4);
  if (Shape == 3) { // C name
    static const char *Cs[] = {"main", "C1foo", "D0", "foo", "C2", "f12", "xC1",
                               "D1D2", "aSERKS_", "fD2"};
    N = Cs[C.draw(6)];
    C.label("C name");
  } else if (Shape == 2) { // free function
    N = "_Z" + Ident() + (C.flip() ? "v" : "i");
  } else {
    std::string Cls;
    unsigned D = 1 + C.draw(3);
    for (unsigned K = 0; K < D; ++K) {
      Cls += Ident();
      if (C.chance(1, 5))
        Cls += "IiE";
    }
    std::string Pre = C.chance(1, 6) ? "_ZZ4mainEN" : "_ZN";
    switch (C.draw(6)) {
    case 0: {
      static const char *K[] = {"C1", "C2", "C3"};
      N = Pre + Cls + K[C.draw(3)] + "E" + (C.flip() ? "v" : "i");
      Want = S::Constructor;
      break;
    }
    case 1: {
      static const char *K[] = {"D0", "D1", "D2"};
      N = Pre + Cls + K[C.draw(3)] + "Ev";
      Want = S::Destructor;
      break;
    }
    case 2:
      Cls = Ident();
      N = "_ZN" + Cls + "aSERKS_";
      Want = S::CopyAssignment;
      break;
    case 3:
      Cls = Ident();
      N = "_ZN" + Cls + "aSEOS_";
      Want = S::MoveAssignment;
      break;
    case 4: // method taking a class type
      N = Pre + Cls + Ident() + "E" + Ident();
      break;
    default:
      N = Pre + Cls + Ident() + "E" + (C.flip() ? "v" : "i");
    }
  }
  C.describe(N);
  llvm::LLVMContext Ctx;
  llvm::Module M("m", Ctx);
  auto *F = llvm::Function::Create(
      llvm::FunctionType::get(llvm::Type::getVoidTy(Ctx), false),
      llvm::Function::ExternalLinkage, N, M);
  LLVMBasedCFG CFG;
  auto Got = CFG.getSpecialMemberFunctionType(F);
  PBT_CHECK(C, Got == Want,
            "special member function type " + std::to_string(int(Got)) +
                " want " + std::to_string(int(Want)));
  PBT_CHECK(C, CFG.isSpecialMemberFunction(F) == (Want != S::None),
            "isSpecialMemberFunction");
  C.nontrivial(Want != S::None || Shape == 3);
}

static bool resumeExit() {
  llvm::LLVMContext Ctx;
  llvm::Module M("m", Ctx);
  llvm::IRBuilder<> B(Ctx);
  auto *F = llvm::Function::Create(
      llvm::FunctionType::get(B.getVoidTy(), false),
      llvm::Function::ExternalLinkage, "f", M);
  auto *P = llvm::Function::Create(
      llvm::FunctionType::get(B.getInt32Ty(), true),
      llvm::Function::ExternalLinkage, "__gxx_personality_v0", M);
  F->setPersonalityFn(P);
  auto *E = llvm::BasicBlock::Create(Ctx, "", F),
       *N = llvm::BasicBlock::Create(Ctx, "", F),
       *U = llvm::BasicBlock::Create(Ctx, "", F);
  B.SetInsertPoint(E);
  B.CreateInvoke(F, N, U);
  B.SetInsertPoint(N);
  B.CreateRetVoid();
  B.SetInsertPoint(U);
  auto *LP = B.CreateLandingPad(
      llvm::StructType::get(B.getInt8PtrTy(), B.getInt32Ty()), 0);
  LP->setCleanup(true);
  auto *R = B.CreateResume(LP);
  LLVMBasedCFG CFG;
  auto EP = CFG.getExitPointsOf(F);
  return llvm::is_contained(EP, R) && !CFG.isExitInst(R);
}

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P14";
  P.Subs = {
      {"cfg",
       "a random module (1-4 functions, arbitrary control flow with branches, "
       "switches, invokes, unreachable and dead blocks, loops, debug "
       "intrinsics, lazy-initialisation guards); every CFG/ICFG query is "
       "compared with a model read off the blocks. Non-trivial: some "
       "instruction has two successors",
       checkCFG, 15000},
      {"backward",
       "the same for the backward CFG, with and without artificial return "
       "nodes. Non-trivial: more than six instructions",
       checkBackward, 10000},
      {"special",
       "a mangled name built from its parts (nested classes, templates, local "
       "classes, identifiers that look like codes, plain C names). "
       "Non-trivial: special members and C names",
       checkSpecial, 30000},
  };
  P.Knowns = {{"P14-resume-exit",
               "getExitPointsOf lists resume instructions, isExitInst does not",
               resumeExit}};
  return pbt::run(argc, argv, P);
}
