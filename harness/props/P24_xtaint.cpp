// BUILD:
// P24: the extended (field-sensitive, sanitizer-aware) taint analysis reports
// every leak of an execution.
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/SourceMgr.h"

#include <set>

using namespace psr;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;

namespace {
std::string str(const Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  return OS.str();
}

// external functions of the environment
//   i32 source()            the result is tainted
//   i32 plain(i32)          nothing is tainted
//   void source_p(i32 *p)   *p is tainted
//   void sink(i32), void sink_p(i32 *)
//   void sink2(i32 plain, i32 sink), void sinks(i32, i32) "all"
//   i32 both(i32 *out_tainted, i32 sink)
//   void sani(i32 *p)       *p becomes clean
TaintConfigData config() {
  TaintConfigData D;
  auto Fn = [&](const char *N) -> FunctionData & {
    D.Functions.emplace_back();
    D.Functions.back().Name = N;
    D.Functions.back().ReturnCat = TaintCategory::None;
    return D.Functions.back();
  };
  Fn("source").ReturnCat = TaintCategory::Source;
  Fn("source_p").SourceValues = {0};
  Fn("sink").SinkValues = {0};
  Fn("sink_p").SinkValues = {0};
  Fn("sink2").SinkValues = {1};
  Fn("sinks").HasAllSinkParam = true;
  auto &B = Fn("both");
  B.SourceValues = {0};
  B.SinkValues = {1};
  Fn("sani").SanitizerValues = {0};
  return D;
}
// the same as callbacks
LLVMTaintConfig callbacks() {
  auto Name = [](const Instruction *I) -> llvm::StringRef {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(I);
    return CB && CB->getCalledFunction() ? CB->getCalledFunction()->getName()
                                         : "";
  };
  using S = std::set<const Value *>;
  auto Src = [=](const Instruction *I) -> S {
    auto N = Name(I);
    if (N == "source")
      return {I};
    if (N == "source_p" || N == "both")
      return {I->getOperand(0)};
    return {};
  };
  auto Snk = [=](const Instruction *I) -> S {
    auto N = Name(I);
    if (N == "sink" || N == "sink_p")
      return {I->getOperand(0)};
    if (N == "sink2" || N == "both")
      return {I->getOperand(1)};
    if (N == "sinks")
      return {I->getOperand(0), I->getOperand(1)};
    return {};
  };
  auto San = [=](const Instruction *I) -> S {
    if (Name(I) == "sani")
      return {I->getOperand(0)};
    return {};
  };
  return LLVMTaintConfig(Src, Snk, San);
}

bool isSinkArg(llvm::StringRef N, unsigned K) {
  return ((N == "sink" || N == "sink_p") && K == 0) ||
         ((N == "sink2" || N == "both") && K == 1) || N == "sinks";
}

// the variable behind an address, or the value itself
const Value *base(const Value *V) {
  while (true) {
    if (auto *G = llvm::dyn_cast<llvm::GEPOperator>(V))
      V = G->getPointerOperand();
    else if (auto *B = llvm::dyn_cast<llvm::BitCastOperator>(V))
      V = B->getOperand(0);
    else
      return V;
  }
}
std::set<const Value *> mayTaint(const llvm::Module &M) {
  std::set<const Value *> T;
  size_t Old;
  auto Flow = [&T](const Value *From, const Value *To) {
    if (T.count(base(From)))
      T.insert(base(To));
  };
  do {
    Old = T.size();
    for (auto &F : M)
      for (auto &I : llvm::instructions(F)) {
        if (auto *S = llvm::dyn_cast<llvm::StoreInst>(&I))
          Flow(S->getValueOperand(), S->getPointerOperand());
        else if (llvm::isa<llvm::LoadInst>(I) || llvm::isa<llvm::CastInst>(I))
          Flow(I.getOperand(0), &I);
        else if (llvm::isa<llvm::PHINode>(I) || llvm::isa<llvm::SelectInst>(I))
          for (auto &Op : I.operands())
            Flow(Op, &I);
        else if (auto *MT = llvm::dyn_cast<llvm::MemTransferInst>(&I))
          Flow(MT->getSource(), MT->getDest());
        else if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I)) {
          auto *D = CB->getCalledFunction();
          if (!D)
            continue;
          if (D->getName() == "source")
            T.insert(CB);
          if (D->getName() == "source_p" || D->getName() == "both")
            T.insert(base(CB->getArgOperand(0)));
          if (D->isDeclaration())
            continue;
          for (unsigned K = 0; K < CB->arg_size(); ++K) {
            Flow(CB->getArgOperand(K), D->getArg(K));
            if (D->getArg(K)->getType()->isPointerTy())
              Flow(D->getArg(K), CB->getArgOperand(K));
          }
          for (auto &J : llvm::instructions(D))
            if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(&J))
              if (R->getReturnValue())
                Flow(R->getReturnValue(), CB);
        }
      }
  } while (T.size() != Old);
  return T;
}

void check(pbt::Ctx &C, llvm::Module &M, bool Precise, bool MainArgs) {
  LLVMProjectIRDB IRDB(&M);
  LLVMAliasSet PT(&IRDB, false,
                  Precise || C.flip() ? AliasAnalysisType::CFLAnders
                                      : AliasAnalysisType::CFLSteens);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, nullptr, &PT,
                    Soundness::Soundy, false);
  bool CBs = C.chance(1, 3);
  LLVMTaintConfig Cfg =
      CBs ? callbacks() : LLVMTaintConfig(IRDB, config());
  std::set<std::pair<const Instruction *, const Value *>> Rep, All, Dyn;
  auto Solve = [&](auto &&P, auto &Into) {
    IDESolver S(P, &ICF);
    S.solve();
    for (auto &[I, Vs] : P.getAllLeaks(S.getSolverResults()))
      for (auto *V : Vs)
        Into.insert({I, V});
  };
  Solve(IDEExtendedTaintAnalysis<3, false>(&IRDB, &ICF, &PT, Cfg, {"main"}), All);
  Solve(IDEExtendedTaintAnalysis<3, true>(&IRDB, &ICF, &PT, Cfg, {"main"}), Rep);
  bool Cut = false;
  for (unsigned Run = 0; Run < (Precise ? 1 : 4); ++Run) {
    interp::Machine X(M);
    X.MaxSteps = Precise ? 4000 : 500;
    // values computed from others are not copies
    X.AfterInst = [&](interp::Frame &F, interp::Inst I) {
      if (llvm::isa<llvm::BinaryOperator>(I) || llvm::isa<llvm::CmpInst>(I))
        F.R[I].T = 0;
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *CS, const Function *F,
                   std::vector<interp::Val> &A) {
      auto N = F->getName();
      interp::Val V;
      if (CS->getType()->isIntegerTy())
        V.B = uint32_t(C.range(-2, 4));
      for (unsigned K = 0; K < A.size(); ++K)
        if (isSinkArg(N, K)) {
          bool T = A[K].T;
          if (CS->getArgOperand(K)->getType()->isPointerTy())
            T = X.loadMem(A[K].B, 4).T;
          if (T)
            Dyn.insert({CS, CS->getArgOperand(K)});
        }
      if (N == "source")
        V.T = 1;
      if (N == "source_p" || N == "both")
        X.storeMem(A[0].B, 4, {uint32_t(C.range(-2, 4)), 1});
      if (N == "sani")
        X.storeMem(A[0].B, 4, {uint32_t(C.range(-2, 4)), 0});
      return V;
    };
    std::vector<interp::Val> Args;
    for (auto &A : M.getFunction("main")->args()) {
      interp::Val V;
      if (A.getType()->isIntegerTy()) {
        V.B = uint32_t(C.range(-2, 4));
        V.T = MainArgs;
      }
      Args.push_back(V);
    }
    try {
      X.run(M.getFunction("main"), Args);
    } catch (interp::Stop) {
      Cut = true;
    } catch (interp::Throw) {
    }
  }
  if (Precise && Cut)
    C.discard();
  size_t Sinks = 0;
  for (auto &F : M)
    for (auto &I : llvm::instructions(F))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I))
        if (auto *D = CB->getCalledFunction())
          for (unsigned K = 0; K < CB->arg_size(); ++K)
            Sinks += isSinkArg(D->getName(), K);
  C.nontrivial(!Dyn.empty() && Dyn.size() < Sinks);
  for (auto &[I, V] : Rep)
    PBT_CHECK(C, All.count({I, V}), "leak only with strong updates: " + str(V) + " at " + str(I));
  for (auto &[I, V] : Dyn)
    PBT_CHECK(C, All.count({I, V}), "leak not reported without strong updates: " + str(V) + " at " + str(I));
  for (auto &[I, V] : Dyn)
    PBT_CHECK(C, Rep.count({I, V}), "leak not reported: " + str(V) + " at " + str(I));
  // nothing else than what a flow-, context- and field-insensitive analysis
  // takes for tainted
  auto May = mayTaint(M);
  for (auto &[I, V] : All)
    PBT_CHECK(C, May.count(base(V)), "impossible leak: " + str(V) + " at " + str(I));
  for (auto &[I, V] : Rep) {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(I);
    bool Ok = false;
    if (CB && CB->getCalledFunction())
      for (unsigned K = 0; K < CB->arg_size(); ++K)
        Ok |= CB->getArgOperand(K) == V &&
              isSinkArg(CB->getCalledFunction()->getName(), K);
    PBT_CHECK(C, Ok, "leak at something that is no sink: " + str(I));
  }
}

struct Ext {
  pbt::Ctx &C;
  bool Ref, Sani, OwnOnly;
  llvm::Function *H[2] = {};

  llvm::Function *helper(irgen::Gen &G, const char *Name) {
    auto *F = Function::Create(
        llvm::FunctionType::get(G.Void, {G.I32P, G.I32}, false),
        Function::InternalLinkage, Name, *G.M);
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(G.Ctx, "entry", F));
    Value *V = nullptr;
    for (unsigned N = 1 + C.draw(3); N; --N) {
      switch (C.draw(4)) {
      case 0:
        V = B.CreateLoad(G.I32, F->getArg(0));
        break;
      case 1:
        B.CreateCall(G.ext("sink", G.Void, {G.I32}),
                     {V && C.flip() ? V : F->getArg(1)});
        break;
      case 2:
        B.CreateStore(V && C.flip() ? V : F->getArg(1), F->getArg(0));
        break;
      case 3:
        B.CreateStore(G.smallNum(), F->getArg(0));
        break;
      }
    }
    B.CreateRetVoid();
    return F;
  }
  Value *lv(irgen::Gen &G) {
    if (OwnOnly) // alias-free: only own locals
      return G.Ints.empty() ? nullptr : C.pick(G.Ints);
    return G.intLV();
  }
  void operator()(irgen::Gen &G) {
    auto &B = G.B;
    auto *V = G.Void;
    auto *I = G.I32;
    auto *P = G.I32P;
    switch (C.draw(10)) {
    case 0:
    case 1:
      G.useResult(B.CreateCall(G.ext("source", I, {}), {}));
      break;
    case 2:
      if (auto *L = lv(G))
        B.CreateCall(G.ext("source_p", V, {P}), {L});
      break;
    case 3:
    case 4:
      B.CreateCall(G.ext("sink", V, {I}), {G.intRV()});
      break;
    case 5:
      if (Ref) // joins sanitizers
        break;
      if (auto *L = lv(G))
        B.CreateCall(G.ext("sink_p", V, {P}), {L});
      break;
    case 6:
      B.CreateCall(G.ext(C.flip() ? "sink2" : "sinks", V, {I, I}),
                   {G.intRV(), G.intRV()});
      break;
    case 7:
      if (auto *L = lv(G))
        G.useResult(B.CreateCall(G.ext("both", I, {P, I}), {L, G.intRV()}));
      break;
    case 8:
      if (Sani) {
        if (auto *L = lv(G))
          B.CreateCall(G.ext("sani", V, {P}), {L});
        break;
      }
      G.useResult(B.CreateCall(G.ext("plain", I, {I}), {G.intRV()}));
      break;
    case 9:
      if (H[0] && !G.Ints.empty())
        // one caller per helper: the alias information is context-insensitive
        B.CreateCall(Ref ? helper(G, "h") : H[C.draw(2)],
                     {C.pick(G.Ints), G.intRV()});
      break;
    }
  }
};

void go(pbt::Ctx &C, irgen::Opts O, bool Precise) {
  O.Externs = false;
  O.ExtraWeight = 8;
  O.MainArgs = C.chance(1, 3);
  bool TaintArgs = false;
  llvm::LLVMContext Ctx;
  irgen::Gen G(C, O, Ctx);
  Ext E{C, Precise, true, Precise || O.Ptrs};
  if (C.flip()) {
    E.H[0] = E.helper(G, "h1");
    E.H[1] = E.helper(G, "h2");
  }
  G.Extra = [&E](irgen::Gen &G) { E(G); };
  auto M = G.run();
  C.describe(irgen::print(*M));
  check(C, *M, Precise, TaintArgs);
}

void sound(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxBlocks = 5;
  O.Mem2RegOf = C.chance(1, 3) ? 3 : 0;
  O.Memcpy = C.flip();
  O.PtrRets = O.FnPtrs = O.Malloc = false;
  O.Arrays = false;
  O.Ptrs = false;
  O.Structs = C.flip();
  O.Ternary = O.Select = O.Casts = C.chance(1, 3);
  O.Invokes = C.chance(1, 3);
  go(C, O, false);
}

void straight(pbt::Ctx &C) {
  irgen::Opts O;
  O.Ptrs = false;
  O.MaxBlocks = 1;
  O.MaxStmts = 14;
  O.Globals = false; // calls never kill facts about globals
  O.Recursion = false;
  O.Loops = false;
  O.Mem2RegOf = 0;
  go(C, O, true);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P24";
  P.Subs = {{"sound",
             "random programs with sources, sinks and sanitizers are executed "
             "with taint tracking; every leak that happens has to be reported "
             "(with and without strong updates), nothing is reported that a "
             "flow-insensitive closure rules out. Non-trivial: a leak happened",
             sound, 40000},
            {"straight",
             "the same on straight-line programs with calls by value and by "
             "reference. Non-trivial: a leak happened",
             straight, 20000}};
  P.Assumptions = {"taints follow copies (loads, stores, calls, casts, "
                   "selections), not arithmetic",
                   "each cell is accessed under one name per function (no "
                   "pointer variables) and with constant offsets"};
  return pbt::run(argc, argv, P);
}
