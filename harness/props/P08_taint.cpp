// BUILD:
// P08: the taint analysis reports every leak of an execution, and only those
// in alias-free straight-line code.
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/SourceMgr.h"

#include <set>

using namespace psr;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;

namespace {
std::string str(const Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  return OS.str();
}

// external functions of the environment
//   i32 source()            the result is tainted
//   i32 plain(i32)          nothing is tainted
//   void source_p(i32 *p)   *p is tainted
//   void sink(i32), void sink_p(i32 *)
//   void sink2(i32 plain, i32 sink), void sinks(i32, i32) "all"
//   i32 both(i32 *out_tainted, i32 sink)
//   void sani(i32 *p)       *p becomes clean
//   void sinksani(i32 *p)   *p leaks, then it is clean
//   void snk3/src3/san3/nop3(i32 *p, i32 v)   called via pointers: v leaks, *p
//                           is tainted, *p becomes clean, nothing
TaintConfigData config() {
  TaintConfigData D;
  auto Fn = [&](const char *N) -> FunctionData & {
    D.Functions.emplace_back();
    D.Functions.back().Name = N;
    D.Functions.back().ReturnCat = TaintCategory::None;
    return D.Functions.back();
  };
  Fn("source").ReturnCat = TaintCategory::Source;
  Fn("source_p").SourceValues = {0};
  Fn("sink").SinkValues = {0};
  Fn("sink_p").SinkValues = {0};
  Fn("sink2").SinkValues = {1};
  Fn("sinks").HasAllSinkParam = true;
  auto &B = Fn("both");
  B.SourceValues = {0};
  B.SinkValues = {1};
  Fn("sani").SanitizerValues = {0};
  auto &SS = Fn("sinksani");
  SS.SanitizerValues = {0};
  SS.SinkValues = {0};
  Fn("snk3").SinkValues = {1};
  Fn("src3").SourceValues = {0};
  Fn("san3").SanitizerValues = {0};
  return D;
}
// the same as callbacks
LLVMTaintConfig callbacks() {
  auto Name = [](const Instruction *I) -> llvm::StringRef {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(I);
    return CB && CB->getCalledFunction() ? CB->getCalledFunction()->getName()
                                         : "";
  };
  using S = std::set<const Value *>;
  auto Src = [=](const Instruction *I) -> S {
    auto N = Name(I);
    if (N == "source")
      return {I};
    if (N == "source_p" || N == "both" || N == "src3")
      return {I->getOperand(0)};
    return {};
  };
  auto Snk = [=](const Instruction *I) -> S {
    auto N = Name(I);
    if (N == "sink" || N == "sink_p" || N == "sinksani")
      return {I->getOperand(0)};
    if (N == "sink2" || N == "both" || N == "snk3")
      return {I->getOperand(1)};
    if (N == "sinks")
      return {I->getOperand(0), I->getOperand(1)};
    return {};
  };
  auto San = [=](const Instruction *I) -> S {
    auto N = Name(I);
    if (N == "sani" || N == "sinksani" || N == "san3")
      return {I->getOperand(0)};
    return {};
  };
  return LLVMTaintConfig(Src, Snk, San);
}

bool isSinkArg(llvm::StringRef N, unsigned K) {
  return ((N == "sink" || N == "sink_p" || N == "sinksani") && K == 0) ||
         ((N == "sink2" || N == "both" || N == "snk3") && K == 1) ||
         N == "sinks";
}

void check(pbt::Ctx &C, llvm::Module &M, bool Precise, bool MainArgs) {
  LLVMProjectIRDB IRDB(&M);
  LLVMAliasSet PT(&IRDB, false,
                  Precise || C.flip() ? AliasAnalysisType::CFLAnders
                                      : AliasAnalysisType::CFLSteens);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, nullptr, &PT,
                    Soundness::Soundy, false);
  bool CBs = C.chance(1, 3);
  LLVMTaintConfig Cfg =
      CBs ? callbacks() : LLVMTaintConfig(IRDB, config());
  IFDSTaintAnalysis P(&IRDB, &PT, &Cfg, {"main"}, MainArgs);
  IFDSSolver S(P, &ICF);
  S.solve();

  std::set<std::pair<const Instruction *, const Value *>> Rep, Dyn;
  for (auto &[I, Vs] : P.Leaks)
    for (auto *V : Vs)
      Rep.insert({I, V});
  bool Cut = false;
  for (unsigned Run = 0; Run < (Precise ? 1 : 4); ++Run) {
    interp::Machine X(M);
    X.MaxSteps = Precise ? 4000 : 500;
    // values computed from others are not copies
    X.AfterInst = [&](interp::Frame &F, interp::Inst I) {
      if (llvm::isa<llvm::BinaryOperator>(I) || llvm::isa<llvm::CmpInst>(I))
        F.R[I].T = 0;
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *CS, const Function *F,
                   std::vector<interp::Val> &A) {
      auto N = F->getName();
      // the callbacks do not know the targets of indirect calls
      if (CBs && CS->isIndirectCall())
        N = "nop3";
      interp::Val V;
      if (CS->getType()->isIntegerTy())
        V.B = uint32_t(C.range(-2, 4));
      for (unsigned K = 0; K < A.size(); ++K)
        if (isSinkArg(N, K)) {
          bool T = A[K].T;
          if (CS->getArgOperand(K)->getType()->isPointerTy())
            T = X.loadMem(A[K].B, 4).T;
          if (T)
            Dyn.insert({CS, CS->getArgOperand(K)});
        }
      if (N == "source")
        V.T = 1;
      if (N == "source_p" || N == "both" || N == "src3")
        X.storeMem(A[0].B, 4, {uint32_t(C.range(-2, 4)), 1});
      if (N == "sani" || N == "sinksani" || N == "san3")
        X.storeMem(A[0].B, 4, {uint32_t(C.range(-2, 4)), 0});
      return V;
    };
    std::vector<interp::Val> Args;
    for (auto &A : M.getFunction("main")->args()) {
      interp::Val V;
      if (A.getType()->isIntegerTy()) {
        V.B = uint32_t(C.range(-2, 4));
        V.T = MainArgs;
      }
      Args.push_back(V);
    }
    try {
      X.run(M.getFunction("main"), Args);
    } catch (interp::Stop) {
      Cut = true;
    } catch (interp::Throw) {
    }
  }
  if (Precise && Cut)
    C.discard();
  size_t Sinks = 0;
  for (auto &F : M)
    for (auto &I : llvm::instructions(F))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I))
        if (auto *D = CB->getCalledFunction())
          for (unsigned K = 0; K < CB->arg_size(); ++K)
            Sinks += isSinkArg(D->getName(), K);
  C.nontrivial(Precise ? !Dyn.empty() && Dyn.size() < Sinks : !Dyn.empty());
  for (auto &[I, V] : Dyn)
    PBT_CHECK(C, Rep.count({I, V}), "leak not reported: " + str(V) + " at " + str(I));
  if (Precise)
    for (auto &[I, V] : Rep)
      PBT_CHECK(C, Dyn.count({I, V}), "impossible leak: " + str(V) + " at " + str(I));
  for (auto &[I, V] : Rep) {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(I);
    bool Ok = false;
    if (CB && CB->getCalledFunction())
      for (unsigned K = 0; K < CB->arg_size(); ++K)
        Ok |= CB->getArgOperand(K) == V &&
              isSinkArg(CB->getCalledFunction()->getName(), K);
    else if (CB)
      Ok = V == CB->getArgOperand(1);
    PBT_CHECK(C, Ok, "leak at something that is no sink: " + str(I));
    // a leaked value is a fact at the sink
    PBT_CHECK(C, S.ifdsResultsAt(I).count(V), "leak is no fact: " + str(I));
  }
}

struct Ext {
  pbt::Ctx &C;
  bool Ref, Sani;
  llvm::Function *H[2] = {};

  llvm::Function *helper(irgen::Gen &G, const char *Name) {
    auto *F = Function::Create(
        llvm::FunctionType::get(G.Void, {G.I32P, G.I32}, false),
        Function::InternalLinkage, Name, *G.M);
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(G.Ctx, "entry", F));
    Value *V = nullptr;
    for (unsigned N = 1 + C.draw(3); N; --N) {
      switch (C.draw(4)) {
      case 0:
        V = B.CreateLoad(G.I32, F->getArg(0));
        break;
      case 1:
        B.CreateCall(G.ext("sink", G.Void, {G.I32}),
                     {V && C.flip() ? V : F->getArg(1)});
        break;
      case 2:
        B.CreateStore(V && C.flip() ? V : F->getArg(1), F->getArg(0));
        break;
      case 3:
        B.CreateStore(G.smallNum(), F->getArg(0));
        break;
      }
    }
    B.CreateRetVoid();
    return F;
  }
  Value *lv(irgen::Gen &G) {
    if (Ref) // alias-free: only own locals
      return G.Ints.empty() ? nullptr : C.pick(G.Ints);
    return G.intLV();
  }
  void operator()(irgen::Gen &G) {
    auto &B = G.B;
    auto *V = G.Void;
    auto *I = G.I32;
    auto *P = G.I32P;
    switch (C.draw(Ref ? 11 : 14)) {
    case 10:
      if (Sani)
        if (auto *L = lv(G))
          B.CreateCall(G.ext("sinksani", V, {P}), {L});
      break;
    case 11: { // aggregates in registers
      auto *ST = llvm::StructType::get(I, I);
      Value *A = C.flip() ? (Value *)llvm::UndefValue::get(ST)
                          : llvm::ConstantAggregateZero::get(ST);
      unsigned Num = 1 + C.draw(3), Last = 0;
      std::vector<Value *> As;
      for (unsigned K = 0; K < Num; ++K) {
        A = B.CreateInsertValue(K ? C.pick(As) : A, G.intRV(), {Last = (unsigned)C.draw(2)});
        As.push_back(A);
      }
      for (unsigned K = 1 + C.draw(2); K; --K)
        G.useResult(B.CreateExtractValue(
            C.pick(As), {Num == 1 ? Last : (unsigned)C.draw(2)}));
      break;
    }
    case 12:
    case 13: // several possible callees, some of them without a body
      if (!G.Ints.empty()) {
        auto *FT = llvm::FunctionType::get(V, {P, I}, false);
        auto Fn = [&]() -> Value * {
          static const char *const Ns[] = {"snk3", "src3", "san3", "nop3"};
          if (H[0] && C.flip())
            return H[C.draw(2)];
          return G.ext(Ns[C.draw(4)], V, {P, I});
        };
        auto &Entry = B.GetInsertBlock()->getParent()->getEntryBlock();
        auto *Slot = llvm::IRBuilder<>(&Entry, Entry.begin())
                         .CreateAlloca(FT->getPointerTo());
        B.CreateStore(Fn(), Slot);
        if (C.flip()) {
          auto *Sel = B.CreateSelect(
              B.CreateICmpSGT(G.intRV(), G.smallNum()), Fn(), Fn());
          B.CreateStore(Sel, Slot);
        }
        auto *FP = B.CreateLoad(FT->getPointerTo(), Slot);
        B.CreateCall(FT, FP, {C.pick(G.Ints), G.intRV()});
      }
      break;
    case 0:
    case 1:
      G.useResult(B.CreateCall(G.ext("source", I, {}), {}));
      break;
    case 2:
      if (auto *L = lv(G))
        B.CreateCall(G.ext("source_p", V, {P}), {L});
      break;
    case 3:
    case 4:
      B.CreateCall(G.ext("sink", V, {I}), {G.intRV()});
      break;
    case 5:
      if (auto *L = lv(G))
        B.CreateCall(G.ext("sink_p", V, {P}), {L});
      break;
    case 6:
      B.CreateCall(G.ext(C.flip() ? "sink2" : "sinks", V, {I, I}),
                   {G.intRV(), G.intRV()});
      break;
    case 7:
      if (auto *L = lv(G))
        G.useResult(B.CreateCall(G.ext("both", I, {P, I}), {L, G.intRV()}));
      break;
    case 8:
      if (Sani) {
        if (auto *L = lv(G))
          B.CreateCall(G.ext("sani", V, {P}), {L});
        break;
      }
      G.useResult(B.CreateCall(G.ext("plain", I, {I}), {G.intRV()}));
      break;
    case 9:
      if (H[0] && !G.Ints.empty())
        // one caller per helper: the alias information is context-insensitive
        B.CreateCall(Ref ? helper(G, "h") : H[C.draw(2)],
                     {C.pick(G.Ints), G.intRV()});
      break;
    }
  }
};

void go(pbt::Ctx &C, irgen::Opts O, bool Precise) {
  O.Externs = false;
  O.ExtraWeight = 8;
  O.MainArgs = C.chance(1, 3);
  bool TaintArgs = C.flip();
  llvm::LLVMContext Ctx;
  irgen::Gen G(C, O, Ctx);
  Ext E{C, Precise, true};
  if (C.flip()) {
    E.H[0] = E.helper(G, "h1");
    E.H[1] = E.helper(G, "h2");
  }
  G.Extra = [&E](irgen::Gen &G) { E(G); };
  auto M = G.run();
  C.describe(irgen::print(*M));
  check(C, *M, Precise, TaintArgs);
}

void sound(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxBlocks = 5;
  O.Mem2RegOf = C.chance(1, 3) ? 3 : 0;
  O.PtrRets = C.flip();
  O.Ptrs = C.flip();

  O.Arrays = C.flip();
  O.Structs = !O.Ptrs && C.flip(); // no pointers inside structs
  O.Ternary = O.Select = O.Casts = C.chance(1, 3);
  O.FnPtrs = C.chance(1, 3);
  O.Invokes = C.chance(1, 3);
  O.Malloc = C.chance(1, 3);
  O.Memcpy = C.chance(1, 3);
  go(C, O, false);
}

void precise(pbt::Ctx &C) {
  irgen::Opts O;
  O.Ptrs = false;
  O.MaxBlocks = 1;
  O.MaxStmts = 14;
  O.Globals = false; // calls never kill facts about globals
  O.Recursion = false;
  O.Loops = false;
  O.Mem2RegOf = 0;
  go(C, O, true);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P08";
  P.Subs = {{"sound",
             "random programs with sources, sinks and sanitizers are executed "
             "with taint tracking; every leak that happens has to be reported. "
             "Non-trivial: a leak happened",
             sound, 40000},
            {"precise",
             "random straight-line programs with calls by value and by "
             "reference: the reported leaks are exactly those that happen. "
             "Non-trivial: some sinks leak and some do not",
             precise, 20000}};
  P.Assumptions = {"taints follow copies (loads, stores, calls, casts, "
                   "selections), not arithmetic"};
  return pbt::run(argc, argv, P);
}
