// BUILD:
// P13: building call graphs incrementally and storing/reloading them loses
// nothing and invents nothing.
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/ControlFlow/CallGraph.h"
#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/HelperAnalyses.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/SourceMgr.h"
#include "nlohmann/json.hpp"

#include <regex>
#include <set>

using namespace psr;
using llvm::CallBase;
using llvm::Function;
using llvm::Instruction;

namespace {
using Rel = std::map<std::string, std::multiset<std::string>>;

std::string id(const Instruction *I) {
  if (!I)
    return "null";
  return getMetaDataID(I);
}

// callee -> call sites (by id); only of call sites accepted by Keep
template <typename CG>
Rel callers(pbt::Ctx &C, const CG &G, const std::string &W) {
  Rel R, Inv;
  std::set<const Function *> Vtx;
  for (auto *F : G.getAllVertexFunctions()) {
    PBT_CHECK(C, F && Vtx.insert(F).second, W + "function vertex twice");
    auto &S = R[F->getName().str()];
    for (auto *CS : G.getCallersOf(F)) {
      PBT_CHECK(C, CS, W + "null caller of " + F->getName().str());
      S.insert(id(CS));
    }
  }
  std::set<const Instruction *> CSs;
  for (auto *F : Vtx)
    Inv[F->getName().str()];
  for (auto *CS : G.getAllVertexCallSites()) {
    PBT_CHECK(C, CS && CSs.insert(CS).second, W + "call site twice/null");
    for (auto *F : G.getCalleesOfCallAt(CS))
      Inv[F->getName().str()].insert(id(CS));
  }
  PBT_CHECK(C, R == Inv, W + "callers and callees are not inverse");
  PBT_CHECK(C, G.getNumVertexFunctions() == Vtx.size() &&
                   G.size() == Vtx.size() && G.empty() == Vtx.empty() &&
                   G.getNumVertexCallSites() == CSs.size(),
            W + "sizes");
  return R;
}

std::string show(const Rel &R) {
  std::string S;
  for (auto &[F, X] : R) {
    S += F + ":";
    for (auto &Y : X)
      S += " " + Y;
    S += "; ";
  }
  return S;
}

void reload(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Opts O;
  O.MaxFuns = 6;
  O.MaxBlocks = 4;
  O.FnPtrs = C.flip();
  O.Recursion = true;
  O.Linkage = C.chance(1, 4);
  O.Dbg = C.chance(1, 4);
  irgen::Gen G(C, O, Ctx);
  auto M = G.run();
  // odd function names
  static const char *Odd[] = {"x\"y", "a.b", "a b", "back\\slash", "\xc3\xa9",
                              "_ZN1A1fEv", "new\nline", "__psrX"};
  for (auto *F : G.Funs)
    if (F->getName() != "main" && C.chance(1, 6))
      F->setName(Odd[C.draw(8)]);
  std::string Text = irgen::print(*M);
  C.describe(Text);
  LLVMProjectIRDB IRDB(M.get());
  std::vector<std::string> Entries{"main"};
  switch (C.draw(6)) {
  case 0:
    Entries = {"__ALL__"};
    break;
  case 1:
    Entries.push_back(C.pick(G.Funs)->getName().str());
    break;
  case 2:
    if (C.chance(1, 3))
      Entries = {"no such function"};
    break;
  }
  bool Globals = C.flip() && Entries[0] == "main";
  auto T = std::array{CallGraphAnalysisType::CHA, CallGraphAnalysisType::RTA,
                      CallGraphAnalysisType::OTF,
                      CallGraphAnalysisType::NORESOLVE}[C.draw(4)];
  LLVMBasedICFG I(&IRDB, T, Entries, nullptr, nullptr, Soundness::Soundy,
                  Globals);
  auto Want = callers(C, I.getCallGraph(), "built: ");
  unsigned NE = 0;
  for (auto &[F, S] : Want)
    NE += S.size();
  C.nontrivial(NE >= 3);
  C.label(Globals ? "with global model" : "without global model");
  // JSON
  std::string J;
  {
    llvm::raw_string_ostream OS(J);
    I.printAsJson(OS);
  }
  auto Data = CallGraphData::loadJsonString(J);
  LLVMBasedICFG I2(&IRDB, Data);
  auto Got = callers(C, I2.getCallGraph(), "reloaded: ");
  PBT_CHECK(C, Got == Want,
            "reloaded call graph differs\n" + show(Want) + "\n" + show(Got));
  for (auto *F : IRDB.getAllFunctions())
    for (auto &X : llvm::instructions(*F)) {
      if (!llvm::isa<CallBase>(X))
        continue;
      auto A = I.getCalleesOfCallAt(&X), B = I2.getCalleesOfCallAt(&X);
      PBT_CHECK(C, std::multiset<const Function *>(A.begin(), A.end()) ==
                       std::multiset<const Function *>(B.begin(), B.end()),
                "reloaded callees differ");
      PBT_CHECK(C, I2.isIndirectFunctionCall(&X) == I.isIndirectFunctionCall(&X),
                "isIndirectFunctionCall differs");
    }
  {
    auto JJ = nlohmann::json::parse(J);
    auto Old = I.getAsJson();
    for (auto *X : {&JJ, &Old})
      for (auto &E : *X)
        if (E.is_array())
          std::sort(E.begin(), E.end());
    PBT_CHECK(C, JJ == Old || (JJ.empty() && Old.empty()), "printAsJson and getAsJson disagree");
  }
  // into a database of the same program that was loaded anew
  {
    llvm::LLVMContext Ctx2;
    llvm::SMDiagnostic D;
    auto M2 = llvm::parseAssemblyString(Text, D, Ctx2);
    PBT_CHECK(C, M2, "harness: cannot parse");
    LLVMProjectIRDB DB2(M2.get());
    LLVMBasedICFG I3(&DB2, Data);
    auto Got3 = callers(C, I3.getCallGraph(), "reloaded in fresh db: ");
    Rel Want3;
    for (auto &[F, S] : Want) {
      if (!DB2.getFunction(F))
        continue;
      auto &X = Want3[F];
      for (auto &Y : S)
        if (DB2.getInstruction(std::stoul(Y)))
          X.insert(Y);
    }
    PBT_CHECK(C, Got3 == Want3,
              "call graph reloaded into a fresh database differs\n" +
                  show(Want3) + "\n" + show(Got3));
    // through the helper analyses
    if (C.chance(1, 3)) {
      HelperAnalysisConfig Cfg;
      Cfg.PrecomputedCG = nlohmann::json::parse(J);
      Cfg.CGTy = T;
      Cfg.AutoGlobalSupport = false;
      HelperAnalyses HA(M2.get(), Entries, std::move(Cfg));
      auto Got4 = callers(C, HA.getICFG().getCallGraph(), "helper analyses: ");
      PBT_CHECK(C, Got4 == Want3, "call graph of the helper analyses differs");
    }
  }
  // DOT: one edge per call edge
  {
    std::string S;
    llvm::raw_string_ostream OS(S);
    I.print(OS);
    OS.flush();
    std::map<std::string, std::string> Name;
    std::multiset<std::pair<std::string, std::string>> WantE, GotE;
    static const std::regex Node("^([0-9]+)\\[label=\"(.*)\"\\];$"),
        Edge("^([0-9]+)->([0-9]+)\\[label=\".*\"\\];$");
    std::vector<std::pair<std::string, std::string>> Es;
    llvm::SmallVector<llvm::StringRef> Lines;
    llvm::StringRef(S).split(Lines, '\n');
    for (auto L : Lines) {
      std::smatch X;
      std::string LS = L.str();
      if (std::regex_match(LS, X, Node))
        Name[X[1]] = X[2];
      else if (std::regex_match(LS, X, Edge))
        Es.push_back({X[1], X[2]});
    }
    for (auto &[A, B] : Es)
      GotE.insert({Name[A], Name[B]});
    auto Esc = [](llvm::StringRef N) {
      std::string R;
      llvm::raw_string_ostream OS(R);
      OS.write_escaped(N);
      return OS.str();
    };
    for (auto *CS : I.getCallGraph().getAllVertexCallSites())
      for (auto *F : I.getCalleesOfCallAt(CS))
        WantE.insert({Esc(CS->getFunction()->getName()), Esc(F->getName())});
    PBT_CHECK(C, Name.size() == Want.size(), "DOT: number of nodes");
    PBT_CHECK(C, GotE == WantE, "DOT: edges");
  }
}

// the builder against a relation
void builder(pbt::Ctx &C) {
  using CG = CallGraph<const int *, const long *>;
  static int Is[12];
  static long Fs[8];
  CallGraphBuilder<const int *, const long *> B;
  B.reserve(8);
  std::map<const int *, std::multiset<const long *>> Out;
  std::map<const long *, std::multiset<const int *>> In;
  unsigned N = 1 + C.draw(40);
  std::string S;
  auto Check = [&](const CG &G, const char *W) {
    PBT_CHECK(C, G.getNumVertexFunctions() == In.size(), std::string(W) + "#F");
    PBT_CHECK(C, G.getNumVertexCallSites() == Out.size(), std::string(W) + "#I");
    PBT_CHECK(C, G.empty() == In.empty(), "empty");
    for (auto &I : Is) {
      auto R = G.getCalleesOfCallAt(&I);
      PBT_CHECK(C, std::multiset<const long *>(R.begin(), R.end()) ==
                       (Out.count(&I) ? Out[&I] : std::multiset<const long *>{}),
                std::string(W) + "callees");
    }
    for (auto &F : Fs) {
      auto R = G.getCallersOf(&F);
      PBT_CHECK(C, std::multiset<const int *>(R.begin(), R.end()) ==
                       (In.count(&F) ? In[&F] : std::multiset<const int *>{}),
                std::string(W) + "callers");
    }
  };
  unsigned Edges = 0;
  std::map<const int *, llvm::SmallVector<const long *> *> IV;
  std::map<const long *, llvm::SmallVector<const int *> *> FV;
  for (unsigned K = 0; K < N; ++K) {
    auto *I = &Is[C.draw(12)];
    auto *F = &Fs[C.draw(8)];
    unsigned Op = C.draw(7);
    S += pbt::strf("%u(%d,%d) ", Op, int(I - Is), int(F - Fs));
    switch (Op) {
    case 0: {
      auto *V = B.addFunctionVertex(F);
      PBT_CHECK(C, V && (!FV.count(F) || FV[F] == V), "function vertex moved");
      FV[F] = V;
      In[F];
      break;
    }
    case 1: {
      auto *V = B.addInstructionVertex(I);
      PBT_CHECK(C, V && (!IV.count(I) || IV[I] == V), "call-site vertex moved");
      IV[I] = V;
      Out[I];
      break;
    }
    case 2: {
      auto *V = B.getInstVertexOrNull(I);
      PBT_CHECK(C, bool(V) == bool(Out.count(I)), "getInstVertexOrNull");
      PBT_CHECK(C, !IV.count(I) || IV[I] == V, "call-site vertex moved");
      break;
    }
    default:
      ++Edges;
      if (Op == 3 && IV.count(I))
        B.addCallEdge(I, IV[I], F);
      else if (Op == 4 && FV.count(F))
        B.addCallEdge(I, F, FV[F]);
      else
        B.addCallEdge(I, F);
      Out[I].insert(F);
      In[F].insert(I);
      break;
    }
    if (C.chance(1, 5))
      Check(B.viewCallGraph(), "view: ");
  }
  C.describe(S);
  C.nontrivial(Edges >= 5);
  CG G = B.consumeCallGraph();
  Check(G, "consumed: ");
  CG H = std::move(G);
  Check(H, "moved: ");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P13";
  P.Subs = {
      {"reload",
       "random programs (odd function names, function pointers, all entry "
       "point forms, with and without the global constructor model); the call "
       "graph is stored as JSON and reloaded into the same database, into a "
       "database of the reparsed program and into the helper analyses; the DOT "
       "output is parsed. Non-trivial: at least three call edges",
       reload, 10000},
      {"builder",
       "random histories of CallGraphBuilder operations against a relation. "
       "Non-trivial: at least five edges",
       builder, 20000}};
  return pbt::run(argc, argv, P);
}
