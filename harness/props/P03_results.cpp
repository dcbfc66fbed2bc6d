// BUILD:
// P03: all views of the solver results agree
#include "../common/solver_gen.h"
#include "nlohmann/json.hpp"

using namespace sg;
using Row = std::map<int, MaskVal>;

template <typename M> static Row toRow(const M &X) {
  Row R;
  for (auto &[K, V] : X)
    R[K] = V;
  return R;
}
static std::string str(const Row &R) {
  std::string S = "{";
  for (auto &[K, V] : R)
    S += " " + std::to_string(K) + "=" + std::to_string(V.V);
  return S + " }";
}

// the row a query "in LLVM's SSA view" has to give, or none if only an
// over-approximation is possible
static std::vector<Row> ssaRows(const Prog &P, Inst I,
                                const std::map<Inst, Row> &Tab, bool &Exact) {
  auto Get = [&](Inst N) {
    auto It = Tab.find(N);
    return It == Tab.end() ? Row{} : It->second;
  };
  Exact = true;
  if (I->getType()->isVoidTy())
    return {Get(I)};
  if (auto *Inv = llvm::dyn_cast<llvm::InvokeInst>(I)) {
    auto *ND = Inv->getNormalDest();
    Exact = ND->hasNPredecessors(1);
    return {Get(skipDbg(&ND->front()))};
  }
  return {Get(P.Succs.at(I).front())};
}

template <typename R>
static void checkViews(pbt::Ctx &C, const Prog &P, const R &Rs,
                       const std::map<Inst, Row> &Tab, const char *Which) {
  std::vector<Inst> All;
  for (auto *F : P.Funs)
    for (auto *I : P.Insts.at(F))
      All.push_back(I);
  auto W = [&](Inst I) {
    return std::string(Which) + " at n" + std::to_string(P.Id.at(I)) + ": ";
  };
  // a random history of queries
  unsigned N = 10 + C.draw(30);
  for (unsigned K = 0; K < N; ++K) {
    Inst I = All[C.draw(All.size())];
    auto It = Tab.find(I);
    Row Want = It == Tab.end() ? Row{} : It->second;
    switch (C.draw(6)) {
    case 0: {
      auto G = toRow(Rs.resultsAt(I));
      PBT_CHECK(C, G == Want, W(I) + "resultsAt " + str(G) + " want " + str(Want));
      break;
    }
    case 1: {
      bool Strip = C.flip();
      auto G = toRow(Rs.resultsAt(I, Strip));
      if (Strip)
        Want.erase(0);
      PBT_CHECK(C, G == Want,
                W(I) + "resultsAt(strip zero) " + str(G) + " want " + str(Want));
      break;
    }
    case 2: {
      int D = C.draw(P.D + 2);
      MaskVal G = Rs.resultAt(I, D);
      MaskVal E = Want.count(D) ? Want[D] : MaskVal{};
      PBT_CHECK(C, G == E, W(I) + pbt::strf("resultAt(%d)=%d want %d", D, G.V, E.V));
      break;
    }
    case 3: {
      bool Strip = C.flip();
      bool Exact;
      auto E = ssaRows(P, I, Tab, Exact).front();
      if (Strip)
        E.erase(0);
      bool Over = !Exact || C.flip();
      auto G = toRow(Rs.resultsAtInLLVMSSA(I, Over, Strip));
      if (!I->getType()->isVoidTy())
        C.label(Exact ? "ssa exact" : "ssa over-approximated");
      if (Exact)
        PBT_CHECK(C, G == E,
                  W(I) + "resultsAtInLLVMSSA " + str(G) + " want " + str(E));
      else
        for (auto &[D, V] : E)
          PBT_CHECK(C, G.count(D) && joinMask(G[D], V) == G[D],
                    W(I) + "resultsAtInLLVMSSA " + str(G) +
                        " does not cover " + str(E));
      break;
    }
    case 4: {
      int D = C.draw(P.D + 1);
      bool Exact;
      auto E = ssaRows(P, I, Tab, Exact).front();
      MaskVal X = E.count(D) ? E[D] : MaskVal{};
      MaskVal G = Rs.resultAtInLLVMSSA(I, D, !Exact || C.flip());
      if (Exact)
        PBT_CHECK(C, G == X,
                  W(I) + pbt::strf("resultAtInLLVMSSA(%d)=%d want %d", D, G.V, X.V));
      else
        PBT_CHECK(C, joinMask(G, X) == G,
                  W(I) + pbt::strf("resultAtInLLVMSSA(%d)=%d does not cover %d",
                                   D, G.V, X.V));
      break;
    }
    case 5: {
      Solution S;
      size_t Cnt = 0;
      for (auto &Cell : Rs.getAllResultEntries()) {
        S[{Cell.getRowKey(), Cell.getColumnKey()}] = Cell.getValue();
        ++Cnt;
      }
      Solution T;
      for (auto &[I2, R2] : Tab)
        for (auto &[D, V] : R2)
          T[{I2, D}] = V;
      PBT_CHECK(C, S == T && Cnt == T.size(),
                std::string(Which) + ": entries changed:" + diff(P, T, S));
      break;
    }
    }
  }
}

static void views(pbt::Ctx &C) {
  Options O;
  auto P = genProg(C, O);
  C.describe(P->dump());
  IDEProb Prob(*P);
  psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
  auto R0 = S.solve();
  auto Want = reference(*P, true);
  std::map<Inst, Row> Tab;
  for (auto &[K, V] : Want)
    Tab[K.first][K.second] = V;
  C.nontrivial(Want.size() > 8);
  checkViews(C, *P, R0, Tab, "solve()");
  // the solver's own accessors
  for (auto *F : P->Funs)
    for (auto *CI : P->Insts[F]) {
      auto *I = const_cast<llvm::Instruction *>(CI);
      if (!C.chance(1, 3))
        continue;
      Row E = Tab.count(I) ? Tab[I] : Row{};
      auto G = toRow(S.resultsAt(I));
      PBT_CHECK(C, G == E, "IDESolver::resultsAt " + str(G) + " want " + str(E));
      Row EZ = E;
      EZ.erase(0);
      G = toRow(S.resultsAt(I, true));
      PBT_CHECK(C, G == EZ, "IDESolver::resultsAt(strip) " + str(G));
      int D = C.draw(P->D + 1);
      PBT_CHECK(C, S.resultAt(I, D) == (E.count(D) ? E[D] : MaskVal{}),
                "IDESolver::resultAt");
    }
  // JSON
  if (C.flip()) {
    auto J = S.getAsJson();
    std::map<std::string, std::set<std::pair<std::string, std::string>>> Got, Exp;
    for (auto &[I, Rw] : Tab)
      for (auto &[D, V] : Rw)
        Exp[I->getFunction()->getName().str() + "::" +
            llvm::StringRef(psr::llvmIRToString(I)).trim().str()]
            .insert({std::to_string(D), std::to_string(V.V)});
    if (Exp.empty()) {
      PBT_CHECK(C, J["DataFlow"] == "EMPTY", "JSON of an empty result");
    } else {
      for (auto &[K, V] : J["DataFlow"].items())
        for (auto &F : V["Facts"])
          Got[K].insert({F[0].get<std::string>(), F[1].get<std::string>()});
      PBT_CHECK(C, Got == Exp, "JSON disagrees: " + J.dump());
    }
    C.label("json");
  }
  if (C.chance(1, 4)) {
    std::string Txt;
    llvm::raw_string_ostream OS(Txt);
    R0.dumpResults(*P->ICF, OS);
    OS.flush();
    size_t Lines = 0, Pos = 0;
    while ((Pos = Txt.find("\tD: ", Pos)) != std::string::npos) {
      ++Lines;
      ++Pos;
    }
    PBT_CHECK(C, Lines == Want.size(), "dumpResults lists " +
                                           std::to_string(Lines) + " of " +
                                           std::to_string(Want.size()));
    C.label("dump");
  }
  checkViews(C, *P, S.getSolverResults(), Tab, "getSolverResults()");
  auto Own = S.consumeSolverResults();
  checkViews(C, *P, Own, Tab, "consumeSolverResults()");
  checkViews(C, *P, Own.get(), Tab, "OwningSolverResults::get()");
}

static void ifdsViews(pbt::Ctx &C) {
  Options O;
  O.Values = false;
  auto P = genProg(C, O);
  C.describe(P->dump());
  IFDSProb Prob(*P);
  psr::IFDSSolver S(Prob, P->ICF.get());
  S.solve();
  auto Want = reference(*P, false);
  std::map<Inst, std::set<int>> Tab;
  for (auto &[K, V] : Want)
    Tab[K.first].insert(K.second);
  C.nontrivial(Want.size() > 8);
  auto Rs = S.getSolverResults();
  auto J = S.getAsJson();
  for (auto *F : P->Funs)
    for (auto *I : P->Insts[F]) {
      PBT_CHECK(C, S.ifdsResultsAt(I) == Tab[I], "ifdsResultsAt (solver)");
      PBT_CHECK(C, Rs.ifdsResultsAt(I) == Tab[I], "ifdsResultsAt (results)");
      if (!I->isTerminator()) {
        auto G = S.ifdsResultsAtInLLVMSSA(const_cast<llvm::Instruction *>(I));
        Inst N = I->getType()->isVoidTy() ? I : P->Succs[I].front();
        PBT_CHECK(C, G == Tab[N],
                  pbt::strf("ifdsResultsAtInLLVMSSA at n%d", P->Id[I]));
        for (bool Strip : {false, true}) {
          auto M = S.resultsAtInLLVMSSA(const_cast<llvm::Instruction *>(I), Strip);
          std::set<int> Ks, E = Tab[N];
          for (auto &[K, V] : M)
            Ks.insert(K);
          if (Strip)
            E.erase(0);
          PBT_CHECK(C, Ks == E,
                    pbt::strf("IFDSSolver::resultsAtInLLVMSSA(n%d, %d)",
                              P->Id[I], Strip));
        }
      }
    }
}

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P03";
  P.Subs = {
      {"views",
       "random solved IDE problem as in P01 (also with debug intrinsics, "
       "value-producing statements and invokes) and a random history of "
       "result queries; non-trivial: more than 8 results",
       views, 200000, 4000000, 200},
      {"ifds",
       "random solved IFDS problem, every accessor at every statement; "
       "non-trivial: more than 8 results",
       ifdsViews, 120000, 3000000, 200},
  };
  return pbt::run(argc, argv, P);
}
