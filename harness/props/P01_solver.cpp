// BUILD:
// P01: IDE/IFDS solver == meet over all valid paths
#include "../common/solver_gen.h"

using namespace sg;

static void finishStats(pbt::Ctx &C, const Prog &P, const RefStats &St) {
  C.nontrivial(St.FactsNonZero > 0 && St.CallsReached > 0);
  if (St.Recursive)
    C.label("recursive");
  if (St.MultiCallee)
    C.label("multi-callee");
  if (St.Sums)
    C.label("special-summary");
  if (St.NonFull)
    C.label("precise-value");
  if (St.CallsReached)
    C.label("interprocedural");
  if (P.Seeds.size() > 1)
    C.label("several-seeds");
}

static void ide(pbt::Ctx &C) {
  Options O;
  O.KillZero = true;
  auto P = genProg(C, O);
  RefStats St;
  auto Want = reference(*P, true, &St);
  finishStats(C, *P, St);
  C.describe(P->dump());
  IDEProb Prob(*P);
  auto &Cfg = Prob.getIFDSIDESolverConfig();
  if (C.chance(1, 6))
    Cfg.setRecordEdges(true);
  if (C.chance(1, 6))
    Cfg.setEmitESG(false);
  psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
  S.solve();
  Solution Got;
  for (auto &Cell : S.getSolverResults().getAllResultEntries())
    Got[{Cell.getRowKey(), Cell.getColumnKey()}] = Cell.getValue();
  auto D = diff(*P, Want, Got);
  PBT_CHECK(C, D.empty(), "solution differs from the meet over valid paths:" + D);
}

static void ifds(pbt::Ctx &C) {
  Options O;
  O.Values = false;
  O.KillZero = true;
  auto P = genProg(C, O);
  RefStats St;
  auto Want = reference(*P, false, &St);
  finishStats(C, *P, St);
  C.describe(P->dump());
  IFDSProb Prob(*P);
  psr::IFDSSolver S(Prob, P->ICF.get());
  S.solve();
  Solution Got;
  for (auto *F : P->Funs)
    for (auto *I : P->Insts[F])
      for (int D : S.ifdsResultsAt(I))
        Got[{I, D}] = MaskVal{Full};
  auto D = diff(*P, Want, Got);
  PBT_CHECK(C, D.empty(), "reported facts differ from those on valid paths:" + D);
}

static void unbalanced(pbt::Ctx &C) {
  Options O;
  O.Values = false;
  O.Summaries = false;
  O.Unbalanced = true;
  auto P = genProg(C, O);
  RefStats St;
  int Unb = 0;
  auto Want = reference(*P, false, &St, &Unb);
  if (Unb < 0)
    C.discard();
  C.nontrivial(Unb > 0 && St.FactsNonZero > 0);
  C.describe(P->dump());
  IFDSProb Prob(*P);
  Prob.getIFDSIDESolverConfig().setFollowReturnsPastSeeds(true);
  psr::IFDSSolver S(Prob, P->ICF.get());
  S.solve();
  Solution Got, W;
  for (auto *F : P->Funs)
    for (auto *I : P->Insts[F])
      if (I != P->Insts[F].front() && !P->Callees.count(I)) {
        for (int D : S.ifdsResultsAt(I))
          Got[{I, D}] = MaskVal{Full};
        for (int D = 0; D <= P->D; ++D)
          if (Want.count({I, D}))
            W[{I, D}] = MaskVal{Full};
      }
  auto D = diff(*P, W, Got);
  PBT_CHECK(C, D.empty(),
            "facts differ when returns past seeds are followed:" + D);
}

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P01";
  std::string Rule =
      "random IR module (1-4 functions, loops, invoke, unreachable), random "
      "call graph (0-3 callees per call, recursion, declarations), random "
      "flow relations over 1-4 facts, seeds at 1-3 procedure starts; "
      "non-trivial: a non-zero fact holds somewhere and a call is reached";
  P.Subs = {
      {"ide", Rule + "; random gen/kill edge functions over 4 bits", ide, 150000, 2000000, 400},
      {"unbalanced",
       Rule + "; the solver follows returns past its seeds; facts are compared "
              "at non-call, non-start statements; non-trivial: an unbalanced "
              "return happens and a non-zero fact holds",
       unbalanced, 60000, 1000000, 400},
      {"ifds", Rule, ifds, 80000, 1000000, 400},
  };
  P.Assumptions = {"flow and edge functions are distributive and edge functions "
                   "strict in top, as the IDE framework requires",
                   "seeds are placed at procedure starts"};
  return pbt::run(argc, argv, P);
}
