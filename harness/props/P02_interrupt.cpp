// BUILD:
// P02: interrupted / resumed solving == one uninterrupted run
#include "../common/solver_gen.h"
#include <atomic>
#include <chrono>

using namespace sg;
using Res = Solution;
using Entries = std::vector<psr::Table<Inst, int, MaskVal>::Cell>;

template <typename R> static Res toSol(const R &Rs) {
  Res S;
  for (auto &Cell : Rs.getAllResultEntries())
    S[{Cell.getRowKey(), Cell.getColumnKey()}] = Cell.getValue();
  return S;
}

// One step of a solving history. Returns the results if it completed.
static void history(pbt::Ctx &C) {
  Options O;
  O.MaxFuns = 3;
  auto P = genProg(C, O);
  if (C.chance(1, 25))
    P->Seeds.clear();
  C.describe(P->dump());
  Res Want;
  uint64_t TotalQ;
  {
    IDEProb Prob(*P);
    psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
    Want = toSol(S.solve());
    TotalQ = Prob.Queries;
  }
  IDEProb Prob(*P);
  psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
  std::atomic_bool Cancel{false};
  uint64_t CancelAt = ~0ULL;
  Prob.OnQuery = [&] {
    if (Prob.Queries >= CancelAt)
      Cancel = true;
  };
  std::optional<Res> Got;
  std::string Hist;
  int Interrupts = 0;
  bool First = true;
  unsigned Steps = 0;
  auto Take = [&](auto Opt) {
    if (Opt)
      Got = toSol(*Opt);
    else
      ++Interrupts;
  };
  using namespace std::chrono_literals;
  bool Manual = C.chance(1, 4);
  if (Manual) {
    // the low-level stepping interface
    Hist = "manual";
    bool More = S.initialize();
    while (More) {
      if (C.flip()) {
        More = S.next();
      } else {
        size_t N = C.draw(6);
        Hist += " nextN(" + std::to_string(N) + ")";
        More = S.nextN(N);
      }
      ++Interrupts;
      if (++Steps > 40) { // to the end
        while (More)
          More = S.next();
      }
    }
    Got = toSol(S.finalize());
  }
  while (!Got) {
    bool Last = ++Steps > 12;
    size_t Kind = Last ? 3 : C.weighted({4, 3, 2, 2});
    switch (Kind) {
    case 0: { // asynchronous cancellation
      Cancel = C.chance(1, 8);
      CancelAt = Prob.Queries + C.draw(TotalQ / 2 + 2);
      if (C.chance(1, 5))
        CancelAt = TotalQ; // about when it completes
      Hist += pbt::strf(" %s-async(cancel at query %llu)",
                        First ? "solve" : "continue",
                        (unsigned long long)CancelAt);
      if (First)
        Take(S.solveWithAsyncCancellation(Cancel));
      else
        Take(S.continueWithAsyncCancellation(Cancel));
      CancelAt = ~0ULL;
      Cancel = false;
      break;
    }
    case 1: { // until a predicate holds
      uint64_t K = C.draw(4);
      bool WithTime = C.flip();
      auto Interval = std::chrono::milliseconds(C.draw(2));
      Hist += pbt::strf(" %s-until(%llu checks, %d ms)",
                        First ? "solve" : "continue", (unsigned long long)K,
                        (int)Interval.count());
      uint64_t Calls = 0;
      auto Pr0 = [&Calls, K] { return ++Calls > K; };
      auto Pr1 = [&Calls, K](std::chrono::steady_clock::time_point) {
        return ++Calls > K;
      };
      if (First) {
        if (WithTime)
          Take(S.solveUntil(Pr1, Interval));
        else
          Take(S.solveUntil(Pr0, Interval));
      } else {
        if (WithTime)
          Take(S.continueUntil(Pr1, Interval));
        else
          Take(S.continueUntil(Pr0, Interval));
      }
      break;
    }
    case 2: { // timeout
      auto T = std::chrono::milliseconds(C.draw(3) * 50);
      Hist += pbt::strf(" %s-timeout(%d ms)", First ? "solve" : "continue",
                        (int)T.count());
      if (First)
        Take(S.solveWithTimeout(T, 1ms));
      else
        Take(S.continueWithTimeout(T, 1ms));
      break;
    }
    case 3:
      Hist += First ? " solve" : " continue";
      if (First)
        Got = toSol(S.solve());
      else
        Got = toSol(S.continueSolving());
      break;
    }
    First = false;
  }
  C.describe(Hist);
  C.nontrivial(Interrupts > 0 && Want.size() > 3);
  if (Interrupts > 1)
    C.label("interrupted twice or more");
  if (Manual)
    C.label("manual stepping");
  auto D = diff(*P, Want, *Got);
  PBT_CHECK(C, D.empty(), "history [" + Hist + "] gives another result:" + D);
  // the results stay available from the solver
  auto Again = toSol(S.getSolverResults());
  PBT_CHECK(C, diff(*P, Want, Again).empty(),
            "results read again differ:" + diff(*P, Want, Again));
}

// A problem that answers "complete" must really be complete, one that takes
// long per step must still finish with a short checking interval.
static void progress(pbt::Ctx &C) {
  Options O;
  O.MaxFuns = 2;
  O.MaxBlocks = 3;
  auto P = genProg(C, O);
  C.describe(P->dump());
  Res Want;
  {
    IDEProb Prob(*P);
    psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
    Want = toSol(S.solve());
  }
  IDEProb Prob(*P);
  uint64_t DelayUs = C.draw(4) * 700;
  uint64_t Every = 1 + C.draw(4);
  uint64_t Sleeps = 0;
  Prob.OnQuery = [&] {
    // virtual delay: busy wait, bounded in total
    if (DelayUs && Prob.Queries % Every == 0 && ++Sleeps < 12) {
      auto End = std::chrono::steady_clock::now() +
                 std::chrono::microseconds(DelayUs);
      while (std::chrono::steady_clock::now() < End)
        ;
    }
  };
  psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
  uint64_t Checks = 0;
  auto Interval = std::chrono::milliseconds(C.draw(3));
  C.describe(pbt::strf("delay %d us every %d queries, interval %d ms",
                       (int)DelayUs, (int)Every, (int)Interval.count()));
  // never asks for cancellation; gives up after a generous number of checks
  uint64_t Limit = 200000;
  bool GaveUp = false;
  auto R = S.solveUntil(
      [&] {
        if (++Checks > Limit)
          GaveUp = true;
        return GaveUp;
      },
      Interval);
  C.nontrivial(Want.size() > 6);
  PBT_CHECK(C, !GaveUp, "no progress: cancellation was checked " +
                            std::to_string(Checks) + " times");
  PBT_CHECK(C, R.has_value(), "reported as cancelled without a request");
  auto D = diff(*P, Want, toSol(*R));
  PBT_CHECK(C, D.empty(), "result differs:" + D);
}

// owning results survive the solver
static void owning(pbt::Ctx &C) {
  Options O;
  auto P = genProg(C, O);
  C.describe(P->dump());
  auto Want = reference(*P, true);
  C.nontrivial(Want.size() > 6);
  IDEProb Prob(*P);
  std::optional<psr::OwningSolverResults<Inst, int, MaskVal>> R;
  std::atomic_bool Cancel{false};
  size_t Kind = C.draw(4);
  {
    psr::IDESolver<IntDomain> S(Prob, P->ICF.get());
    switch (Kind) {
    case 0:
      R.emplace(std::move(S).solve());
      break;
    case 1:
      S.solve();
      R.emplace(S.consumeSolverResults());
      break;
    case 2: {
      auto X = std::move(S).solveWithAsyncCancellation(Cancel);
      PBT_CHECK(C, X.has_value(), "cancelled without a request");
      R.emplace(std::move(*X));
      break;
    }
    case 3: {
      auto X = std::move(S).solveUntil([] { return false; });
      PBT_CHECK(C, X.has_value(), "cancelled without a request");
      R.emplace(std::move(*X));
      break;
    }
    }
  }
  auto D = diff(*P, Want, toSol(*R));
  PBT_CHECK(C, D.empty(), "moved-out result differs:" + D);
  auto V = R->get();
  PBT_CHECK(C, diff(*P, Want, toSol(V)).empty(), "view of moved-out result");
}

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P02";
  std::string Rule = "random IR module, call graph and IDE problem as in P01";
  P.Subs = {
      {"history",
       Rule + "; up to 12 solving steps, each with asynchronous cancellation at "
              "a random flow-function query, a predicate firing at the k-th "
              "check, a timeout, or single stepping; non-trivial: interrupted "
              "at least once and more than 3 results",
       history, 40000, 600000, 200},
      {"progress",
       Rule + "; slow flow functions and checking intervals of 0-2 ms, never "
              "cancelled; non-trivial: more than 6 results",
       progress, 2500, 30000, 20},
      {"owning",
       Rule + "; results moved out of the solver; non-trivial: more than 6 "
              "results",
       owning, 20000, 200000, 200},
  };
  P.Assumptions = {"continue*() is only called after an interrupted solve, as "
                   "documented"};
  return pbt::run(argc, argv, P);
}
