// BUILD:
// P20: graph minimisation/reversal keep the labelled paths, and the path DAG of
// a query spells exactly the paths of the exploded supergraph.
#include "pbt.h"
#include "solver_gen.h"

#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/DataFlow/PathSensitivity/PathSensitivityConfig.h"
#include "phasar/DataFlow/PathSensitivity/PathSensitivityManager.h"
#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/DFAMinimizer.h"
#include "phasar/Utils/GraphTraits.h"

#include <algorithm>
#include <functional>
#include <set>

using namespace psr;

// ---- a weighted graph of our own
namespace {
struct WG {
  struct E {
    unsigned T;
    int W;
    friend bool operator==(E A, E B) { return A.T == B.T && A.W == B.W; }
    friend bool operator!=(E A, E B) { return !(A == B); }
    friend bool operator<(E A, E B) {
      return A.T != B.T ? A.T < B.T : A.W < B.W;
    }
    friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, E X) {
      return OS << X.T;
    }
  };
  std::vector<int> Lab;
  std::vector<std::vector<E>> Out;
  std::vector<unsigned> Rts;
};
} // namespace
namespace psr {
template <> struct GraphTraits<WG> {
  using graph_type = WG;
  using value_type = int;
  using vertex_t = unsigned;
  using edge_t = WG::E;
  static inline constexpr unsigned Invalid = ~0u;
  template <typename U> static unsigned addNode(WG &G, U &&V) {
    G.Lab.push_back(V);
    G.Out.emplace_back();
    return G.Lab.size() - 1;
  }
  static void addEdge(WG &G, unsigned V, WG::E E) { G.Out[V].push_back(E); }
  static const std::vector<WG::E> &outEdges(const WG &G, unsigned V) {
    return G.Out[V];
  }
  static size_t outDegree(const WG &G, unsigned V) { return G.Out[V].size(); }
  static void dedupOutEdges(WG &G, unsigned V) {
    auto &O = G.Out[V];
    std::sort(O.begin(), O.end());
    O.erase(std::unique(O.begin(), O.end()), O.end());
  }
  static const std::vector<int> &nodes(const WG &G) { return G.Lab; }
  static auto vertices(const WG &G) {
    return llvm::seq(0u, (unsigned)G.Lab.size());
  }
  static int node(const WG &G, unsigned V) { return G.Lab[V]; }
  static size_t size(const WG &G) { return G.Lab.size(); }
  static void addRoot(WG &G, unsigned V) { G.Rts.push_back(V); }
  static const std::vector<unsigned> &roots(const WG &G) { return G.Rts; }
  static bool pop(WG &G, unsigned V) {
    if (V + 1 != G.Lab.size())
      return false;
    G.Lab.pop_back();
    G.Out.pop_back();
    return true;
  }
  static size_t roots_size(const WG &G) { return G.Rts.size(); }
  static unsigned target(WG::E E) { return E.T; }
  static WG::E withEdgeTarget(WG::E E, unsigned T) { return {T, E.W}; }
  static int weight(WG::E E) { return E.W; }
};
} // namespace psr

namespace {
template <typename W> int wOf(W X) {
  if constexpr (std::is_same_v<W, llvm::NoneType>)
    return 0;
  else
    return X;
}
template <typename N> int lOf(const N &X) {
  if constexpr (std::is_same_v<N, llvm::NoneType>)
    return 0;
  else
    return X;
}

// all words from the roots; a word ends at a leaf or at the length limit
template <typename G>
std::set<std::vector<int>> words(const G &Gr, size_t Max, bool &Big) {
  using T = GraphTraits<G>;
  std::set<std::vector<int>> R;
  std::vector<int> Cur;
  size_t Steps = 0;
  std::function<void(unsigned)> Go = [&](unsigned V) {
    if (++Steps > 20000) {
      Big = true;
      return;
    }
    Cur.push_back(lOf(T::node(Gr, V)));
    if (T::outDegree(Gr, V) == 0) {
      auto W = Cur;
      W.push_back(-1);
      R.insert(W);
    } else if (Cur.size() >= 2 * Max)
      R.insert(Cur);
    else
      for (auto E : T::outEdges(Gr, V)) {
        Cur.push_back(100 + wOf(T::weight(E)));
        Go(T::target(E));
        Cur.pop_back();
      }
    Cur.pop_back();
  };
  for (auto Rt : T::roots(Gr))
    Go(Rt);
  return R;
}

template <typename G> std::string dump(const G &Gr) {
  using T = GraphTraits<G>;
  std::string S;
  for (unsigned V = 0; V < T::size(Gr); ++V) {
    S += pbt::strf("  %u[%d] ->", V, lOf(T::node(Gr, V)));
    for (auto E : T::outEdges(Gr, V))
      S += pbt::strf(" %u(%d)", (unsigned)T::target(E), wOf(T::weight(E)));
    S += "\n";
  }
  S += "  roots:";
  for (auto R : T::roots(Gr))
    S += pbt::strf(" %u", (unsigned)R);
  return S + "\n";
}
std::string str(const std::vector<int> &W) {
  std::string S;
  for (int X : W)
    S += X == -1 ? "$" : X >= 100 ? pbt::strf("-%d->", X - 100)
                                  : std::to_string(X);
  return S;
}

template <typename G>
G genGraph(pbt::Ctx &C, bool Acyclic, bool Weights, bool Uniform) {
  using T = GraphTraits<G>;
  G Gr;
  unsigned N = 1 + C.draw(9), Labs = Uniform ? 1 : 1 + C.draw(3);
  for (unsigned I = 0; I < N; ++I) {
    if constexpr (std::is_same_v<typename T::value_type, llvm::NoneType>)
      T::addNode(Gr, llvm::None);
    else
      T::addNode(Gr, (int)C.draw(Labs));
  }
  auto Edge = [&](unsigned To) -> typename T::edge_t {
    if constexpr (std::is_same_v<typename T::edge_t, WG::E>)
      return WG::E{To, Weights ? (int)C.draw(3) : 0};
    else
      return To;
  };
  for (unsigned I = 0; I < N; ++I) {
    unsigned K = C.weighted({2, 4, 5, 2, 1});
    for (unsigned J = 0; J < K; ++J) {
      if (Acyclic && I + 1 == N)
        break;
      unsigned To = Acyclic ? I + 1 + C.draw(N - I - 1) : C.draw(N);
      T::addEdge(Gr, I, Edge(To));
    }
  }
  unsigned NR = 1 + C.weighted({4, 2, 1});
  std::set<unsigned> Rs;
  for (unsigned I = 0; I < NR; ++I)
    Rs.insert(I == 0 ? 0 : C.draw(N));
  for (auto R : Rs)
    T::addRoot(Gr, R);
  return Gr;
}

template <typename G>
std::set<unsigned> reach(const G &Gr) {
  using T = GraphTraits<G>;
  std::set<unsigned> S;
  std::vector<unsigned> W;
  for (auto R : T::roots(Gr))
    W.push_back(R);
  while (!W.empty()) {
    unsigned V = W.back();
    W.pop_back();
    if (!S.insert(V).second)
      continue;
    for (auto E : T::outEdges(Gr, V))
      W.push_back(T::target(E));
  }
  return S;
}

template <typename G> void minimise(pbt::Ctx &C, G Gr) {
  using T = GraphTraits<G>;
  C.describe(dump(Gr));
  auto Eq = minimizeGraph(Gr);
  unsigned N = T::size(Gr);
  // merged vertices agree in their label and their moves
  auto Moves = [&](unsigned V) {
    std::vector<std::pair<int, unsigned>> M;
    for (auto E : T::outEdges(Gr, V))
      M.push_back({wOf(T::weight(E)), Eq[T::target(E)]});
    return M;
  };
  bool Merged = false;
  for (unsigned A = 0; A < N; ++A)
    for (unsigned B = A + 1; B < N; ++B) {
      bool SameL = lOf(T::node(Gr, A)) == lOf(T::node(Gr, B));
      auto MA = Moves(A), MB = Moves(B);
      if (Eq[A] == Eq[B]) {
        Merged = true;
        std::set<std::pair<int, unsigned>> SA(MA.begin(), MA.end()),
            SB(MB.begin(), MB.end());
        PBT_CHECK(C, SameL && SA == SB,
                  pbt::strf("vertices %u and %u are merged, but differ", A, B));
      } else if (SameL) {
        PBT_CHECK(C, MA != MB,
                  pbt::strf("vertices %u and %u have the same label and the "
                            "same moves, but are not merged",
                            A, B));
        if (MA.size() == 2 && MB.size() == 2)
          PBT_CHECK(C, MA[0] != MB[1] || MA[1] != MB[0],
                    pbt::strf("vertices %u and %u have the same label and the "
                              "same two moves, but are not merged",
                              A, B));
      }
    }
  G Min = createEquivalentGraphFrom(Gr, Eq);
  std::set<unsigned> Cls;
  for (unsigned V : reach(Gr))
    Cls.insert(Eq[V]);
  PBT_CHECK(C, T::size(Min) == Cls.size(),
            pbt::strf("%zu classes are reachable, but the minimised graph has "
                      "%zu vertices",
                      Cls.size(), (size_t)T::size(Min)) +
                "\n" + dump(Min));
  bool Big = false;
  auto A = words(Gr, 7, Big), B = words(Min, 7, Big);
  if (Big)
    C.discard();
  for (auto &W : A)
    PBT_CHECK(C, B.count(W),
              "the path " + str(W) + " is lost in\n" + dump(Min));
  for (auto &W : B)
    PBT_CHECK(C, A.count(W),
              "the path " + str(W) + " is invented in\n" + dump(Min));
  for (unsigned V = 0; V < T::size(Min); ++V) {
    std::set<std::pair<unsigned, int>> S;
    for (auto E : T::outEdges(Min, V))
      PBT_CHECK(C, S.insert({T::target(E), wOf(T::weight(E))}).second,
                "duplicate edges in\n" + dump(Min));
  }
  C.nontrivial(Merged && A.size() > 1);
}

void caseMinimise(pbt::Ctx &C) {
  bool Acyclic = !C.chance(1, 4);
  switch (C.draw(3)) {
  case 0:
    return minimise(C, genGraph<AdjacencyList<int>>(C, Acyclic, false, false));
  case 1:
    return minimise(C, genGraph<WG>(C, Acyclic, true, false));
  default:
    return minimise(C, genGraph<WG>(C, Acyclic, C.flip(), true));
  }
}

template <typename G> void reverseIt(pbt::Ctx &C, G Gr) {
  using T = GraphTraits<G>;
  C.describe(dump(Gr));
  bool Move = C.flip();
  G Copy = Gr;
  G Rev = Move ? reverseGraph(std::move(Copy)) : reverseGraph(Copy);
  PBT_CHECK(C, T::size(Rev) == T::size(Gr), "the size changes");
  std::multiset<std::tuple<unsigned, unsigned, int>> A, B;
  size_t Edges = 0;
  for (unsigned V = 0; V < T::size(Gr); ++V) {
    PBT_CHECK(C, lOf(T::node(Gr, V)) == lOf(T::node(Rev, V)),
              "a label changes");
    for (auto E : T::outEdges(Gr, V))
      A.insert({V, T::target(E), wOf(T::weight(E))}), ++Edges;
    for (auto E : T::outEdges(Rev, V))
      B.insert({T::target(E), V, wOf(T::weight(E))});
  }
  PBT_CHECK(C, A == B, "the edges are not the reversed ones:\n" + dump(Rev));
  std::set<unsigned> Want, Got;
  for (unsigned V = 0; V < T::size(Gr); ++V)
    if (T::outDegree(Gr, V) == 0)
      Want.insert(V);
  for (auto R : T::roots(Rev))
    PBT_CHECK(C, Got.insert(R).second, "a root twice");
  PBT_CHECK(C, Want == Got, "the roots are not the leaves:\n" + dump(Rev));
  C.nontrivial(Edges > 2 && T::size(Gr) > 2);
}
void caseReverse(pbt::Ctx &C) {
  bool Acyclic = C.flip();
  if (C.flip())
    reverseIt(C, genGraph<AdjacencyList<int>>(C, Acyclic, false, false));
  else
    reverseIt(C, genGraph<WG>(C, Acyclic, true, false));
}

// ---- the path DAG
using sg::Inst;
using Path = std::vector<Inst>;
using Node = std::pair<Inst, int>;

struct ESG {
  // node -> predecessors over edges that carry information
  std::map<Node, std::vector<Node>> Pred;
  std::set<Node> All;
};
ESG build(const sg::Prog &P) {
  ESG G;
  std::vector<Node> W;
  auto Reach = [&](Node N) {
    if (G.All.insert(N).second)
      W.push_back(N);
  };
  for (auto &[N, Fs] : P.Seeds)
    for (auto &[D, V] : Fs)
      Reach({N, D});
  std::map<std::pair<sg::Fn, Inst>, std::set<int>> AtExit;
  std::map<sg::Fn, std::set<std::pair<Inst, Inst>>> Called;
  auto Edge = [&](Node A, Node B) {
    auto &V = G.Pred[B];
    if (std::find(V.begin(), V.end(), A) == V.end())
      V.push_back(A);
    Reach(B);
  };
  while (!W.empty()) {
    auto [N, D] = W.back();
    W.pop_back();
    auto CI = P.Callees.find(N);
    if (CI == P.Callees.end()) {
      for (auto *S : P.Succs.at(N))
        for (auto &[D2, E] : P.Normal.at({N, S}).at(D))
          Edge({N, D}, {S, D2});
    } else {
      bool Known = false;
      for (auto *T : CI->second)
        if (!T->isDeclaration())
          Known = true;
      for (auto *S : P.Succs.at(N)) {
        for (auto &[D2, E] : P.CTR.at({N, S}).at(D)) {
          if (Known && D == 0 && D2 == 0)
            Reach({S, 0}); // no information
          else
            Edge({N, D}, {S, D2});
        }
      }
      for (auto *T : CI->second) {
        if (T->isDeclaration())
          continue;
        for (auto &[D2, E] : P.Call.at({N, T}).at(D))
          Edge({N, D}, {P.Insts.at(T).front(), D2});
        for (auto *S : P.Succs.at(N))
          if (Called[T].insert({N, S}).second && P.Exits.count(T))
            for (auto *X : P.Exits.at(T))
              for (int XD : AtExit[{T, X}])
                for (auto &[D5, E] : P.Ret.at({N, T, X, S}).at(XD))
                  Edge({X, XD}, {S, D5});
      }
    }
    if (llvm::isa<llvm::ReturnInst>(N)) {
      auto *F = N->getFunction();
      if (AtExit[{F, N}].insert(D).second)
        for (auto &[CS, S] : Called[F])
          for (auto &[D5, E] : P.Ret.at({CS, F, N, S}).at(D))
            Edge({N, D}, {S, D5});
    }
  }
  return G;
}

// which instructions can be left out of a reported path: those whose edge
// stays in its basic block
Path project(const Path &P) {
  Path R;
  for (size_t I = 0; I < P.size(); ++I) {
    bool Leaves = I + 1 == P.size() || P[I]->isTerminator() ||
                  P[I]->getParent() != P[I + 1]->getParent();
    if (Leaves && (R.empty() || R.back() != P[I]))
      R.push_back(P[I]);
  }
  return R;
}
std::string show(const sg::Prog &P, const Path &X) {
  std::string S;
  for (auto *I : X)
    S += pbt::strf(" n%d", P.Id.at(I));
  return S;
}

using GT = AdjacencyList<llvm::SmallVector<Inst, 0>>;
using GTT = GraphTraits<GT>;
// all instruction sequences spelled by the (reversed) DAG
bool spell(pbt::Ctx &C, const sg::Prog &P, const GT &G, std::set<Path> &Out,
           Inst Q) {
  size_t Steps = 0;
  Path Cur;
  bool OK = true;
  std::function<void(unsigned)> Go = [&](unsigned V) {
    if (++Steps > 5000) {
      OK = false;
      return;
    }
    size_t Save = Cur.size();
    auto &PP = GTT::node(G, V);
    PBT_CHECK(C, !PP.empty(), "a node of the path DAG is empty");
    for (auto *I : llvm::reverse(PP))
      Cur.push_back(I);
    if (GTT::outDegree(G, V) == 0) {
      PBT_CHECK(C, Cur.back() == Q,
                "a path does not end at the queried statement:" +
                    show(P, Cur));
      Out.insert(Cur);
    }
    for (auto T : GTT::outEdges(G, V))
      Go(T);
    Cur.resize(Save);
  };
  for (auto R : GTT::roots(G))
    Go(R);
  return OK;
}

void casePaths(pbt::Ctx &C) {
  sg::Options O;
  O.Values = false;
  O.Summaries = false;
  O.Acyclic = true;
  O.MaxBlocks = 6;
  O.MaxInsts = 3;
  O.MaxFuns = C.flip() ? 1 : 3;
  O.SingleSeedFn = true;
  auto P = sg::genProg(C, O);
  C.describe(P->dump());
  sg::IFDSProb Prob(*P);
  PathAwareIDESolver S(Prob, P->ICF.get());
  S.solve();
  auto &X = S.getExplicitESG();
  auto G = build(*P);
  // functions entered from one place only: then the graph is acyclic and free
  // of paths that return elsewhere
  std::map<sg::Fn, int> NCalls;
  for (auto &[CS, Cs] : P->Callees)
    for (auto *T : Cs)
      if (!T->isDeclaration())
        ++NCalls[T];
  bool Single = true;
  for (auto &[F, N] : NCalls)
    Single &= N == 1 && F != P->Funs[0];
  std::vector<Node> Qs;
  for (auto &N : G.All) {
    if (!G.Pred.count(N))
      continue;
    if (!S.getSolverResults().resultsAt(N.first).count(N.second)) {
      PBT_CHECK(C, !Single,
                pbt::strf("no fact %d at n%d", N.second, P->Id.at(N.first)));
      continue; // only reachable on paths that return elsewhere
    }
    auto Nd = X.getNodeOrNull(N.first, N.second);
    PBT_CHECK(C, Nd,
              pbt::strf("no node for fact %d at n%d", N.second,
                        P->Id.at(N.first)));
    PBT_CHECK(C, Nd.value() == N.second,
              pbt::strf("the node for fact %d at n%d is one for %d", N.second,
                        P->Id.at(N.first), (int)Nd.value()));
    Qs.push_back(N);
  }
  if (Qs.empty())
    return;
  unsigned NQ = 1 + C.draw(4);
  bool NT = false;
  for (unsigned QI = 0; QI < NQ; ++QI) {
    Node Q = C.chance(2, 3) ? *std::max_element(Qs.begin(), Qs.end(),
                                                [&](auto &A, auto &B) {
                                                  return P->Id.at(A.first) <
                                                         P->Id.at(B.first);
                                                })
                            : C.pick(Qs);
    if (C.chance(1, 2))
      for (auto &N : Qs)
        if (N.first == Q.first && C.flip())
          Q = N;
    auto Where = pbt::strf("query fact %d at n%d", Q.second, P->Id.at(Q.first));
    C.describe(Where + "\n");
    // reference paths
    std::set<Path> Want;
    size_t Steps = 0;
    bool Big = false, Cyc = false;
    Path Cur{Q.first};
    std::vector<Node> On;
    std::function<void(Node)> Back = [&](Node N) {
      if (++Steps > 20000 || Big) {
        Big = true;
        return;
      }
      if (std::find(On.begin(), On.end(), N) != On.end()) {
        Cyc = true;
        return;
      }
      auto It = G.Pred.find(N);
      if (It == G.Pred.end()) {
        auto SI = P->Seeds.find(N.first);
        if (SI == P->Seeds.end() || !SI->second.count(N.second))
          Big = true; // behind a call that does not return
        Path R(Cur.rbegin(), Cur.rend());
        Want.insert(project(R));
        return;
      }
      On.push_back(N);
      for (auto &Pr : It->second) {
        Cur.push_back(Pr.first);
        Back(Pr);
        Cur.pop_back();
      }
      On.pop_back();
    };
    Back(Q);
    if (Big || (Cyc && Single))
      continue;
    PathSensitivityManager<sg::IFDSProb::ProblemAnalysisDomain> PSM(&X);
    PathSensitivityConfig Cfg;
    Cfg.MinimizeDAG = false;
    std::set<Path> Raw, Min;
    GT Dag = PSM.pathsDagTo(Q.first, Q.second, Cfg);
    if (!spell(C, *P, Dag, Raw, Q.first))
      continue;
    std::set<Path> Got;
    for (auto &R : Raw) {
      for (size_t I = 0; I + 1 < R.size(); ++I)
        if (R[I] != R[I + 1] && R[I]->getParent() == R[I + 1]->getParent())
          PBT_CHECK(C, P->Id.at(R[I]) < P->Id.at(R[I + 1]),
                    Where + ": a path goes backwards in a block:" +
                        show(*P, R));
      Got.insert(project(R));
    }
    for (auto &R : Got)
      if (!Cyc)
        PBT_CHECK(C, Want.count(R),
                  Where + ": reported path" + show(*P, R) +
                      " is none of the exploded supergraph");
    if (Single)
      for (auto &R : Want)
        PBT_CHECK(C, Got.count(R),
                  Where + ": path" + show(*P, R) + " is not reported");
    // minimisation
    Cfg.MinimizeDAG = true;
    GT MDag = PSM.pathsDagTo(Q.first, Q.second, Cfg);
    if (spell(C, *P, MDag, Min, Q.first)) {
      PBT_CHECK(C, Min == Raw, Where + ": minimising changes the paths");
      PBT_CHECK(C, MDag.Nodes.size() <= Dag.Nodes.size(),
                Where + ": minimising grows the graph");
    }
    // depth
    size_t Depth = 1 + C.draw(4);
    Cfg.DAGDepthThreshold = Depth;
    Cfg.MinimizeDAG = C.flip();
    GT TDag = PSM.pathsDagTo(Q.first, Q.second, Cfg);
    std::set<Path> Cut;
    if (spell(C, *P, TDag, Cut, Q.first)) {
      auto SuffixOf = [](const Path &S, const Path &L) {
        return S.size() <= L.size() &&
               std::equal(S.rbegin(), S.rend(), L.rbegin());
      };
      for (auto &S : Cut)
        PBT_CHECK(C,
                  std::any_of(Raw.begin(), Raw.end(),
                              [&](auto &L) { return SuffixOf(S, L); }),
                  Where + pbt::strf(": with depth %zu the path", Depth) +
                      show(*P, S) + " ends no full path");
      for (auto &L : Raw)
        PBT_CHECK(C,
                  std::any_of(Cut.begin(), Cut.end(),
                              [&](auto &S) { return SuffixOf(S, L); }),
                  Where + pbt::strf(": with depth %zu no path is left of",
                                    Depth) +
                      show(*P, L));
    }
    // filters on changes of the fact
    if (Single) {
      std::set<std::pair<int, int>> Err, End;
      // seeds are no nodes of their own
      std::set<int> SeedFacts;
      for (auto &[N, Fs] : P->Seeds)
        for (auto &[D, V] : Fs)
          SeedFacts.insert(D);
      std::set<std::pair<int, int>> Trs;
      for (auto &[N, Ps] : G.Pred)
        for (auto &Pr : Ps)
          if (Pr.second != N.second && !SeedFacts.count(Pr.second))
            Trs.insert({Pr.second, N.second});
      for (auto &T : Trs) {
        if (C.chance(1, 5))
          Err.insert(T);
        else if (C.chance(1, 3))
          End.insert(T);
      }
      for (auto &[A, B] : Err)
        C.describe(pbt::strf("erroneous: %d to %d\n", A, B));
      for (auto &[A, B] : End)
        C.describe(pbt::strf("end: %d to %d\n", A, B));
      std::set<Path> FWant, FGot;
      Cur = {Q.first};
      std::function<void(Node)> FBack = [&](Node N) {
        auto It = G.Pred.find(N);
        if (It == G.Pred.end()) {
          FWant.insert(project(Path(Cur.rbegin(), Cur.rend())));
          return;
        }
        for (auto &Pr : It->second) {
          std::pair<int, int> Tr{Pr.second, N.second};
          Cur.push_back(Pr.first);
          if (End.count(Tr))
            FWant.insert(project(Path(Cur.rbegin(), Cur.rend())));
          else if (!Err.count(Tr))
            FBack(Pr);
          Cur.pop_back();
        }
      };
      FBack(Q);
      using NR = std::decay_t<decltype(X.getNodeOrNull(Q.first, Q.second))>;
      auto IsEnd = [&](NR Prev, NR Nxt) {
        return Nxt && End.count({(int)Nxt.value(), (int)Prev.value()}) != 0;
      };
      auto IsErr = [&](NR Prev, NR Nxt) {
        return Nxt && Err.count({(int)Nxt.value(), (int)Prev.value()}) != 0;
      };
      PathTracingFilter<decltype(IsEnd), decltype(IsErr)> Flt{IsEnd, IsErr};
      PathSensitivityConfig FCfg;
      FCfg.MinimizeDAG = C.flip();
      std::set<Path> FRaw;
      if (spell(C, *P, PSM.pathsDagTo(Q.first, Q.second, FCfg, Flt), FRaw,
                Q.first)) {
        for (auto &R : FRaw)
          FGot.insert(project(R));
        auto SuffixOf = [](const Path &S, const Path &L) {
          return S.size() <= L.size() &&
                 std::equal(S.rbegin(), S.rend(), L.rbegin());
        };
        if (FWant.empty())
          FGot.erase({Q.first});
        for (auto &R : FGot)
          PBT_CHECK(C, FWant.count(R),
                    Where + ", filtered: reported path" + show(*P, R) +
                        " is none of the exploded supergraph");
        for (auto &R : FWant)
          PBT_CHECK(C,
                    std::any_of(FGot.begin(), FGot.end(),
                                [&](auto &L) { return SuffixOf(R, L); }),
                    Where + ", filtered: path" + show(*P, R) +
                        " is not reported");
        if (FWant != Want)
          C.label("filtered");
      }
    }
    // all facts of the statement at once
    std::vector<int> Fs;
    std::set<Path> Union, AllP;
    bool OK = true;
    for (auto &N : Qs)
      if (N.first == Q.first) {
        Fs.push_back(N.second);
        Cfg = {};
        OK &= spell(C, *P, PSM.pathsDagTo(N.first, N.second, Cfg), Union,
                    Q.first);
      }
    if (OK && Single &&
        spell(C, *P, PSM.pathsDagToAll(Q.first, Fs, Cfg), AllP, Q.first))
      PBT_CHECK(C, AllP == Union,
                Where + ": the paths to all facts are not the union");
    if (Want.size() > 1)
      NT = true;
    C.label(Single ? "exact" : "subset");
    if (O.MaxFuns > 1 && Single && !NCalls.empty())
      C.label("interprocedural-exact");
  }
  C.nontrivial(NT);
}
} // namespace

int main(int Argc, char **Argv) {
  pbt::Property P;
  P.Id = "P20";
  P.Subs = {
      {"minimise",
       "two vertices are merged and the graph has more than one path",
       caseMinimise, 30000, 0},
      {"reverse", "more than two edges and vertices", caseReverse, 20000, 0},
      {"paths", "a query with more than one path", casePaths, 80000, 0},
  };
  P.Assumptions = {
      "paths are compared by the statements where they leave a basic block; "
      "identity steps inside a block may be left out",
      "exactness is checked for loop-free programs whose functions are called "
      "from one place; otherwise only that every reported path exists",
  };
  return pbt::run(Argc, Argv, P);
}
