// BUILD: san nolibs
// Utility containers behave like simple reference models for every history.
#include "pbt.h"

#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/EquivalenceClassMap.h"
#include "phasar/Utils/MaybeUniquePtr.h"
#include "phasar/Utils/StableVector.h"
#include "phasar/Utils/Table.h"
#include "phasar/Utils/Utilities.h"

#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

using pbt::Ctx;
using pbt::strf;

namespace {
/// the history so far; also goes to the description of the case
struct DescLog {
  Ctx &C;
  std::string S;
  void operator+=(const std::string &X) {
    S += X;
    C.describe(X);
  }
  friend std::string operator+(const char *A, const DescLog &L) { return A + L.S; }
  friend std::string operator+(const std::string &A, const DescLog &L) { return A + L.S; }
};

//===--------------------------------------------------------------------===//
// BitVectorSet
//===--------------------------------------------------------------------===//
template <typename T, typename Mk> void bitVectorSet(Ctx &C, Mk Make) {
  using Set = psr::BitVectorSet<T>;
  unsigned Universe = (unsigned)C.range(1, C.flip() ? 12 : 200);
  unsigned NSets = (unsigned)C.range(1, 4);
  unsigned NOps = (unsigned)C.range(1, 60);
  std::vector<Set> S(NSets);
  std::vector<std::set<T>> M(NSets);
  bool Erased = false, Merged = false;
  auto CheckOne = [&](unsigned I, const char *After) {
    auto &A = S[I];
    const Set &CA = A;
    auto &B = M[I];
    PBT_CHECK(C, A.size() == B.size(), strf("size %zu vs model %zu after %s", A.size(), B.size(), After));
    PBT_CHECK(C, A.empty() == B.empty(), strf("empty() after %s", After));
    std::multiset<T> It(CA.begin(), CA.end());
    PBT_CHECK(C, It == std::multiset<T>(B.begin(), B.end()), strf("const iteration differs after %s", After));
    std::multiset<T> It2;
    for (auto It = A.begin(); It != A.end(); ++It)
      It2.insert(*It);
    PBT_CHECK(C, It2 == It, strf("iteration differs after %s", After));
    std::multiset<T> It3;
    for (auto It = A.begin(); It != A.end();)
      It3.insert(*It++);
    PBT_CHECK(C, It3 == It, strf("post-increment iteration differs after %s", After));
  };
  for (unsigned K = 0; K < NOps; ++K) {
    unsigned I = (unsigned)C.draw(NSets), J = (unsigned)C.draw(NSets);
    unsigned X = (unsigned)C.draw(Universe);
    T V = Make(X);
    const char *Op = "";
    switch (C.weighted({8, 4, 2, 2, 2, 2, 2, 2, 1, 2, 2, 4})) {
    case 0:
      Op = "insert";
      S[I].insert(V);
      M[I].insert(V);
      break;
    case 1:
      Op = "erase";
      Erased |= M[I].count(V) != 0;
      S[I].erase(V);
      M[I].erase(V);
      break;
    case 2: {
      Op = "setUnion";
      Merged = true;
      auto R = S[I].setUnion(S[J]);
      auto Q = M[I];
      Q.insert(M[J].begin(), M[J].end());
      unsigned D = (unsigned)C.draw(NSets);
      S[D] = R;
      M[D] = Q;
      CheckOne(D, Op);
      break;
    }
    case 3: {
      Op = "setIntersect";
      Merged = true;
      auto R = S[I].setIntersect(S[J]);
      std::set<T> Q;
      for (auto &E : M[I])
        if (M[J].count(E))
          Q.insert(E);
      unsigned D = (unsigned)C.draw(NSets);
      S[D] = R;
      M[D] = Q;
      CheckOne(D, Op);
      break;
    }
    case 4: {
      Op = "setIntersectWith";
      if (C.flip())
        S[I].setIntersectWith(S[J]);
      else
        psr::intersectWith(S[I], S[J]);
      std::set<T> Q;
      for (auto &E : M[I])
        if (M[J].count(E))
          Q.insert(E);
      M[I] = Q;
      break;
    }
    case 5:
      Op = "setUnionWith";
      S[I].setUnionWith(S[J]);
      M[I].insert(M[J].begin(), M[J].end());
      break;
    case 6:
      Op = "insert(set)";
      S[I].insert(S[J]);
      M[I].insert(M[J].begin(), M[J].end());
      break;
    case 7:
      Op = "erase(set)";
      S[I].erase(S[J]);
      {
        auto Q = M[J];
        for (auto &E : Q)
          M[I].erase(E);
      }
      break;
    case 8:
      Op = "clear";
      S[I].clear();
      M[I].clear();
      break;
    case 9: {
      Op = "construct";
      std::vector<T> Vs;
      unsigned N = (unsigned)C.draw(5);
      for (unsigned Z = 0; Z < N; ++Z)
        Vs.push_back(Make((unsigned)C.draw(Universe)));
      S[I] = C.flip() ? Set(Vs.begin(), Vs.end()) : Set(C.draw(130));
      M[I] = S[I].size() ? std::set<T>(Vs.begin(), Vs.end()) : std::set<T>();
      if (!Vs.empty() && S[I].empty())
        M[I].clear();
      break;
    }
    case 10: {
      Op = "compare";
      break;
    }
    default:
      // copies that differ in a few elements only (possibly in later words)
      Op = "copy";
      S[I] = S[J];
      M[I] = M[J];
      for (unsigned N = (unsigned)C.draw(3); N; --N) {
        T E = Make((unsigned)C.draw(Universe));
        S[I].insert(E);
        M[I].insert(E);
      }
    }
    CheckOne(I, Op);
    PBT_CHECK(C, (S[I].count(V) != 0) == (M[I].count(V) != 0), strf("count after %s", Op));
    PBT_CHECK(C, S[I].find(V) == (M[I].count(V) != 0), strf("find after %s", Op));
    // binary relations
    for (unsigned A = 0; A < NSets; ++A) {
      bool Eq = M[I] == M[A];
      PBT_CHECK(C, (S[I] == S[A]) == Eq, strf("operator== after %s", Op));
      PBT_CHECK(C, (S[I] != S[A]) == !Eq, strf("operator!= after %s", Op));
      if (Eq)
        PBT_CHECK(C, hash_value(S[I]) == hash_value(S[A]), strf("equal sets hash differently after %s", Op));
      bool Inc = std::includes(M[I].begin(), M[I].end(), M[A].begin(), M[A].end());
      PBT_CHECK(C, S[I].includes(S[A]) == Inc, strf("includes after %s", Op));
      bool L = S[I] < S[A], G = S[A] < S[I];
      PBT_CHECK(C, !(L && G), "operator< not asymmetric");
      PBT_CHECK(C, (!L && !G) == Eq, strf("operator< inconsistent with == after %s", Op));
      for (unsigned B = 0; B < NSets; ++B)
        if (L && S[A] < S[B])
          PBT_CHECK(C, S[I] < S[B], "operator< not transitive");
    }
  }
  if (C.verbose())
    C.describe(strf("universe %u, %u sets, %u ops", Universe, NSets, NOps));
  C.nontrivial(NOps >= 4 && (Erased || Merged));
  if (Erased)
    C.label("erased an element");
  if (Merged)
    C.label("union/intersection");
}
void bvsInt(Ctx &C) {
  bitVectorSet<int>(C, [](unsigned X) { return (int)X * 7 - 3; });
}
void bvsStr(Ctx &C) {
  bitVectorSet<std::string>(C, [](unsigned X) { return "element-number-" + std::to_string(X); });
}

//===--------------------------------------------------------------------===//
// StableVector
//===--------------------------------------------------------------------===//
int64_t Live = 0;
struct Obj {
  int V;
  std::unique_ptr<int> P; // makes use-after-destroy visible
  Obj(int V = 0) : V(V), P(new int(V)) { ++Live; }
  Obj(const Obj &O) : V(O.V), P(new int(*O.P)) { ++Live; }
  Obj(Obj &&O) noexcept : V(O.V), P(std::move(O.P)) { ++Live; }
  Obj &operator=(const Obj &O) {
    V = O.V;
    P.reset(new int(*O.P));
    return *this;
  }
  ~Obj() { --Live; }
  friend bool operator==(const Obj &A, const Obj &B) { return A.V == B.V && *A.P == *B.P; }
};

template <typename T, typename Mk, typename Val>
void stableVector(Ctx &C, Mk Make, Val Value) {
  int64_t Live0 = Live;
  bool Crossed = false, Shrunk = false;
  unsigned NOps = (unsigned)C.range(1, 40);
  {
    psr::StableVector<T> Vec[2];
    std::vector<int> M[2];
    std::vector<const T *> Addr[2];
    int Next = 1;
    DescLog Log{C};
    for (unsigned K = 0; K < NOps; ++K) {
      unsigned I = (unsigned)C.draw(2);
      auto &V = Vec[I];
      switch (C.weighted({5, 6, 4, 5, 2, 3, 2, 2, 2, 1})) {
      case 0: {
        V.push_back(Make(Next));
        M[I].push_back(Next++);
        Addr[I].push_back(&V.back());
        Log += strf("v%u.push;", I);
        break;
      }
      case 1: { // push many: sizes around the powers of two
        unsigned N = C.flip() ? (unsigned)C.draw(40) : (unsigned)C.range(0, 140);
        if (C.chance(1, 3)) {
          size_t Tgt = 32;
          while (Tgt < M[I].size())
            Tgt *= 2;
          N = (unsigned)(Tgt - M[I].size() + C.draw(3));
        }
        if (M[I].size() < 3000 && C.chance(1, 60))
          N = (unsigned)C.range(500, 4200);
        for (unsigned Z = 0; Z < N; ++Z) {
          T &R = V.emplace_back(Make(Next));
          M[I].push_back(Next++);
          Addr[I].push_back(&R);
        }
        Log += strf("v%u.push*%u;", I, N);
        break;
      }
      case 2:
        if (!M[I].empty()) {
          if (C.flip()) {
            V.pop_back();
          } else {
            T X = V.pop_back_val();
            PBT_CHECK(C, Value(X) == M[I].back(), "pop_back_val value; " + Log);
          }
          M[I].pop_back();
          Addr[I].pop_back();
          Log += strf("v%u.pop;", I);
        }
        break;
      case 3: {
        size_t N = C.draw(M[I].size() + 1);
        if (C.chance(1, 4))
          N = M[I].size();
        else if (C.chance(1, 3)) { // down to a power of two
          size_t P = 32;
          while (P * 2 < M[I].size())
            P *= 2;
          if (P <= M[I].size())
            N = M[I].size() - P;
        }
        if (C.flip()) {
          V.pop_back_n(N);
        } else {
          for (size_t Z = 0; Z < N; ++Z)
            V.pop_back();
        }
        M[I].resize(M[I].size() - N);
        Addr[I].resize(M[I].size());
        Log += strf("v%u.pop*%zu;", I, N);
        break;
      }
      case 4:
        V.clear();
        M[I].clear();
        Addr[I].clear();
        Log += strf("v%u.clear;", I);
        break;
      case 5:
        V.shrink_to_fit();
        Shrunk = true;
        Log += strf("v%u.shrink_to_fit;", I);
        break;
      case 6: { // clone
        auto Cl = V.clone();
        PBT_CHECK(C, Cl == V, "clone not equal; " + Log);
        unsigned N = (unsigned)C.draw(40);
        for (unsigned Z = 0; Z < N; ++Z)
          Cl.emplace_back(Make((int)Z));
        PBT_CHECK(C, (Cl == V) == (N == 0), "modified clone equal; " + Log);
        for (size_t Z = 0; Z < M[I].size(); ++Z)
          PBT_CHECK(C, Value(Cl[Z]) == M[I][Z], "clone content; " + Log);
        for (unsigned Z = 0; Z < N; ++Z)
          PBT_CHECK(C, Value(Cl[M[I].size() + Z]) == (int)Z, "clone push; " + Log);
        Log += strf("v%u.clone+%u;", I, N);
        break;
      }
      case 7: { // move round trip / swap
        Log += strf("v%u.move;", I);
        switch (C.draw(3)) {
        case 0: {
          psr::StableVector<T> Tmp(std::move(V));
          PBT_CHECK(C, V.empty(), "moved-from not empty");
          V = std::move(Tmp);
          break;
        }
        case 1:
          swap(Vec[0], Vec[1]);
          std::swap(M[0], M[1]);
          std::swap(Addr[0], Addr[1]);
          break;
        default: {
          psr::StableVector<T> Tmp(std::move(V));
          V.emplace_back(Make(Next)); // moved-from objects are reusable
          PBT_CHECK(C, V.size() == 1 && Value(V[0]) == Next, "reuse of moved-from");
          V = std::move(Tmp);
        }
        }
        break;
      }
      case 8:
        if (!M[I].empty()) {
          size_t Z = C.draw(M[I].size());
          V[Z] = Make(Next);
          M[I][Z] = Next++;
          Log += strf("v%u[%zu]=;", I, Z);
        }
        break;
      default:
        break;
      }
      if (M[I].size() > 32)
        Crossed = true;
      for (unsigned Q = 0; Q < 2; ++Q) {
        auto &V = Vec[Q];
        const auto &CV = V;
        PBT_CHECK(C, V.size() == M[Q].size(), "size; " + Log);
        PBT_CHECK(C, V.empty() == M[Q].empty(), "empty; " + Log);
        size_t Z = 0;
        for (auto &E : V) {
          PBT_CHECK(C, Z < M[Q].size(), "iteration too long; " + Log);
          PBT_CHECK(C, Value(E) == M[Q][Z], strf("iteration element %zu; ", Z) + Log);
          PBT_CHECK(C, &E == Addr[Q][Z], strf("element %zu moved; ", Z) + Log);
          ++Z;
        }
        PBT_CHECK(C, Z == M[Q].size(), "iteration too short; " + Log);
        Z = 0;
        for (auto It = CV.begin(), End = CV.end(); It != End; It++)
          PBT_CHECK(C, Value(*It) == M[Q][Z++], "const iteration; " + Log);
        PBT_CHECK(C, Z == M[Q].size(), "const iteration length; " + Log);
        for (size_t Z = 0; Z < M[Q].size(); ++Z) {
          PBT_CHECK(C, Value(V[Z]) == M[Q][Z], strf("operator[%zu]; ", Z) + Log);
          PBT_CHECK(C, &CV[Z] == Addr[Q][Z], strf("address of [%zu]; ", Z) + Log);
        }
        if (!M[Q].empty() && C.chance(1, 3)) {
          // walk with one iterator, continue with a converted or copied one
          size_t At = C.draw(M[Q].size());
          auto It = V.begin();
          for (size_t K2 = 0; K2 < At; ++K2)
            ++It;
          typename psr::StableVector<T>::const_iterator CI = It;
          if (C.flip()) {
            CI = CV.begin();
            CI = It;
          }
          auto Copy = C.flip() ? It++ : It;
          PBT_CHECK(C, Value(*Copy) == M[Q][At], "copied iterator; " + Log);
          size_t K2 = At;
          for (; CI != CV.end() && K2 < M[Q].size(); ++CI, ++K2)
            PBT_CHECK(C, Value(*CI) == M[Q][K2], strf("converted iterator at %zu, element %zu; ", At, K2) + Log);
          PBT_CHECK(C, CI == CV.end() && K2 == M[Q].size(), "converted iterator length; " + Log);
        }
        if (!M[Q].empty()) {
          PBT_CHECK(C, Value(V.front()) == M[Q].front(), "front; " + Log);
          PBT_CHECK(C, Value(V.back()) == M[Q].back(), "back; " + Log);
        }
      }
      PBT_CHECK(C, (Vec[0] == Vec[1]) == (M[0] == M[1]), "operator==; " + Log);
    }
  }
  PBT_CHECK(C, Live == Live0, strf("%lld objects leaked or destroyed twice", (long long)(Live - Live0)));
  C.nontrivial(Crossed);
  if (Crossed)
    C.label("more than one block");
  if (Shrunk)
    C.label("shrink_to_fit");
}
void svObj(Ctx &C) {
  stableVector<Obj>(
      C, [](int V) { return Obj(V); }, [](const Obj &O) { return O.P && O.V == *O.P ? O.V : -1; });
}
void svInt(Ctx &C) {
  stableVector<int>(
      C, [](int V) { return V; }, [](int O) { return O; });
}

//===--------------------------------------------------------------------===//
// EquivalenceClassMap
//===--------------------------------------------------------------------===//
void eqMap(Ctx &C) {
  psr::EquivalenceClassMap<int, std::string> E;
  std::vector<std::pair<std::set<int>, std::string>> M;
  unsigned NOps = (unsigned)C.range(1, 40);
  unsigned Keys = (unsigned)C.range(1, 15), Vals = (unsigned)C.range(1, 5);
  auto Find = [&](int K) -> const std::pair<std::set<int>, std::string> * {
    for (auto &P : M)
      if (P.first.count(K))
        return &P;
    return nullptr;
  };
  for (unsigned I = 0; I < NOps; ++I) {
    int K = (int)C.draw(Keys);
    std::string V = strf("value%d", (int)C.draw(Vals));
    // every key has one value (a key in two classes is not a map)
    if (auto *F = Find(K))
      V = F->second;
    auto Model = [&] {
      for (auto &P : M)
        if (P.second == V)
          return P.first.insert(K).second;
      M.push_back({{K}, V});
      return true;
    };
    switch (C.draw(5)) {
    case 0: {
      auto R = E.insert(K, V);
      PBT_CHECK(C, *R.first == K, "iterator of insert");
      PBT_CHECK(C, R.second == Model(), "insert result");
      break;
    }
    case 1: {
      std::pair<int, std::string> P{K, V};
      auto R = E.insert(P);
      PBT_CHECK(C, *R.first == K && R.second == Model(), "insert pair result");
      break;
    }
    case 2: {
      auto R = E.insert(std::make_pair(K, V));
      PBT_CHECK(C, *R.first == K && R.second == Model(), "insert pair&& result");
      break;
    }
    case 3: {
      auto R = E.try_emplace(std::move(K), V);
      PBT_CHECK(C, R.second == Model(), "try_emplace result");
      break;
    }
    default: {
      std::vector<std::pair<int, std::string>> Rng{{K, V}};
      E.insert(Rng.begin(), Rng.end());
      Model();
    }
    }
    if (C.chance(1, 40)) {
      E.clear();
      M.clear();
    }
    PBT_CHECK(C, E.size() == M.size() && E.numEquivalenceClasses() == M.size(), "number of classes");
    size_t Z = 0;
    for (auto &Cl : E.equivalenceClasses()) {
      PBT_CHECK(C, Cl.first == M[Z].first && Cl.second == M[Z].second, "class content");
      ++Z;
    }
    for (int K = 0; K < (int)Keys; ++K) {
      auto *F = Find(K);
      PBT_CHECK(C, E.count(K) == (F ? 1u : 0u), "count");
      auto FV = E.findValue(K);
      PBT_CHECK(C, FV.has_value() == (F != nullptr), "findValue presence");
      PBT_CHECK(C, !F || *FV == F->second, "findValue value");
      PBT_CHECK(C, (E.find(K) == E.end()) == (F == nullptr), "find");
    }
  }
  C.nontrivial(M.size() >= 2);
  C.describe(strf("%u ops, %zu classes", NOps, M.size()));
}

//===--------------------------------------------------------------------===//
// Table
//===--------------------------------------------------------------------===//
void table(Ctx &C) {
  using Tab = psr::Table<int, std::string, std::string>;
  Tab T;
  std::map<int, std::map<std::string, std::string>> M;
  unsigned NOps = (unsigned)C.range(1, 50);
  unsigned R = (unsigned)C.range(1, 5), Cs = (unsigned)C.range(1, 5);
  auto Col = [](unsigned X) { return strf("a-rather-long-column-key-%u", X); };
  bool Removed = false;
  for (unsigned I = 0; I < NOps; ++I) {
    int Row = (int)C.draw(R);
    std::string Co = Col((unsigned)C.draw(Cs));
    std::string V = strf("value-%u-which-does-not-fit-inline", (unsigned)C.draw(4));
    const Tab &CT = T;
    switch (C.weighted({6, 2, 3, 1, 1, 1, 1})) {
    case 0:
      T.insert(Row, Co, V);
      M[Row][Co] = V;
      break;
    case 1:
      PBT_CHECK(C, T.get(Row, Co) == M[Row][Co], "mutable get"); // creates
      break;
    case 2: {
      Removed = true;
      auto X = T.remove(Row, Co);
      std::string Y;
      if (M.count(Row) && M[Row].count(Co)) {
        Y = M[Row][Co];
        M[Row].erase(Co);
        if (M[Row].empty())
          M.erase(Row);
      }
      PBT_CHECK(C, X == Y, "remove result");
      break;
    }
    case 3:
      T.remove(Row);
      M.erase(Row);
      break;
    case 4:
      T.clear();
      M.clear();
      break;
    case 5: {
      Tab T2(T);
      PBT_CHECK(C, T2 == T, "copy equal");
      Tab T3(std::move(T2));
      T3.insert(99, Co, V);
      PBT_CHECK(C, !(T3 == T), "modified copy equal");
      T3.remove(99);
      T = std::move(T3);
      break;
    }
    default:
      T.row(Row)[Co] = V;
      M[Row][Co] = V;
    }
    PBT_CHECK(C, T.empty() == M.empty(), "empty");
    PBT_CHECK(C, T.size() == M.size(), "size");
    std::set<std::tuple<int, std::string, std::string>> Cells, MC;
    for (auto &[A, X] : M)
      for (auto &[B, Y] : X)
        MC.insert({A, B, Y});
    auto Set = CT.cellSet();
    for (auto &Ce : Set)
      Cells.insert({Ce.getRowKey(), Ce.getColumnKey(), Ce.getValue()});
    PBT_CHECK(C, Cells == MC && Set.size() == MC.size(), "cellSet");
    Cells.clear();
    auto Vec = CT.cellVec();
    for (auto &Ce : Vec)
      Cells.insert({Ce.getRowKey(), Ce.getColumnKey(), Ce.getValue()});
    PBT_CHECK(C, Cells == MC && Vec.size() == MC.size(), "cellVec");
    Cells.clear();
    CT.foreachCell([&](int A, const std::string &B, const std::string &Y) { Cells.insert({A, B, Y}); });
    PBT_CHECK(C, Cells == MC, "foreachCell");
    for (unsigned A = 0; A < R; ++A) {
      PBT_CHECK(C, CT.containsRow((int)A) == (M.count((int)A) != 0), "containsRow");
      auto &Rw = CT.row((int)A);
      auto It = M.find((int)A);
      PBT_CHECK(C, Rw.size() == (It == M.end() ? 0 : It->second.size()), "row size");
      for (unsigned B = 0; B < Cs; ++B) {
        bool In = It != M.end() && It->second.count(Col(B));
        PBT_CHECK(C, CT.contains((int)A, Col(B)) == In, "contains");
        PBT_CHECK(C, CT.get((int)A, Col(B)) == (In ? It->second[Col(B)] : ""), "const get");
      }
    }
    for (unsigned B = 0; B < Cs; ++B) {
      bool In = false;
      for (auto &[A, X] : M)
        In |= X.count(Col(B)) != 0;
      PBT_CHECK(C, CT.containsColumn(Col(B)) == In, "containsColumn");
    }
  }
  C.nontrivial(Removed && NOps > 3);
  C.describe(strf("%u ops on a %u x %u table", NOps, R, Cs));
}

//===--------------------------------------------------------------------===//
// Algorithms
//===--------------------------------------------------------------------===//
void algorithms(Ctx &C) {
  // remove_by_index
  unsigned N = (unsigned)C.range(1, 20);
  std::vector<std::string> V;
  for (unsigned I = 0; I < N; ++I)
    V.push_back(strf("element-with-heap-storage-%u", I));
  std::vector<unsigned> Idx;
  std::vector<std::string> Expect;
  unsigned Den = (unsigned)C.range(2, 5);
  for (unsigned I = 0; I < N; ++I)
    if (C.draw(Den) == 1)
      Idx.push_back(I);
    else
      Expect.push_back(V[I]);
  std::list<std::string> L(V.begin(), V.end());
  std::string D;
  for (auto I : Idx)
    D += strf("%u ", I);
  C.describe(strf("n=%u remove ", N) + D);
  {
    auto W = V;
    if (C.flip())
      W.erase(psr::remove_by_index(W, Idx), W.end());
    else
      W.erase(psr::remove_by_index(W.begin(), W.end(), Idx.begin(), Idx.end()), W.end());
    PBT_CHECK(C, W == Expect, "remove_by_index on vector; indices " + D);
  }
  {
    auto W = L;
    W.erase(psr::remove_by_index(W, Idx), W.end());
    PBT_CHECK(C, std::vector<std::string>(W.begin(), W.end()) == Expect,
              "remove_by_index on list; indices " + D);
  }
  // computePowerSet
  unsigned K = (unsigned)C.draw(7);
  std::set<int> S;
  for (unsigned I = 0; I < K; ++I)
    S.insert((int)C.draw(10));
  auto P = psr::computePowerSet(S);
  PBT_CHECK(C, P.size() == (size_t(1) << S.size()), strf("power set of %zu elements has %zu members", S.size(), P.size()));
  for (auto &X : P)
    PBT_CHECK(C, std::includes(S.begin(), S.end(), X.begin(), X.end()), "member of the power set is no subset");
  // intersectWith on standard containers
  std::set<int> A, B, R;
  for (unsigned I = 0; I < 8; ++I) {
    if (C.flip())
      A.insert((int)I);
    if (C.flip())
      B.insert((int)I);
  }
  std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::inserter(R, R.end()));
  auto A2 = A;
  psr::intersectWith(A2, B);
  PBT_CHECK(C, A2 == R, "intersectWith(std::set)");
  std::unordered_set<int> UA(A.begin(), A.end());
  psr::intersectWith(UA, B);
  PBT_CHECK(C, std::set<int>(UA.begin(), UA.end()) == R, "intersectWith(unordered_set)");
  C.nontrivial(Idx.size() >= 2 && Idx.size() < N);
}

//===--------------------------------------------------------------------===//
// MaybeUniquePtr
//===--------------------------------------------------------------------===//
struct PBase {
  int Id;
  std::set<int> *Alive;
  PBase(int Id, std::set<int> *A) : Id(Id), Alive(A) { A->insert(Id); }
  virtual ~PBase() { Alive->erase(Id); }
};
struct PDerived : PBase {
  using PBase::PBase;
  std::string Pad = "some heap allocated string to notice leaks";
};
void maybeUnique(Ctx &C) {
  std::set<int> Alive;
  int Next = 0;
  std::set<int> Expect; // objects that must be alive
  std::map<int, std::unique_ptr<PBase>> External;
  bool Transfer = false;
  DescLog Log{C};
  {
    constexpr unsigned N = 3;
    psr::MaybeUniquePtr<PBase> P[N];
    struct {
      PBase *Ptr = nullptr;
      bool Owns = false;
    } M[N];
    unsigned NOps = (unsigned)C.range(1, 25);
    for (unsigned K = 0; K < NOps; ++K) {
      unsigned I = (unsigned)C.draw(N), J = (unsigned)C.draw(N);
      auto Drop = [&] {
        if (M[I].Owns)
          Expect.erase(M[I].Ptr->Id);
      };
      switch (C.draw(8)) {
      case 0: { // non-owning
        auto U = std::make_unique<PBase>(Next, &Alive);
        auto *Raw = U.get();
        Expect.insert(Next);
        External[Next++] = std::move(U);
        Drop();
        P[I].reset();
        P[I] = psr::MaybeUniquePtr<PBase>(Raw);
        M[I] = {Raw, false};
        Log += strf("p%u=raw;", I);
        break;
      }
      case 1: { // owning, raw
        Drop();
        auto *Raw = new PBase(Next, &Alive);
        P[I].reset();
        psr::MaybeUniquePtr<PBase> T(Raw, true);
        P[I] = std::move(T);
        Expect.insert(Next++);
        M[I] = {Raw, true};
        Log += strf("p%u=own;", I);
        break;
      }
      case 2: { // unique_ptr assignment
        Drop();
        auto U = std::make_unique<PBase>(Next, &Alive);
        auto *Raw = U.get();
        P[I] = std::move(U);
        Expect.insert(Next++);
        M[I] = {Raw, true};
        Log += strf("p%u=unique;", I);
        break;
      }
      case 3: { // unique_ptr<Derived>
        Drop();
        auto U = std::make_unique<PDerived>(Next, &Alive);
        auto *Raw = U.get();
        if (C.flip())
          P[I] = std::move(U);
        else
          P[I].reset(std::move(U));
        Expect.insert(Next++);
        M[I] = {Raw, true};
        Log += strf("p%u=derived;", I);
        break;
      }
      case 4:
        Drop();
        P[I].reset();
        M[I] = {};
        Log += strf("p%u.reset;", I);
        break;
      case 5: {
        auto *R = P[I].release();
        PBT_CHECK(C, R == M[I].Ptr, "release result; " + Log);
        if (M[I].Owns)
          External[R->Id] = std::unique_ptr<PBase>(R);
        M[I].Owns = false;
        Log += strf("p%u.release;", I);
        break;
      }
      case 6:
        Transfer = true;
        if (I != J) {
          psr::MaybeUniquePtr<PBase> T;
          T = std::move(P[I]);
          PBT_CHECK(C, !P[I] && !P[I].owns(), "moved-from owns; " + Log);
          Drop();
          P[I] = std::move(P[J]);
          // move assignment swaps; the old P[I] was moved out before
          M[I] = M[J];
          M[J] = {};
          P[J].reset();
        } // T destroys the old object of I
        Log += strf("p%u=move(p%u);", I, J);
        break;
      default:
        swap(P[I], P[J]);
        std::swap(M[I], M[J]);
        Log += strf("swap(p%u,p%u);", I, J);
      }
      for (unsigned Z = 0; Z < N; ++Z) {
        PBT_CHECK(C, P[Z].get() == M[Z].Ptr, "get; " + Log);
        PBT_CHECK(C, P[Z].owns() == M[Z].Owns, "owns; " + Log);
        PBT_CHECK(C, (bool)P[Z] == (M[Z].Ptr != nullptr), "bool; " + Log);
        PBT_CHECK(C, (P[Z] == P[0]) == (M[Z].Ptr == M[0].Ptr), "==; " + Log);
      }
      PBT_CHECK(C, Alive == Expect, "set of live objects; " + Log);
    }
    for (unsigned Z = 0; Z < N; ++Z)
      if (M[Z].Owns)
        Expect.erase(M[Z].Ptr->Id);
  }
  PBT_CHECK(C, Alive == Expect, "objects alive after destruction; " + Log);
  C.nontrivial(Transfer);
}

//===--------------------------------------------------------------------===//
// AdjacencyList
//===--------------------------------------------------------------------===//
void adjacency(Ctx &C) {
  using G = psr::AdjacencyList<int>;
  using Tr = psr::GraphTraits<G>;
  G Gr;
  std::vector<int> Nodes;
  std::vector<std::multiset<unsigned>> Adj;
  std::multiset<unsigned> Roots;
  unsigned NOps = (unsigned)C.range(1, 50);
  bool Removed = false;
  for (unsigned K = 0; K < NOps; ++K) {
    unsigned N = (unsigned)Nodes.size();
    unsigned V = N ? (unsigned)C.draw(N) : 0, W = N ? (unsigned)C.draw(N) : 0;
    switch (N ? C.weighted({4, 8, 2, 2, 2, 1, 1}) : 0) {
    case 0: {
      int X = (int)C.draw(4);
      auto R = Tr::addNode(Gr, X);
      PBT_CHECK(C, R == N, "vertex descriptor");
      Nodes.push_back(X);
      Adj.emplace_back();
      break;
    }
    case 1:
      Tr::addEdge(Gr, V, W);
      Adj[V].insert(W);
      break;
    case 2: {
      Tr::dedupOutEdges(Gr, V);
      std::set<unsigned> S(Adj[V].begin(), Adj[V].end());
      Adj[V] = std::multiset<unsigned>(S.begin(), S.end());
      break;
    }
    case 3:
      if (!Adj[V].empty()) {
        Removed = true;
        auto Es = Tr::outEdges(Gr, V);
        // iterate and remove, as documented
        unsigned Before = (unsigned)Es.size();
        auto It = Es.begin() + C.draw(Es.size());
        unsigned Val = *It;
        auto Nx = Tr::removeEdge(Gr, V, It);
        Adj[V].erase(Adj[V].find(Val));
        auto Es2 = Tr::outEdges(Gr, V);
        PBT_CHECK(C, Es2.size() == Before - 1, "edge count after removeEdge");
        PBT_CHECK(C, Nx >= Es2.begin() && Nx <= Es2.end(), "iterator returned by removeEdge");
      }
      break;
    case 4:
      if (!Roots.count(V)) {
        Tr::addRoot(Gr, V);
        Roots.insert(V);
      }
      break;
    case 5:
      if (!Roots.empty()) {
        auto Rs = Tr::roots(Gr);
        auto It = Rs.begin() + C.draw(Rs.size());
        unsigned Val = *It;
        (void)Tr::removeRoot(Gr, It);
        Roots.erase(Roots.find(Val));
      }
      break;
    default: {
      // pop only without dangling references
      bool Ref = Roots.count(N - 1);
      for (auto &A : Adj)
        Ref |= A.count(N - 1) != 0;
      if (!Ref) {
        PBT_CHECK(C, Tr::pop(Gr, N - 1), "pop of the last node");
        Nodes.pop_back();
        Adj.pop_back();
      } else if (N > 1) {
        PBT_CHECK(C, !Tr::pop(Gr, N - 2), "pop of a node that is not the last one");
      }
    }
    }
    PBT_CHECK(C, Tr::size(Gr) == Nodes.size(), "size");
    PBT_CHECK(C, Tr::roots_size(Gr) == Roots.size(), "roots_size");
    auto Rs = Tr::roots(Gr);
    PBT_CHECK(C, std::multiset<unsigned>(Rs.begin(), Rs.end()) == Roots, "roots");
    unsigned Cnt = 0;
    for (auto V : Tr::vertices(Gr)) {
      PBT_CHECK(C, V == Cnt, "vertices");
      ++Cnt;
      PBT_CHECK(C, Tr::node(Gr, V) == Nodes[V], "node");
      auto Es = Tr::outEdges(Gr, V);
      PBT_CHECK(C, std::multiset<unsigned>(Es.begin(), Es.end()) == Adj[V], "outEdges");
      PBT_CHECK(C, Tr::outDegree(Gr, V) == Adj[V].size(), "outDegree");
    }
    PBT_CHECK(C, Cnt == Nodes.size(), "number of vertices");
  }
  // reverseGraph
  auto R = psr::reverseGraph(Gr);
  std::multiset<std::pair<unsigned, unsigned>> E1, E2;
  std::multiset<unsigned> RR;
  for (unsigned V = 0; V < Adj.size(); ++V) {
    for (auto W : Adj[V])
      E1.insert({W, V});
    if (Adj[V].empty())
      RR.insert(V);
  }
  PBT_CHECK(C, Tr::size(R) == Nodes.size(), "reverse size");
  for (auto V : Tr::vertices(R)) {
    PBT_CHECK(C, Tr::node(R, V) == Nodes[V], "reverse node");
    for (auto W : Tr::outEdges(R, V))
      E2.insert({V, W});
  }
  PBT_CHECK(C, E1 == E2, "reversed edges");
  auto Rs = Tr::roots(R);
  PBT_CHECK(C, std::multiset<unsigned>(Rs.begin(), Rs.end()) == RR, "reversed roots");
  C.nontrivial(Removed);
  C.describe(strf("%u ops, %zu nodes", NOps, Nodes.size()));
}

} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P18";
  P.Subs = {
      {"bitvectorset-int", "random operation histories over up to 4 sets of ints; compared with std::set after every step; non-trivial: an element was erased or sets were merged", bvsInt, 6000, 0, 1},
      {"bitvectorset-string", "the same over sets of strings", bvsStr, 3000, 0, 1},
      {"stablevector-obj", "random histories of two vectors of heap-owning objects, values and addresses compared with a model, under ASan; non-trivial: more than one block was used", svObj, 12000},
      {"stablevector-int", "the same with ints", svInt, 8000},
      {"equivalenceclassmap", "random insertion histories; non-trivial: at least two classes", eqMap, 10000},
      {"table", "random histories on a table, all the queries compared after every step; non-trivial: a removal happened", table, 10000},
      {"algorithms", "remove_by_index, computePowerSet, intersectWith on random inputs; non-trivial: a proper part of at least two indices removed", algorithms, 30000},
      {"maybeuniqueptr", "random ownership histories, set of live objects compared; non-trivial: ownership moved between pointers", maybeUnique, 20000},
      {"adjacencylist", "random graph histories; non-trivial: an edge was removed", adjacency, 10000},
  };
  P.Assumptions = {"indices given to remove_by_index are sorted, unique and in range (documented)",
                   "a key of an EquivalenceClassMap is inserted with one value only"};
  return pbt::run(argc, argv, P);
}
