// BUILD: san
// P04: the edge-function algebra and the lifetime of edge functions
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/Domain/LatticeDomain.h"
#include "phasar/Utils/JoinLattice.h"

#include "llvm/ADT/DenseMap.h"
#include "llvm/Support/MathExtras.h"

#include <set>
#include <unordered_map>

namespace lat {
constexpr int Full = 15;
struct Mask {
  int V = -1; // -1: top
  friend bool operator==(Mask A, Mask B) { return A.V == B.V; }
  friend bool operator!=(Mask A, Mask B) { return A.V != B.V; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &O, Mask M) {
    return O << M.V;
  }
};
inline llvm::hash_code hash_value(Mask M) { return llvm::hash_value(M.V); }
} // namespace lat
using lat::Mask;
namespace psr {
template <> struct JoinLatticeTraits<Mask> {
  static constexpr Mask top() { return {-1}; }
  static constexpr Mask bottom() { return {lat::Full}; }
  static Mask join(Mask A, Mask B) {
    return A.V < 0 ? B : B.V < 0 ? A : Mask{A.V | B.V};
  }
};
} // namespace psr
using psr::EdgeFunction;
using psr::EdgeFunctionRef;

static long Live = 0;
struct Counted {
  Counted() { ++Live; }
  Counted(const Counted &) { ++Live; }
  Counted &operator=(const Counted &) = default;
  ~Counted() { --Live; }
};

// ------------------------------------------------ first domain: subsets
// x -> (x & A) | B; top is mapped to B (or to top if Strict)
struct MaskFn {
  uint8_t A = 15, B = 0;
  bool Strict = true;
  Mask operator()(Mask X) const {
    if (X.V < 0)
      return Strict ? X : Mask{B};
    return {(X.V & A) | B};
  }
  friend bool operator==(MaskFn X, MaskFn Y) {
    return X.A == Y.A && X.B == Y.B && X.Strict == Y.Strict;
  }
};

template <int N> struct MaskDom {
  using L = Mask;
  using EF = EdgeFunction<L>;
  static constexpr int Bound = N;
  template <typename T>
  static EF defaultCompose(EdgeFunctionRef<T> This, const EF &S);
  template <typename T>
  static EF defaultJoin(EdgeFunctionRef<T> This, const EF &O) {
    if (auto D = psr::defaultJoinOrNull<L, N>(This, O))
      return D;
    return psr::JoinEdgeFunction<L, N>::create(This, O);
  }
  struct Soo {
    using l_t = L;
    uint8_t A, B, Strict;
    L computeTarget(L X) const { return MaskFn{A, B, Strict != 0}(X); }
    static EF compose(EdgeFunctionRef<Soo> T, const EF &S) {
      return defaultCompose(T, S);
    }
    static EF join(EdgeFunctionRef<Soo> T, const EF &O) {
      return defaultJoin(T, O);
    }
    friend bool operator==(Soo X, Soo Y) {
      return X.A == Y.A && X.B == Y.B && X.Strict == Y.Strict;
    }
  };
  struct Heap : Counted {
    using l_t = L;
    MaskFn F;
    explicit Heap(MaskFn F = {}) : F(F) {}
    L computeTarget(L X) const { return F(X); }
    static EF compose(EdgeFunctionRef<Heap> T, const EF &S) {
      return defaultCompose(T, S);
    }
    static EF join(EdgeFunctionRef<Heap> T, const EF &O) {
      return defaultJoin(T, O);
    }
    friend bool operator==(const Heap &X, const Heap &Y) { return X.F == Y.F; }
    friend llvm::hash_code hash_value(const Heap &X) {
      return llvm::hash_combine(X.F.A, X.F.B, X.F.Strict);
    }
  };
  struct Composer : psr::EdgeFunctionComposer<L>, Counted {
    static EF join(EdgeFunctionRef<Composer> T, const EF &O) {
      return defaultJoin(T, O);
    }
  };
  static std::vector<L> values() {
    std::vector<L> V;
    for (int I = -1; I < 16; ++I)
      V.push_back({I});
    return V;
  }
  static bool isBot(L X) { return X.V == lat::Full; }
  static MaskFn fn(pbt::Ctx &C) {
    return {(uint8_t)C.draw(16), (uint8_t)C.draw(16), C.flip()};
  }
  static EF soo(pbt::Ctx &C, std::string &D) {
    auto F = fn(C);
    D = pbt::strf("soo(&%d|%d%s)", F.A, F.B, F.Strict ? "" : "!");
    return Soo{F.A, F.B, F.Strict};
  }
  static Heap heap(pbt::Ctx &C, std::string &D) {
    auto F = fn(C);
    D = pbt::strf("heap(&%d|%d%s)", F.A, F.B, F.Strict ? "" : "!");
    return Heap{F};
  }
  static EF constant(pbt::Ctx &C, std::string &D) {
    int V = C.draw(15);
    D = pbt::strf("const(%d)", V);
    return psr::ConstantEdgeFunction<L>{Mask{V}};
  }
  static std::string str(L X) { return std::to_string(X.V); }
};
template <int N>
template <typename T>
EdgeFunction<Mask> MaskDom<N>::defaultCompose(EdgeFunctionRef<T> This,
                                              const EF &S) {
  if (auto D = psr::defaultComposeOrNull<L>(This, S))
    return D;
  return Composer{{This, S}, {}};
}

// ------------------------------------- second domain: constants, flat lattice
struct FlatDom {
  using L = psr::LatticeDomain<int64_t>;
  using EF = EdgeFunction<L>;
  static constexpr int Bound = 0;
  static L run(L X, int64_t Mul, int64_t Add) {
    if (auto *V = std::get_if<int64_t>(&X)) {
      int64_t R;
      if (llvm::MulOverflow(*V, Mul, R) || llvm::AddOverflow(R, Add, R))
        return psr::Bottom{};
      return R;
    }
    return X;
  }
  template <typename T>
  static EF defaultCompose(EdgeFunctionRef<T> This, const EF &S);
  template <typename T>
  static EF defaultJoin(EdgeFunctionRef<T> This, const EF &O) {
    if (auto D = psr::defaultJoinOrNull<L>(This, O))
      return D;
    return psr::AllBottom<L>{};
  }
  struct Soo {
    using l_t = L;
    int64_t K;
    L computeTarget(L X) const { return run(X, 1, K); }
    static EF compose(EdgeFunctionRef<Soo> T, const EF &S) {
      return defaultCompose(T, S);
    }
    static EF join(EdgeFunctionRef<Soo> T, const EF &O) {
      return defaultJoin(T, O);
    }
    friend bool operator==(Soo X, Soo Y) { return X.K == Y.K; }
  };
  struct Heap : Counted {
    using l_t = L;
    int64_t M = 1, K = 0;
    Heap() = default;
    Heap(int64_t M, int64_t K) : M(M), K(K) {}
    L computeTarget(L X) const { return run(X, M, K); }
    static EF compose(EdgeFunctionRef<Heap> T, const EF &S) {
      return defaultCompose(T, S);
    }
    static EF join(EdgeFunctionRef<Heap> T, const EF &O) {
      return defaultJoin(T, O);
    }
    friend bool operator==(const Heap &X, const Heap &Y) {
      return X.M == Y.M && X.K == Y.K;
    }
    friend llvm::hash_code hash_value(const Heap &X) {
      return llvm::hash_combine(X.M, X.K);
    }
  };
  struct Composer : psr::EdgeFunctionComposer<L>, Counted {
    static EF join(EdgeFunctionRef<Composer> T, const EF &O) {
      return defaultJoin(T, O);
    }
  };
  static std::vector<L> values() {
    return {L(psr::Top{}), L(psr::Bottom{}), L(int64_t(0)), L(int64_t(1)),
            L(int64_t(-1)), L(int64_t(7)), L(INT64_MAX), L(INT64_MIN)};
  }
  static bool isBot(L X) { return X.isBottom(); }
  static EF soo(pbt::Ctx &C, std::string &D) {
    int64_t K = C.flip() ? C.range(-2, 2) : C.interesting64();
    D = pbt::strf("soo(+%ld)", (long)K);
    return Soo{K};
  }
  static Heap heap(pbt::Ctx &C, std::string &D) {
    int64_t M = C.range(-2, 3), K = C.range(-2, 2);
    D = pbt::strf("heap(*%ld+%ld)", (long)M, (long)K);
    return Heap{M, K};
  }
  static EF constant(pbt::Ctx &C, std::string &D) {
    int64_t V = C.flip() ? C.range(-2, 2) : C.interesting64();
    D = pbt::strf("const(%ld)", (long)V);
    return psr::ConstantEdgeFunction<L>{V};
  }
  static std::string str(L X) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    OS << X;
    return OS.str();
  }
};
template <typename T>
EdgeFunction<FlatDom::L> FlatDom::defaultCompose(EdgeFunctionRef<T> This,
                                                 const EF &S) {
  if (auto D = psr::defaultComposeOrNull<L>(This, S))
    return D;
  return Composer{{This, S}, {}};
}

// ------------------------------------------------------------------ histories
template <typename D> struct Hist {
  using L = typename D::L;
  using EF = EdgeFunction<L>;
  using JL = psr::JoinLatticeTraits<L>;
  using Tab = std::vector<L>;
  struct Slot {
    EF E;
    Tab T;
    std::string Txt;
  };
  pbt::Ctx &C;
  std::vector<L> Vals = D::values();
  explicit Hist(pbt::Ctx &C) : C(C) {}

  Tab eval(const EF &E) {
    Tab T;
    for (auto &V : Vals)
      T.push_back(E.computeTarget(V));
    return T;
  }
  std::string str(const Tab &T) {
    std::string S;
    for (auto &V : T)
      S += D::str(V) + " ";
    return S;
  }
  static bool leq(L A, L B) { return L(JL::join(A, B)) == B; }
  // the distinct parts of a (possibly) joined function
  template <int N> void parts(const EF &E, std::vector<EF> &Out) {
    if constexpr (N > 0) {
      if (auto *J = E.template dyn_cast<psr::JoinEdgeFunction<L, N>>()) {
        for (auto &X : J->OtherEF)
          parts<N>(X, Out);
        return;
      }
    }
    for (auto &X : Out)
      if (X == E)
        return;
    Out.push_back(E);
  }

  void run() {
    long Before = Live;
    std::string Log;
    {
      psr::DefaultEdgeFunctionSingletonCache<typename D::Heap> Cache;
      std::vector<Slot> P;
      llvm::DenseMap<EF, int> DM;
      std::unordered_map<std::string, std::pair<EF, Tab>> Keep;
      unsigned N = 4 + C.draw(28);
      unsigned Ops = 0;
      auto Add = [&](EF E, std::string Txt) {
        PBT_CHECK(C, E.isValid(), "invalid edge function " + Txt);
        Log += "e" + std::to_string(P.size()) + " = " + Txt + "\n";
        P.push_back({std::move(E), {}, std::move(Txt)});
        P.back().T = eval(P.back().E);
      };
      Add(psr::EdgeIdentity<L>{}, "id");
      for (unsigned K = 0; K < N; ++K) {
        auto Pick = [&]() -> size_t { return C.draw(P.size()); };
        auto Nm = [](size_t I) { return "e" + std::to_string(I); };
        switch (C.weighted({4, 6, 6, 2, 2, 2, 1, 2})) {
        case 0: { // leaf
          std::string Txt;
          switch (C.draw(D::Bound > 0 ? 9 : 7)) {
          case 7:
          case 8: // a join with a constant part
            if constexpr (D::Bound > 0) {
              std::string T1, T2;
              Mask V{int(C.draw(15))};
              psr::JoinEdgeFunction<L, D::Bound> J;
              J.Seed = V;
              J.OtherEF.push_back(D::soo(C, T1));
              if (D::Bound > 1 && C.flip()) {
                EF E2 = D::heap(C, T2);
                if (E2 != J.OtherEF[0])
                  J.OtherEF.push_back(E2);
              }
              Add(EF(std::move(J)), "join{" + D::str(V) + ", " + T1 + ", " + T2 + "}");
              C.label("join with a seed");
            }
            break;
          case 0:
            Add(psr::EdgeIdentity<L>{}, "id");
            break;
          case 1:
            Add(psr::AllTop<L>{}, "alltop");
            break;
          case 2:
            Add(psr::AllBottom<L>{}, "allbot");
            break;
          case 3: {
            EF E = D::constant(C, Txt);
            Add(E, Txt);
            break;
          }
          case 4: {
            EF E = D::soo(C, Txt);
            Add(E, Txt);
            break;
          }
          case 5: {
            EF E = D::heap(C, Txt);
            Add(E, Txt);
            break;
          }
          case 6: {
            auto H = D::heap(C, Txt);
            EF E = psr::CachedEdgeFunction<typename D::Heap>{H, &Cache};
            EF E2 = psr::CachedEdgeFunction<typename D::Heap>{H, &Cache};
            PBT_CHECK(C, E.referenceEquals(E2) && E.isCached(),
                      "a cached edge function exists twice");
            PBT_CHECK(C, E.template getCacheOrNull<typename D::Heap>() == &Cache,
                      "cache of a cached edge function");
            Add(E, "cached " + Txt);
            C.label("cached");
            break;
          }
          }
          break;
        }
        case 1: { // compose
          size_t A = Pick(), B = Pick();
          if (P[A].E.depth() + P[B].E.depth() > 40)
            break;
          EF R = C.flip() ? P[A].E.composeWith(P[B].E)
                          : EF::compose(P[A].E, P[B].E);
          PBT_CHECK(C, R.isValid(), "composition gives no function");
          bool Exact = !llvm::isa<psr::AllTop<L>>(P[A].E) &&
                       !llvm::isa<psr::AllBottom<L>>(P[A].E);
          auto T = eval(R);
          for (size_t I = 0; I < Vals.size(); ++I) {
            L W = P[B].E.computeTarget(P[A].T[I]);
            if (Exact ? T[I] != W : !leq(W, T[I])) {
              C.describe(Log);
              C.fail("compose(" + Nm(A) + ", " + Nm(B) + ")(" +
                     D::str(Vals[I]) + ") = " + D::str(T[I]) + ", expected " +
                     D::str(W));
            }
          }
          C.label(Exact ? "compose" : "compose of alltop/allbottom");
          Add(R, "compose(" + Nm(A) + ", " + Nm(B) + ")");
          ++Ops;
          break;
        }
        case 2: { // join
          size_t A = Pick(), B = Pick();
          if (P[A].E.depth() + P[B].E.depth() > 40)
            break;
          EF R =
              C.flip() ? P[A].E.joinWith(P[B].E) : EF::join(P[A].E, P[B].E);
          PBT_CHECK(C, R.isValid(), "join gives no function");
          auto T = eval(R);
          std::vector<EF> Parts;
          parts<D::Bound>(P[A].E, Parts);
          parts<D::Bound>(P[B].E, Parts);
          auto isTriv = [](const EF &E) {
            return llvm::isa<psr::AllTop<L>>(E) ||
                   llvm::isa<psr::AllBottom<L>>(E);
          };
          bool ConstId = (P[A].E.isConstant() &&
                          llvm::isa<psr::EdgeIdentity<L>>(P[B].E)) ||
                         (P[B].E.isConstant() &&
                          llvm::isa<psr::EdgeIdentity<L>>(P[A].E));
          bool Exact = isTriv(P[A].E) || isTriv(P[B].E) ||
                       (P[A].E.isConstant() && P[B].E.isConstant()) ||
                       P[A].E == P[B].E ||
                       (D::Bound > 0 && !ConstId && Parts.size() <= D::Bound);
          for (size_t I = 0; I < Vals.size(); ++I) {
            L W = JL::join(P[A].T[I], P[B].T[I]);
            if (Exact ? T[I] != W : !leq(W, T[I])) {
              C.describe(Log);
              C.fail("join(" + Nm(A) + ", " + Nm(B) + ")(" + D::str(Vals[I]) +
                     ") = " + D::str(T[I]) + ", expected " + D::str(W) +
                     (Exact ? "" : " or above"));
            }
            if (!Exact && T[I] != W && !llvm::isa<psr::AllBottom<L>>(R)) {
              C.describe(Log);
              C.fail("join(" + Nm(A) + ", " + Nm(B) +
                     ") is neither exact nor AllBottom");
            }
          }
          // what the solver's fixpoint relies on: joining again changes nothing
          for (auto &X : {P[A].E, P[B].E}) {
            EF R2 = R.joinWith(X);
            if (R2 != R) {
              C.describe(Log);
              C.fail("join(join(" + Nm(A) + ", " + Nm(B) +
                     "), one of them) is another function");
            }
          }
          C.label(Exact ? "join" : "over-approximating join");
          if (Exact && Parts.size() > 1 && D::Bound)
            C.label("exact join of different functions");
          Add(R, "join(" + Nm(A) + ", " + Nm(B) + ")");
          ++Ops;
          break;
        }
        case 3: { // copy assignment, also to itself
          size_t A = Pick(), B = Pick();
          P[A].E = P[B].E;
          P[A].T = P[B].T;
          Log += Nm(A) + " := " + Nm(B) + "\n";
          break;
        }
        case 4: { // move
          size_t A = Pick(), B = Pick();
          if (A == B)
            break;
          P[A].E = std::move(P[B].E);
          P[A].T = P[B].T;
          PBT_CHECK(C, P[B].E == nullptr && !P[B].E, "moved-from is not null");
          P[B].E = psr::AllBottom<L>{};
          P[B].T = eval(P[B].E);
          Log += Nm(A) + " := move " + Nm(B) + "\n";
          break;
        }
        case 5: { // swap, drop
          size_t A = Pick(), B = Pick();
          if (C.flip()) {
            swap(P[A].E, P[B].E);
            std::swap(P[A].T, P[B].T);
            Log += "swap " + Nm(A) + " " + Nm(B) + "\n";
          } else {
            P[A].E = nullptr;
            P[A].E = psr::EdgeIdentity<L>{};
            P[A].T = eval(P[A].E);
            Log += "drop " + Nm(A) + "\n";
          }
          break;
        }
        case 6: { // as keys and values of containers
          size_t A = Pick();
          bool Hashable = !P[A].E.isRefCounted() ||
                          P[A].E.template isa<typename D::Heap>();
          if (Hashable) {
            bool Had = false;
            for (auto &[E, V] : DM)
              Had |= E == P[A].E;
            bool Ins = DM.try_emplace(P[A].E, K).second;
            PBT_CHECK(C, Ins == !Had, "edge functions as keys of a DenseMap");
          }
          Keep[std::to_string(C.draw(4))] = {P[A].E, P[A].T};
          break;
        }
        case 7: { // relations between two
          size_t A = Pick(), B = Pick();
          const EF &X = P[A].E, &Y = P[B].E;
          bool Eq = X == Y;
          PBT_CHECK(C, Eq == (Y == X) && Eq == !(X != Y), "== not symmetric");
          PBT_CHECK(C, !Eq || P[A].T == P[B].T,
                    "equal edge functions compute different values");
          PBT_CHECK(C, !X.referenceEquals(Y) || Eq, "same but not equal");
          PBT_CHECK(C, (X < Y) + (Y < X) + Eq == 1, "< is not total");
          if (Eq && (!X.isRefCounted() || X.template isa<typename D::Heap>()))
            PBT_CHECK(C, X.getHashCode() == Y.getHashCode(),
                      "equal edge functions have different hashes");
          if (Eq)
            C.label("equal pair");
          break;
        }
        }
      }
      C.nontrivial(Ops >= 3);
      for (size_t I = 0; I < P.size(); ++I) {
        auto T = eval(P[I].E);
        if (T != P[I].T) {
          C.describe(Log);
          C.fail("e" + std::to_string(I) + " computes " + str(T) +
                 " instead of " + str(P[I].T));
        }
        if (P[I].E.isConstant())
          for (auto &V : P[I].T)
            PBT_CHECK(C, V == P[I].T[0], "isConstant() but not constant");
      }
      for (auto &[K, ET] : Keep)
        PBT_CHECK(C, eval(ET.first) == ET.second, "kept function changed");
      C.describe(Log);
    }
    PBT_CHECK(C, Live == Before,
              pbt::strf("%ld edge functions leaked", Live - Before));
  }
};

template <typename D> static void hist(pbt::Ctx &C) { Hist<D>(C).run(); }

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P04";
  const char *R = "random histories over a pool of edge functions (built-in "
                  "ones, user-defined small, heap and cached ones): compose, "
                  "join, copy, move, swap, drop, containers; "
                  "non-trivial: at least three compositions or joins";
  P.Subs = {
      {"flat", R, hist<FlatDom>, 500000, 0, 500},
      {"subsets-join2", R, hist<MaskDom<2>>, 500000, 0, 500},
      {"subsets-join4", R, hist<MaskDom<4>>, 500000, 0, 500},
  };
  return pbt::run(argc, argv, P);
}
