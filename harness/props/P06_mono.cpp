// BUILD:
// P06: the intra-procedural monotone framework computes the maximal fixed point
#include "irgen.h"
#include "pbt.h"

#include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"
#include "phasar/DataFlow/Mono/IntraMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/BitVectorSet.h"

#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"

#include <map>
#include <set>

using namespace psr;
using Inst = const llvm::Instruction *;

namespace {
std::string str(Inst I) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  I->print(OS);
  OS << " in " << I->getFunction()->getName();
  return S;
}

// ------------------------------------------------------------------ problems
template <typename Cont> struct Dom : LLVMAnalysisDomainDefault {
  using d_t = int;
  using mono_container_t = Cont;
};
using Seeds = std::map<Inst, std::set<int>>;

// gen/kill with may- or must-merge. Facts 0..N-1; for must problems fact N
// stands for "not reached" and makes the set neutral for the merge.
template <typename Cont> struct GenKill : IntraMonoProblem<Dom<Cont>> {
  using Base = IntraMonoProblem<Dom<Cont>>;
  using Base::Base;
  bool Must = false;
  int N = 4;
  std::map<Inst, std::pair<std::set<int>, std::set<int>>> GK;
  std::map<Inst, std::pair<int, int>> Copy; // if first holds, second holds
  Seeds S0;
  uint64_t Steps = 0;

  static std::set<int> set(const Cont &C) {
    std::set<int> R;
    for (int X : C)
      R.insert(X);
    return R;
  }
  static Cont cont(const std::set<int> &S) {
    Cont R;
    for (int X : S)
      R.insert(X);
    return R;
  }
  std::set<int> flow(Inst I, std::set<int> In) const {
    if (Must && In.count(N))
      return In;
    auto C = Copy.find(I);
    bool Add = C != Copy.end() && In.count(C->second.first);
    auto &[G, K] = GK.at(I);
    for (int X : K)
      In.erase(X);
    In.insert(G.begin(), G.end());
    if (Add)
      In.insert(C->second.second);
    return In;
  }
  std::set<int> join(const std::set<int> &A, const std::set<int> &B) const {
    std::set<int> R;
    if (!Must) {
      R = A;
      R.insert(B.begin(), B.end());
      return R;
    }
    if (A.count(N))
      return B;
    if (B.count(N))
      return A;
    for (int X : A)
      if (B.count(X))
        R.insert(X);
    return R;
  }
  std::set<int> top() const { return Must ? std::set<int>{N} : std::set<int>{}; }

  Cont normalFlow(Inst I, const Cont &In) override {
    if (++Steps > 2000000)
      throw pbt::Failure{"the solver does not terminate"};
    return cont(flow(I, set(In)));
  }
  Cont merge(const Cont &A, const Cont &B) override {
    return cont(join(set(A), set(B)));
  }
  bool equal_to(const Cont &A, const Cont &B) override {
    return set(A) == set(B);
  }
  Cont allTop() override { return cont(top()); }
  std::unordered_map<Inst, Cont> initialSeeds() override {
    std::unordered_map<Inst, Cont> R;
    for (auto &[I, S] : S0)
      R[I] = cont(S);
    return R;
  }
};

// constant propagation over variables 0..N-1 (monotone, not distributive).
// State: var -> constant; missing: unknown. Key -1: not reached.
using Env = std::map<int, int>;
struct CP : IntraMonoProblem<Dom<Env>> {
  // the container is a map, its value type a pair
  using Base = IntraMonoProblem<Dom<Env>>;
  using Base::Base;
  struct Op {
    int Kind = 0, D = 0, A = 0, B = 0; // nop, D=A(const), D=A, D=A+B, D=A*B
  };
  std::map<Inst, Op> Ops;
  std::map<Inst, Env> S0;
  uint64_t Steps = 0;
  static Env flow(const Op &O, Env In) {
    if (In.count(-1))
      return In;
    auto Get = [&](int V) -> llvm::Optional<int> {
      auto It = In.find(V);
      if (It == In.end())
        return llvm::None;
      return It->second;
    };
    llvm::Optional<int> R;
    switch (O.Kind) {
    case 0:
      return In;
    case 1:
      R = O.A;
      break;
    case 2:
      R = Get(O.A);
      break;
    case 3:
      if (auto X = Get(O.A))
        if (auto Y = Get(O.B))
          R = (*X + *Y) & 7;
      break;
    default: {
      auto X = Get(O.A), Y = Get(O.B);
      if (X && Y)
        R = (*X * *Y) & 7;
      else if ((X && *X == 0) || (Y && *Y == 0))
        R = 0;
    }
    }
    In.erase(O.D);
    if (R)
      In[O.D] = *R;
    return In;
  }
  static Env join(const Env &A, const Env &B) {
    if (A.count(-1))
      return B;
    if (B.count(-1))
      return A;
    Env R;
    for (auto &[K, V] : A) {
      auto It = B.find(K);
      if (It != B.end() && It->second == V)
        R[K] = V;
    }
    return R;
  }
  Env normalFlow(Inst I, const Env &In) override {
    if (++Steps > 2000000)
      throw pbt::Failure{"the solver does not terminate"};
    return flow(Ops.at(I), In);
  }
  Env merge(const Env &A, const Env &B) override { return join(A, B); }
  bool equal_to(const Env &A, const Env &B) override { return A == B; }
  Env allTop() override { return {{-1, 0}}; }
  std::unordered_map<Inst, Env> initialSeeds() override {
    std::unordered_map<Inst, Env> R;
    for (auto &[I, S] : S0)
      R[I] = S;
    return R;
  }
};

// ------------------------------------------------------------------ oracle
template <typename St, typename Flow, typename Join>
std::map<Inst, St> mfp(const llvm::Function &F, const std::map<Inst, St> &Init,
                       St Top, Flow &&Fl, Join &&Jn) {
  std::map<Inst, St> Out;
  for (auto &I : llvm::instructions(F))
    Out[&I] = Fl(&I, Init.count(&I) ? Init.at(&I) : Top);
  for (bool Ch = true; Ch;) {
    Ch = false;
    for (auto &BB : F)
      for (auto &I : BB) {
        St In = Top;
        if (&I != &BB.front()) {
          In = Out[I.getPrevNode()];
        } else if (&BB != &F.getEntryBlock()) {
          bool First = true;
          for (auto *P : llvm::predecessors(&BB)) {
            auto &X = Out[P->getTerminator()];
            In = First ? X : Jn(In, X);
            First = false;
          }
        } else {
          In = Init.count(&I) ? Init.at(&I) : Top;
        }
        St O = Fl(&I, In);
        if (O != Out[&I]) {
          Out[&I] = O;
          Ch = true;
        }
      }
  }
  return Out;
}

std::string show(const std::set<int> &S) {
  std::string R = "{";
  for (int X : S)
    R += " " + std::to_string(X);
  return R + " }";
}
std::string show(const Env &S) {
  std::string R = "{";
  for (auto &[K, V] : S)
    R += pbt::strf(" %d=%d", K, V);
  return R + " }";
}

irgen::Opts opts(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxFuns = 2;
  O.MaxBlocks = 9;
  O.MaxStmts = 3;
  O.Invokes = C.chance(1, 3);
  O.Unreach = C.chance(1, 4);
  O.DeadBlocks = C.chance(1, 4);
  O.MultiRet = true;
  return O;
}

struct Env0 {
  llvm::LLVMContext Ctx;
  std::unique_ptr<irgen::Gen> G;
  std::unique_ptr<llvm::Module> M;
  std::unique_ptr<LLVMProjectIRDB> DB;
  std::vector<std::string> Entries;
  std::vector<llvm::Function *> Fns;
  LLVMBasedCFG CFG{false};
};
void setup(pbt::Ctx &C, Env0 &E) {
  E.G = std::make_unique<irgen::Gen>(C, opts(C), E.Ctx);
  E.M = E.G->run();
  if (C.chance(1, 3)) { // loops that consist of one instruction
    std::vector<llvm::BranchInst *> Brs;
    for (auto &F : *E.M)
      for (auto &BB : F)
        if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(BB.getTerminator()))
          if (Br->isUnconditional() && C.chance(1, 3))
            Brs.push_back(Br);
    for (auto *Br : Brs) {
      auto *To = Br->getSuccessor(0);
      auto *L = llvm::BasicBlock::Create(E.Ctx, "self", Br->getFunction(), To);
      llvm::BranchInst::Create(
          L, To, llvm::UndefValue::get(llvm::Type::getInt1Ty(E.Ctx)), L);
      To->replacePhiUsesWith(Br->getParent(), L);
      Br->setSuccessor(0, L);
    }
  }
  E.DB = std::make_unique<LLVMProjectIRDB>(E.M.get());
  for (auto &F : *E.M)
    if (!F.isDeclaration() && (F.getName() == "main" || C.flip())) {
      E.Entries.push_back(F.getName().str());
      E.Fns.push_back(&F);
    }
  C.describe(irgen::print(*E.M));
}

template <typename Cont> void genkill(pbt::Ctx &C) {
  Env0 E;
  setup(C, E);
  GenKill<Cont> P(E.DB.get(), nullptr, &E.CFG, nullptr, E.Entries);
  P.Must = C.flip();
  P.N = 1 + (int)C.draw(70) / 10;
  unsigned Gp = 1 + (unsigned)C.draw(3);
  auto Sub = [&](unsigned Den) {
    std::set<int> R;
    for (int K = 0; K < P.N; ++K)
      if (C.chance(1, Den))
        R.insert(K);
    return R;
  };
  bool Merge = false;
  for (auto *F : E.Fns) {
    for (auto &I : llvm::instructions(*F)) {
      P.GK[&I] = {Sub(4 * Gp), Sub(3 * Gp)};
      if (C.chance(1, 5))
        P.Copy[&I] = {(int)C.draw(P.N), (int)C.draw(P.N)};
    }
    for (auto &BB : *F)
      Merge |= llvm::pred_size(&BB) > 1;
    P.S0[&F->getEntryBlock().front()] = Sub(2);
  }
  // seeds are added to allTop(); the oracle starts the same way
  std::map<Inst, std::set<int>> Init;
  for (auto &[I, X] : P.S0) {
    auto T = P.top();
    T.insert(X.begin(), X.end());
    Init[I] = T;
  }
  if (P.Must) {
    // allTop() makes the entry unreachable, so a first instruction brings it
    // into being: every flow of an entry instruction drops the marker
    C.label("must");
  }
  auto Fl = [&](Inst I, std::set<int> In) {
    if (P.Must && P.S0.count(I))
      In.erase(P.N);
    return P.flow(I, In);
  };
  struct Adapt : IntraMonoProblem<Dom<Cont>> {
    GenKill<Cont> &P;
    Adapt(GenKill<Cont> &P, const Env0 &E)
        : IntraMonoProblem<Dom<Cont>>(E.DB.get(), nullptr, &E.CFG, nullptr,
                                      E.Entries),
          P(P) {}
    Cont normalFlow(Inst I, const Cont &In) override {
      if (P.Must && P.S0.count(I)) {
        auto X = P.set(In);
        X.erase(P.N);
        return P.normalFlow(I, P.cont(X));
      }
      return P.normalFlow(I, In);
    }
    Cont merge(const Cont &A, const Cont &B) override { return P.merge(A, B); }
    bool equal_to(const Cont &A, const Cont &B) override {
      return P.equal_to(A, B);
    }
    Cont allTop() override { return P.allTop(); }
    std::unordered_map<Inst, Cont> initialSeeds() override {
      return P.initialSeeds();
    }
  } A(P, E);
  IntraMonoSolver<Dom<Cont>> Sol(A);
  Sol.solve();
  C.nontrivial(Merge);
  for (auto *F : E.Fns) {
    auto Want = mfp<std::set<int>>(
        *F, Init, P.top(), Fl,
        [&](auto &X, auto &Y) { return P.join(X, Y); });
    for (auto &I : llvm::instructions(*F)) {
      auto Got = P.set(Sol.getResultsAt(&I));
      PBT_CHECK(C, Got == Want[&I],
                str(&I) + ": " + show(Got) + ", fixed point " + show(Want[&I]));
    }
  }
}
void genkillSub(pbt::Ctx &C) {
  if (C.flip())
    genkill<BitVectorSet<int>>(C);
  else
    genkill<std::set<int>>(C);
}

void constprop(pbt::Ctx &C) {
  Env0 E;
  setup(C, E);
  CP P(E.DB.get(), nullptr, &E.CFG, nullptr, E.Entries);
  int N = 1 + (int)C.draw(4);
  bool Merge = false;
  std::map<Inst, Env> Init;
  for (auto *F : E.Fns) {
    for (auto &I : llvm::instructions(*F)) {
      CP::Op O;
      if (C.chance(2, 3)) {
        O.Kind = (int)C.draw(5);
        O.D = (int)C.draw(N);
        O.A = (int)C.draw(N);
        O.B = (int)C.draw(N);
      }
      P.Ops[&I] = O;
    }
    for (auto &BB : *F)
      Merge |= llvm::pred_size(&BB) > 1;
  }
  struct Adapt : CP {
    using CP::CP;
    std::set<Inst> Entry;
    Env normalFlow(Inst I, const Env &In) override {
      if (Entry.count(I)) {
        Env X = In;
        X.erase(-1);
        return CP::normalFlow(I, X);
      }
      return CP::normalFlow(I, In);
    }
  } A(E.DB.get(), nullptr, &E.CFG, nullptr, E.Entries);
  A.Ops = P.Ops;
  for (auto *F : E.Fns) {
    auto *I = &F->getEntryBlock().front();
    A.Entry.insert(I);
    Env S;
    for (int V = 0; V < N; ++V)
      if (C.flip())
        S[V] = (int)C.draw(8);
    A.S0[I] = S;
    Init[I] = S;
  }
  IntraMonoSolver<Dom<Env>> Sol(A);
  Sol.solve();
  C.nontrivial(Merge);
  for (auto *F : E.Fns) {
    auto Want = mfp<Env>(
        *F, Init, Env{{-1, 0}},
        [&](Inst I, Env In) { return CP::flow(P.Ops.at(I), In); },
        [](auto &X, auto &Y) { return CP::join(X, Y); });
    for (auto &I : llvm::instructions(*F)) {
      auto Got = Sol.getResultsAt(&I);
      PBT_CHECK(C, Got == Want[&I],
                str(&I) + ": " + show(Got) + ", fixed point " + show(Want[&I]));
    }
  }
}
// ------------------------------------------------------------------ contexts
template <unsigned K> void callstringK(pbt::Ctx &C) {
  using CS = CallStringCTX<int, K>;
  struct E {
    CS S;
    std::vector<int> M;
  };
  std::vector<E> Pool(1);
  std::string T = pbt::strf("K=%u", K);
  bool Cut = false;
  for (size_t N = 2 + C.draw(14); N; --N) {
    size_t I = C.draw(Pool.size());
    E X = Pool[I];
    switch (C.draw(4)) {
    case 0:
    case 1: {
      int V = 1 + (int)C.draw(3);
      T += pbt::strf(" %zu.push(%d)", I, V);
      X.S.push_back(V);
      X.M.push_back(V);
      if (X.M.size() > K) {
        X.M.erase(X.M.begin());
        Cut = true;
      }
      break;
    }
    case 2: {
      T += pbt::strf(" %zu.pop", I);
      int Want = 0;
      if (!X.M.empty()) {
        Want = X.M.back();
        X.M.pop_back();
      }
      int Got = X.S.pop_back();
      PBT_CHECK(C, Got == Want, T + pbt::strf(": popped %d not %d", Got, Want));
      break;
    }
    default: {
      std::vector<int> V;
      for (size_t L = C.draw(K + 1); L; --L)
        V.push_back(1 + (int)C.draw(3));
      T += " init";
      if (V.empty())
        X = {CS{}, {}};
      else if (V.size() == 1)
        X = {CS{V[0]}, V};
      else if (V.size() == 2)
        X = {CS{V[0], V[1]}, V};
      else
        X = {CS{V[0], V[1], V[2]}, {V[0], V[1], V[2]}};
    }
    }
    Pool.push_back(X);
  }
  C.describe(T);
  C.nontrivial(Cut);
  for (auto &A : Pool) {
    PBT_CHECK(C, A.S.size() == A.M.size() && A.S.empty() == A.M.empty(),
              T + ": size");
    for (auto &B : Pool) {
      bool Eq = A.M == B.M;
      PBT_CHECK(C, (A.S == B.S) == Eq && (A.S != B.S) != Eq &&
                       A.S.isEqual(B.S) == Eq && A.S.isDifferent(B.S) != Eq,
                T + ": equality");
      PBT_CHECK(C, (A.S < B.S) == (A.M < B.M), T + ": order");
      PBT_CHECK(C, !Eq || std::hash<CS>{}(A.S) == std::hash<CS>{}(B.S),
                T + ": hash");
    }
  }
}
void callstring(pbt::Ctx &C) {
  switch (C.draw(3)) {
  case 0:
    return callstringK<1>(C);
  case 1:
    return callstringK<2>(C);
  default:
    return callstringK<3>(C);
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P06";
  P.Subs = {
      {"genkill",
       "random gen/kill/copy problems with union or intersection on random "
       "functions (loops, switches, invokes, dead blocks); compared with a "
       "round-robin fixed point at every instruction. Non-trivial: a block has "
       "two predecessors",
       genkillSub, 20000},
      {"constprop",
       "random constant-propagation problems (monotone, not distributive). "
       "Non-trivial: a block has two predecessors",
       constprop, 20000},
      {"callstring",
       "histories of pushes and pops on bounded call strings against a "
       "truncated vector. Non-trivial: the bound was exceeded",
       callstring, 10000}};
  return pbt::run(argc, argv, P);
}
