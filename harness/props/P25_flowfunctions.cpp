// BUILD:
// P25: the flow-function building blocks compute the set functions their
// documentation defines.
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

#pragma clang diagnostic ignored "-Wdeprecated-declarations"

using namespace psr;

namespace {
// ------------------------------------------------------------ templates
using Set = std::set<int>;
constexpr int NF = 7; // facts 0..6; 0 is the zero value

template <typename Cont> Set toSet(const Cont &C) {
  Set R;
  for (auto X : C)
    R.insert(X);
  return R;
}

template <typename Cont> struct Terms {
  pbt::Ctx &C;
  using FF = FlowFunction<int, Cont>;
  using Ptr = std::shared_ptr<FF>;
  using Model = std::function<Set(int)>;
  using T = FlowFunctionTemplates<int, Cont>;
  struct Term {
    Ptr F;
    Model M;
    std::string S;
  };

  int fact() { return (int)C.draw(NF); }
  std::vector<int> facts() {
    std::vector<int> R;
    for (size_t N = C.draw(5); N; --N)
      R.push_back(fact());
    return R;
  }
  static std::string show(const std::vector<int> &V) {
    std::string S = "{";
    for (int X : V)
      S += std::to_string(X) + " ";
    return S + "}";
  }
  static Cont cont(const std::vector<int> &V) {
    Cont R;
    for (int X : V)
      R.insert(X);
    return R;
  }

  Term gen(unsigned Depth) {
    switch (C.draw(Depth ? 24 : 20)) {
    default:
      return {T::identityFlow(), [](int X) { return Set{X}; }, "id"};
    case 1: {
      int V = fact(), W = fact();
      auto M = [=](int X) { return X == W ? Set{V, W} : Set{X}; };
      auto S = pbt::strf("gen(%d,%d)", V, W);
      if (C.flip())
        return {std::make_shared<Gen<int, Cont>>(V, W), M, "L" + S};
      return {T::generateFlow(V, W), M, S};
    }
    case 2: {
      int V = fact(), Mask = (int)C.draw(1 << NF);
      auto P = [Mask](int X) { return (Mask >> X & 1) != 0; };
      auto M = [=](int X) { return P(X) ? Set{V, X} : Set{X}; };
      auto S = pbt::strf("genIf(%d,%x)", V, Mask);
      if (C.flip())
        return {std::make_shared<GenIf<int, Cont>>(V, P), M, "L" + S};
      return {T::generateFlowIf(V, P), M, S};
    }
    case 3: {
      auto V = facts();
      int W = fact();
      auto M = [=](int X) {
        Set R{X};
        if (X == W)
          R.insert(V.begin(), V.end());
        return R;
      };
      auto S = "genMany(" + show(V) + pbt::strf(",%d)", W);
      if (C.flip())
        return {std::make_shared<GenAll<int, Cont>>(cont(V), W), M, "L" + S};
      if (C.flip())
        return {T::generateManyFlows(cont(V), W), M, "C" + S};
      return {T::generateManyFlows(V, W), M, S};
    }
    case 4: {
      int V = fact();
      auto M = [=](int X) { return X == V ? Set{} : Set{X}; };
      auto S = pbt::strf("kill(%d)", V);
      if (C.flip())
        return {std::make_shared<Kill<int, Cont>>(V), M, "L" + S};
      return {T::killFlow(V), M, S};
    }
    case 5: {
      int Mask = (int)C.draw(1 << NF);
      auto P = [Mask](int X) { return (Mask >> X & 1) != 0; };
      auto M = [=](int X) { return P(X) ? Set{} : Set{X}; };
      auto S = pbt::strf("killIf(%x)", Mask);
      if (C.flip())
        return {std::make_shared<KillIf<int, Cont>>(P), M, "L" + S};
      return {T::killFlowIf(P), M, S};
    }
    case 6: {
      auto V = facts();
      auto M = [=](int X) {
        return std::count(V.begin(), V.end(), X) ? Set{} : Set{X};
      };
      auto S = "killMany(" + show(V) + ")";
      if constexpr (std::is_same_v<Cont, Set>) // takes a std::set
        if (C.flip())
          return {std::make_shared<KillMultiple<int, Cont>>(cont(V)), M, "L" + S};
      if (C.flip())
        return {T::killManyFlows(cont(V)), M, "C" + S};
      return {T::killManyFlows(V), M, S};
    }
    case 7: {
      auto M = [](int) { return Set{}; };
      if constexpr (std::is_same_v<Cont, Set>) // others do not compile
        if (C.flip())
          return {KillAll<int, Cont>::getInstance(), M, "LkillAll"};
      return {T::killAllFlows(), M, "killAll"};
    }
    case 8: {
      int V = fact(), W = fact();
      auto M = [=](int X) { return X == W ? Set{V, W} : Set{}; };
      auto S = pbt::strf("genKO(%d,%d)", V, W);
      if (C.flip())
        return {std::make_shared<GenAndKillAllOthers<int, Cont>>(V, W), M,
                "L" + S};
      return {T::generateFlowAndKillAllOthers(V, W), M, S};
    }
    case 9: {
      auto V = facts();
      int W = fact();
      auto M = [=](int X) {
        Set R;
        if (X == W) {
          R.insert(X);
          R.insert(V.begin(), V.end());
        }
        return R;
      };
      auto S = "genManyKO(" + show(V) + pbt::strf(",%d)", W);
      if (C.flip())
        return {std::make_shared<GenAllAndKillAllOthers<int, Cont>>(cont(V), W),
                M, "L" + S};
      return {T::generateManyFlowsAndKillAllOthers(V, W), M, S};
    }
    case 10:
    case 11: {
      int V = fact(), W = fact();
      if (V == W) // transferring a fact to itself keeps it
        return {T::transferFlow(V, W), [](int X) { return Set{X}; },
                pbt::strf("transfer(%d,%d)", V, W)};
      auto M = [=](int X) {
        return X == W ? Set{V, W} : X == V ? Set{} : Set{X};
      };
      auto S = pbt::strf("transfer(%d,%d)", V, W);
      if (C.flip())
        return {std::make_shared<Transfer<int, Cont>>(V, W), M, "L" + S};
      return {T::transferFlow(V, W), M, S};
    }
    case 12: {
      std::vector<std::vector<int>> Tab;
      std::string S = "lambda(";
      for (int I = 0; I < NF; ++I) {
        Tab.push_back(facts());
        S += show(Tab.back());
      }
      auto M = [=](int X) { return Set(Tab[X].begin(), Tab[X].end()); };
      auto Fn = [=](int X) { return cont(Tab[X]); };
      if (C.flip())
        return {std::make_shared<LambdaFlow<int, decltype(Fn), Cont>>(Fn), M,
                "L" + S + ")"};
      return {T::lambdaFlow(Fn), M, S + ")"};
    }
    case 20: {
      Term A = gen(Depth - 1), B = gen(Depth - 1);
      T X;
      return {X.template unionFlows<FF, FF>(A.F, B.F),
              [MA = A.M, MB = B.M](int X) {
                Set R = MA(X);
                R.merge(MB(X));
                return R;
              },
              "(" + A.S + " u " + B.S + ")"};
    }
    case 21: {
      std::vector<Ptr> Fs;
      std::vector<Model> Ms;
      std::string S = "Union(";
      for (size_t N = C.draw(4); N; --N) {
        Term A = gen(Depth - 1);
        Fs.push_back(A.F);
        Ms.push_back(A.M);
        S += A.S + ";";
      }
      return {std::make_shared<Union<int, Cont>>(Fs),
              [Ms](int X) {
                if (Ms.empty())
                  return Set{X};
                Set R;
                for (auto &M : Ms)
                  R.merge(M(X));
                return R;
              },
              S + ")"};
    }
    case 22: {
      std::vector<Ptr> Fs;
      std::vector<Model> Ms;
      std::string S = "Compose(";
      for (size_t N = C.draw(4); N; --N) {
        if (C.chance(1, 4)) {
          Fs.push_back(Identity<int, Cont>::getInstance());
          Ms.push_back([](int X) { return Set{X}; });
          S += "I;";
          continue;
        }
        Term A = gen(Depth - 1);
        Fs.push_back(A.F);
        Ms.push_back(A.M);
        S += A.S + ";";
      }
      auto M = [Ms](int X) {
        Set R{X};
        for (auto &M : Ms) {
          Set N;
          for (int Y : R)
            N.merge(M(Y));
          R = N;
        }
        return R;
      };
      if (C.flip())
        return {Compose<int, Cont>::compose(Fs), M, S + ")"};
      return {std::make_shared<Compose<int, Cont>>(Fs), M, "new " + S + ")"};
    }
    case 23: {
      Term A = gen(Depth - 1);
      return {std::make_shared<ZeroedFlowFunction<int, Cont>>(A.F, 0),
              [MA = A.M](int X) {
                Set R = MA(X);
                if (X == 0)
                  R.insert(0);
                return R;
              },
              "zeroed(" + A.S + ")"};
    }
    }
  }

  void run() {
    Term A = gen(3);
    C.describe(A.S);
    bool NonId = false;
    for (unsigned K = 0; K < 2 * NF; ++K) {
      int X = K < NF ? (int)K : fact(); // again: functions have no state
      Set Got = toSet(A.F->computeTargets(X)), Want = A.M(X);
      NonId |= Want != Set{X};
      PBT_CHECK(C, Got == Want,
                pbt::strf("f(%d) = ", X) +
                    show(std::vector<int>(Got.begin(), Got.end())) +
                    ", expected " +
                    show(std::vector<int>(Want.begin(), Want.end())));
    }
    C.nontrivial(NonId);
  }
};

void templates(pbt::Ctx &C) {
  switch (C.draw(3)) {
  case 0:
    return Terms<std::set<int>>{C}.run();
  case 1:
    return Terms<std::unordered_set<int>>{C}.run();
  default:
    return Terms<std::set<int, std::greater<int>>>{C}.run();
  }
}

// ------------------------------------------------------------ call mapping
using VSet = std::set<const llvm::Value *>;

std::string name(const llvm::Value *V) {
  if (V == LLVMZeroValue::getInstance())
    return "zero";
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (auto *A = llvm::dyn_cast<llvm::Argument>(V))
    OS << A->getParent()->getName() << ".";
  V->printAsOperand(OS, true);
  return OS.str();
}
std::string show(const VSet &S) {
  std::string R = "{";
  for (auto *V : S)
    R += name(V) + " ";
  return R + "}";
}

const char *const Consts[] = {"ptr @g0", "ptr @g1", "i32 0", "i32 7", "i32 undef",
                              "ptr null",
                              "ptr getelementptr (i32, ptr @g0, i64 1)"};

struct Mod {
  llvm::LLVMContext Ctx;
  std::unique_ptr<llvm::Module> M;
  std::vector<std::pair<llvm::CallBase *, llvm::Function *>> Calls;
  VSet Facts;
};

void build(pbt::Ctx &C, Mod &R) {
  std::string T = "%struct.__va_list_tag = type { i32, i32, ptr, ptr }\n"
                  "%struct.S = type { i32, ptr, i64 }\n"
                  "@g0 = global [4 x i32] zeroinitializer\n"
                  "@g1 = global i32 3\n"
                  "declare i32 @__gxx_personality_v0(...)\n";
  // several callees with one signature each, so that one call may have any of
  // them as target
  struct Sig {
    std::vector<bool> Ptr;
    bool SRet, VarArg, Ret;
  };
  std::vector<Sig> Sigs;
  size_t NF = 1 + C.draw(3);
  for (size_t F = 0; F < NF; ++F) {
    Sig S;
    S.SRet = C.chance(1, 4);
    S.VarArg = C.chance(1, 3);
    S.Ret = !S.SRet && C.flip();
    if (S.SRet)
      S.Ptr.push_back(true);
    for (size_t N = C.draw(4); N; --N)
      S.Ptr.push_back(C.flip());
    Sigs.push_back(S);
    bool Decl = C.chance(1, 6);
    T += Decl ? "declare " : "define ";
    T += S.Ret ? "i32" : "void";
    T += pbt::strf(" @f%zu(", F);
    for (size_t I = 0; I < S.Ptr.size(); ++I) {
      if (I)
        T += ", ";
      T += S.Ptr[I] ? "ptr" : "i32";
      if (!I && S.SRet)
        T += " sret(%struct.S)";
      if (!Decl)
        T += pbt::strf(" %%p%zu", I);
    }
    if (S.VarArg)
      T += S.Ptr.empty() ? "..." : ", ...";
    T += ")";
    if (Decl) {
      T += "\n";
      continue;
    }
    T += " {\nentry:\n  %l = alloca i32\n  %lt = alloca [3 x i32]\n";
    for (size_t N = C.draw(S.VarArg ? 3 : 2); N; --N)
      T += pbt::strf("  %%va%zu = alloca [1 x %%struct.__va_list_tag]\n", N);
    T += "  %x = load i32, ptr %l\n";
    size_t NR = 1 + C.draw(2);
    if (NR == 2)
      T += "  %c = icmp eq i32 %x, 0\n  br i1 %c, label %r0, label %r1\n";
    else
      T += "  br label %r0\n";
    for (size_t K = 0; K < NR; ++K) {
      T += pbt::strf("r%zu:\n", K);
      if (!S.Ret) {
        T += C.chance(1, 4) ? "  unreachable\n" : "  ret void\n";
        continue;
      }
      std::string V = "%x";
      for (size_t I = 0; I < S.Ptr.size(); ++I)
        if (!S.Ptr[I] && C.flip())
          V = pbt::strf("%%p%zu", I);
      if (C.chance(1, 5))
        V = "7";
      T += "  ret i32 " + V + "\n";
    }
    T += "}\n";
  }
  T += "define i32 @main(i32 %a, ptr %b, ptr %fp) personality ptr "
       "@__gxx_personality_v0 {\nentry:\n  %s = alloca %struct.S\n  %v = alloca "
       "i32\n  %w = alloca ptr\n  %i = load i32, ptr %v\n  %j = add i32 %i, 1\n";
  size_t NC = 1 + C.draw(3);
  for (size_t K = 0; K < NC; ++K) {
    size_t F = C.draw(NF);
    const Sig &S = Sigs[F];
    std::string Ty = S.Ret ? "i32" : "void", Args, PT;
    size_t Extra = S.VarArg ? C.draw(4) : 0;
    for (size_t I = 0; I < S.Ptr.size() + Extra; ++I) {
      bool P = I < S.Ptr.size() ? S.Ptr[I] : C.flip();
      if (I)
        Args += ", ";
      if (I < S.Ptr.size())
        PT += std::string(I ? ", " : "") + (P ? "ptr" : "i32");
      if (!I && S.SRet) {
        Args += "ptr sret(%struct.S) %s";
        continue;
      }
      static const char *const Ps[] = {"%v", "%w", "%s", "%b", "@g0", "@g1", "null",
                                       "getelementptr (i32, ptr @g0, i64 1)"};
      static const char *const Is[] = {"%i", "%j", "%a", "0", "7", "undef"};
      if (P)
        Args += std::string("ptr ") + Ps[C.draw(8)];
      else
        Args += std::string("i32 ") + Is[C.draw(6)];
    }
    if (S.VarArg)
      PT += PT.empty() ? "..." : ", ...";
    std::string Callee = C.flip() ? pbt::strf("@f%zu", F) : "%fp";
    std::string Lhs = S.Ret ? pbt::strf("%%r%zu = ", K) : "";
    if (C.chance(1, 4))
      T += "  " + Lhs + "invoke " + Ty + " (" + PT + ") " + Callee + "(" + Args +
           pbt::strf(") to label %%n%zu unwind label %%lp%zu\nlp%zu:\n  %%l%zu = "
                     "landingpad { ptr, i32 } cleanup\n  unreachable\nn%zu:\n",
                     K, K, K, K, K);
    else
      T += "  " + Lhs + "call " + Ty + " (" + PT + ") " + Callee + "(" + Args + ")\n";
  }
  T += "  ret i32 %i\n}\n";
  C.describe(T);
  R.Ctx.enableOpaquePointers();
  llvm::SMDiagnostic D;
  R.M = llvm::parseAssemblyString(T, D, R.Ctx);
  if (!R.M || llvm::verifyModule(*R.M))
    C.fail("generator: " + D.getMessage().str());
  for (auto &G : R.M->globals())
    R.Facts.insert(&G);
  for (auto &F : *R.M) {
    R.Facts.insert(&F);
    for (auto &A : F.args())
      R.Facts.insert(&A);
    for (auto &I : llvm::instructions(F)) {
      R.Facts.insert(&I);
      for (auto &O : I.operands())
        if (llvm::isa<llvm::Constant>(O))
          R.Facts.insert(O);
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I))
        for (auto &G : *R.M)
          if (G.getFunctionType() == CB->getFunctionType() &&
              G.getName() != "main")
            R.Calls.push_back({CB, &G});
    }
  }
  R.Facts.insert(LLVMZeroValue::getInstance());
}

bool isVaList(const llvm::Instruction &I) {
  auto *A = llvm::dyn_cast<llvm::AllocaInst>(&I);
  return A && A->getAllocatedType()->isArrayTy() &&
         A->getAllocatedType()->getArrayElementType()->isStructTy();
}

using Pred2 = std::function<bool(const llvm::Value *, const llvm::Value *)>;

void mapping(pbt::Ctx &C) {
  Mod X;
  build(C, X);
  if (X.Calls.empty())
    C.discard();
  const auto &Pair = X.Calls[C.draw(X.Calls.size())];
  llvm::CallBase *CS = Pair.first;
  llvm::Function *F = Pair.second;
  const llvm::Value *Zero = LLVMZeroValue::getInstance();
  bool Globals = !C.chance(1, 3), PropZero = !C.chance(1, 3);
  unsigned Kind = (unsigned)C.draw(3);
  unsigned Salt = (unsigned)C.draw(64);
  std::vector<const llvm::Value *> Order; // stable numbering for predicates
  std::map<const llvm::Value *, unsigned> Num;
  for (auto &FF : *X.M) {
    Num.emplace(&FF, Num.size());
    for (auto &A : FF.args())
      Num.emplace(&A, Num.size());
    for (auto &I : llvm::instructions(FF)) {
      Num.emplace(&I, Num.size());
      for (auto &O : I.operands())
        Num.emplace(O, Num.size());
    }
  }
  for (auto &G : X.M->globals())
    Num.emplace(&G, Num.size());
  Num.emplace(Zero, Num.size());
  auto Bit = [&](const llvm::Value *V) {
    return ((Num.at(V) + Salt) * 2654435761U >> 7 & 1) != 0;
  };
  Pred2 P;
  switch (Kind) {
  case 0:
    P = [](auto *A, auto *B) { return A == B; };
    break;
  case 1:
    P = [&](auto *A, auto *B) { return A == B && Bit(A); };
    break;
  default:
    P = [&](auto *A, auto *B) {
      return A == B || ((Num.at(A) * 7 + Num.at(B) * 3 + Salt) % 5) == 0;
    };
  }
  bool Default = Kind == 0 && C.flip();
  auto T = pbt::strf("call %s -> %s globals=%d zero=%d pred=%u%s",
                     CS->hasName() ? CS->getName().str().c_str() : "(void)", F->getName().str().c_str(), Globals,
                     PropZero, Kind, Default ? "(default)" : "");
  C.describe(T);

  auto Cmp = [&](const char *What, FlowFunction<const llvm::Value *> &FF,
                 auto &&Want) {
    for (int Rep = 0; Rep < 2; ++Rep)
      for (auto *V : X.Facts) {
        VSet G = FF.computeTargets(V), W = Want(V);
        PBT_CHECK(C, G == W,
                  std::string(What) + "(" + name(V) + ") = " + show(G) +
                      ", expected " + show(W));
      }
  };
  auto IsGlob = [&](const llvm::Value *V) {
    return V != Zero && llvm::isa<llvm::Constant>(V);
  };
  C.nontrivial(CS->arg_size() > 0);
  if (F->isVarArg())
    C.label("variadic");
  if (F->hasStructRetAttr())
    C.label("sret");
  switch (C.draw(3)) {
  case 0: { // call
    C.label("call");
    FlowFunctionPtrType<const llvm::Value *> FF;
    if (Default && Globals && PropZero)
      FF = mapFactsToCallee(CS, F);
    else
      FF = mapFactsToCallee(CS, F, Pred2(P), DefaultConstruct<const llvm::Value *>{},
                            Globals, PropZero);
    Cmp("mapFactsToCallee", *FF, [&](const llvm::Value *V) {
      VSet R;
      if (F->isDeclaration())
        return R;
      if ((V == Zero && PropZero) || (IsGlob(V) && Globals))
        R.insert(V);
      for (unsigned I = 0; I < CS->arg_size(); ++I) {
        if (!P(CS->getArgOperand(I), V))
          continue;
        if (I < F->arg_size()) {
          if (!(I == 0 && F->hasStructRetAttr())) // write-only
            R.insert(F->getArg(I));
        } else {
          for (auto &II : llvm::instructions(F))
            if (isVaList(II))
              R.insert(&II);
        }
      }
      return R;
    });
    return;
  }
  case 1: { // return
    C.label("return");
    std::vector<llvm::Instruction *> Exits;
    for (auto &I : llvm::instructions(F))
      if (llvm::isa<llvm::ReturnInst>(I) || llvm::isa<llvm::UnreachableInst>(I))
        Exits.push_back(&I);
    if (Exits.empty())
      C.discard();
    auto *E = Exits[C.draw(Exits.size())];
    unsigned RK = (unsigned)C.draw(2);
    Pred2 PR = P;
    if (RK)
      PR = [&](auto *A, auto *B) { return A == B || Bit(B); };
    bool Post = C.chance(1, 4);
    FlowFunctionPtrType<const llvm::Value *> FF;
    if (Default && Globals && PropZero && !Post && !RK)
      FF = mapFactsToCaller(CS, E);
    else
      FF = mapFactsToCaller(
          CS, E, Pred2(P), Pred2(PR), DefaultConstruct<const llvm::Value *>{},
          Globals, PropZero, [Post, CS](VSet &S) {
            if (Post)
              S.erase(CS);
          });
    Cmp("mapFactsToCaller", *FF, [&](const llvm::Value *V) {
      VSet R;
      if ((V == Zero && PropZero) || (IsGlob(V) && Globals))
        R.insert(V);
      for (unsigned I = 0; I < F->arg_size(); ++I)
        if (P(F->getArg(I), V))
          R.insert(CS->getArgOperand(I));
      for (auto &II : llvm::instructions(F))
        if (isVaList(II) && P(&II, V))
          for (unsigned I = F->arg_size(); I < CS->arg_size(); ++I)
            R.insert(CS->getArgOperand(I));
      if (auto *Ret = llvm::dyn_cast<llvm::ReturnInst>(E))
        if (auto *RV = Ret->getReturnValue())
          if (PR(RV, V))
            R.insert(CS);
      if (Post)
        R.erase(CS);
      return R;
    });
    return;
  }
  default: { // call-to-return
    C.label("call-to-return");
    unsigned AK = (unsigned)C.draw(3);
    auto PA = [&](const llvm::Value *V) {
      return AK == 0 || (AK == 1 && V->getType()->isPointerTy()) ||
             (AK == 2 && Bit(V));
    };
    auto FF = [&]() -> FlowFunctionPtrType<const llvm::Value *> {
      if (AK == 0 && Globals && C.flip())
        return mapFactsAlongsideCallSite<>(CS);
      return mapFactsAlongsideCallSite<const llvm::Value *>(
          CS, std::function<bool(const llvm::Value *)>(PA), Globals);
    }();
    Cmp("mapFactsAlongsideCallSite", *FF, [&](const llvm::Value *V) {
      if (V == Zero)
        return VSet{V};
      if (IsGlob(V))
        return Globals ? VSet{V} : VSet{};
      for (auto &A : CS->args())
        if (A.get() == V)
          return PA(V) ? VSet{V} : VSet{};
      return VSet{V};
    });
  }
  }
}

// ------------------------------------------------------------ strong updates
void stores(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  bool Opaque = C.flip();
  std::string T;
  if (Opaque) {
    Ctx.enableOpaquePointers();
    T = "@g = global [4 x i32] zeroinitializer\n"
        "define void @f(i32 %a, ptr %p, i64 %n) {\nentry:\n  %x = alloca i32\n"
        "  %y = alloca [4 x i32]\n  %z = getelementptr [4 x i32], ptr %y, i64 0, "
        "i64 0\n  %w = getelementptr i32, ptr %p, i64 %n\n  %v = getelementptr "
        "[4 x i32], ptr %y, i64 0, i64 1\n  %l = load i32, ptr %x\n";
  } else {
    T = "@g = global [4 x i32] zeroinitializer\n"
        "define void @f(i32 %a, i32* %p, i64 %n) {\nentry:\n  %x = alloca i32\n"
        "  %y = alloca [4 x i32]\n  %z = getelementptr [4 x i32], [4 x i32]* %y, "
        "i64 0, i64 0\n  %w = getelementptr i32, i32* %p, i64 %n\n  %v = "
        "getelementptr [4 x i32], [4 x i32]* %y, i64 0, i64 1\n  %c = bitcast "
        "[4 x i32]* %y to i32*\n  %l = load i32, i32* %x\n";
  }
  std::vector<std::string> Ptrs = {"%x", "%p", "%z", "%w", "%v"};
  if (!Opaque) {
    Ptrs.push_back("%c");
    Ptrs.push_back("bitcast ([4 x i32]* @g to i32*)");
  } else {
    Ptrs.push_back("@g");
    Ptrs.push_back("%y");
  }
  static const char *const Vals[] = {"%a", "%l", "3"};
  T += "  store i32 " + std::string(Vals[C.draw(3)]) + ", " +
       (Opaque ? "ptr " : "i32* ") + Ptrs[C.draw(Ptrs.size())] +
       "\n  ret void\n}\n";
  C.describe(T);
  llvm::SMDiagnostic D;
  auto M = llvm::parseAssemblyString(T, D, Ctx);
  if (!M)
    C.fail("generator: " + D.getMessage().str());
  const llvm::StoreInst *St = nullptr;
  VSet Facts{LLVMZeroValue::getInstance()};
  std::vector<const llvm::Value *> Ord;
  auto &F = *M->getFunction("f");
  for (auto &A : F.args())
    Ord.push_back(&A);
  for (auto &I : llvm::instructions(F)) {
    Ord.push_back(&I);
    for (auto &O : I.operands())
      if (!llvm::isa<llvm::BasicBlock>(O))
        Ord.push_back(O);
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(&I))
      St = S;
  }
  Ord.push_back(M->getNamedGlobal("g"));
  Facts.insert(Ord.begin(), Ord.end());
  auto *To = St->getPointerOperand();
  auto *Base = To->stripPointerCasts();
  bool WithPred = C.flip();
  unsigned Mask = (unsigned)C.draw(1 << 16);
  auto P = [&](const llvm::Value *V) {
    if (!WithPred)
      return V == St->getValueOperand();
    auto It = std::find(Ord.begin(), Ord.end(), V);
    return It != Ord.end() && (Mask >> ((It - Ord.begin()) % 16) & 1);
  };
  auto FF = WithPred
                ? strongUpdateStore(St, std::function<bool(const llvm::Value *)>(P))
                : strongUpdateStore(St);
  C.nontrivial();
  if (Base != To)
    C.label("cast pointer");
  for (auto *V : Facts) {
    VSet G = FF->computeTargets(V), W;
    if (V != To && V != Base) {
      W = {V};
      if (P(V))
        W.insert({To, Base});
    }
    PBT_CHECK(C, G == W,
              "strongUpdateStore(" + name(V) + ") = " + show(G) + ", expected " +
                  show(W));
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P25";
  P.Subs = {
      {"templates",
       "random terms (depth up to 4) over all flow-function templates and the "
       "legacy classes, three container types; applied twice to all facts and "
       "compared with the set function of the documentation. Non-trivial: the "
       "function is not the identity",
       templates, 60000},
      {"mapping",
       "random modules with by-value, by-reference, sret, variadic and indirect "
       "calls; the three call mappers with random predicates and flags on every "
       "value of the module. Non-trivial: the call has arguments",
       mapping, 25000},
      {"stores",
       "a random store through plain and cast pointers; strongUpdateStore on "
       "every value. All non-trivial",
       stores, 4000}};
  return pbt::run(argc, argv, P);
}
