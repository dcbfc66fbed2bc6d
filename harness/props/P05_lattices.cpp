// BUILD:
// P05: the value domains the shipped analyses compute with are lattices, and
// their edge functions are functions over them.
#include "pbt.h"

#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Domain/LatticeDomain.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/ComposeEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/GenEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/KillIfSanitizedEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Utils/BasicBlockOrdering.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/SourceMgr.h"

#include <functional>
#include <set>

using namespace psr;
using llvm::Instruction;

namespace {

// ------------------------------------------------------------------ domains

template <typename L, typename JoinT>
void laws(pbt::Ctx &C, const char *Name, const L &A, const L &B, const L &D,
          const L &Top, const L &Bot, JoinT Join, bool Assoc = true) {
  auto In = [&](const char *Law) {
    return pbt::strf("%s: %s does not hold", Name, Law);
  };
  PBT_CHECK(C, Join(A, A) == A, In("join(a, a) == a"));
  PBT_CHECK(C, Join(A, B) == Join(B, A), In("join(a, b) == join(b, a)"));
  PBT_CHECK(C, Join(A, Top) == A, In("join(a, top) == a"));
  PBT_CHECK(C, Join(Top, A) == A, In("join(top, a) == a"));
  PBT_CHECK(C, Join(A, Bot) == Bot, In("join(a, bottom) == bottom"));
  PBT_CHECK(C, Join(Bot, A) == Bot, In("join(bottom, a) == bottom"));
  if (Assoc) {
    PBT_CHECK(C, Join(A, Join(B, D)) == Join(Join(A, B), D),
              In("join(a, join(b, c)) == join(join(a, b), c)"));
    PBT_CHECK(C, Join(Join(A, B), A) == Join(A, B),
              In("join(join(a, b), a) == join(a, b)"));
  }
}

template <typename L>
void traitsLaws(pbt::Ctx &C, const char *Name, const L &A, const L &B,
                const L &D) {
  using T = JoinLatticeTraits<L>;
  laws<L>(C, Name, A, B, D, L(T::top()), L(T::bottom()),
          [](const L &X, const L &Y) { return L(T::join(X, Y)); });
}

struct IntSet {
  std::set<int> S;
  friend bool operator==(const IntSet &A, const IntSet &B) { return A.S == B.S; }
  friend bool operator<(const IntSet &A, const IntSet &B) { return A.S < B.S; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const IntSet &A) {
    OS << '{';
    for (int I : A.S)
      OS << I << ' ';
    return OS << '}';
  }
};

template <typename V, typename GenT>
void latticeDomain(pbt::Ctx &C, const char *Name, GenT Gen) {
  using L = LatticeDomain<V>;
  auto One = [&]() -> L {
    switch (C.weighted({1, 5, 1})) {
    case 0:
      return Top{};
    case 1:
      return Gen();
    default:
      return Bottom{};
    }
  };
  L A = One(), B = C.chance(1, 4) ? A : One(), D = One();
  std::string S;
  llvm::raw_string_ostream OS(S);
  OS << Name << " a=" << A << " b=" << B << " c=" << D;
  C.describe(OS.str());
  C.nontrivial(A.getValueOrNull() && B.getValueOrNull() && D.getValueOrNull());
  traitsLaws<L>(C, Name, A, B, D);
  // comparison
  bool Eq = A.index() == B.index() &&
            (!A.getValueOrNull() || *A.getValueOrNull() == *B.getValueOrNull());
  PBT_CHECK(C, (A == B) == Eq && (A != B) == !Eq, "== is wrong");
  PBT_CHECK(C, !(A < A) && !(A < B && B < A), "< is not a strict order");
  PBT_CHECK(C, (!(A < B) && !(B < A)) == Eq, "< disagrees with ==");
  PBT_CHECK(C, !(A < B && B < D) || A < D, "< is not transitive");
  PBT_CHECK(C, (A == Top{}) == A.isTop() && (A == Bottom{}) == A.isBottom() &&
                   (A != Top{}) == !A.isTop() && (Bottom{} != A) == !A.isBottom(),
            "comparison with the extreme elements is wrong");
  if (auto *P = A.getValueOrNull()) {
    PBT_CHECK(C, *P == A && A == *P && !(A != *P), "comparison with a value");
    PBT_CHECK(C, (B == *P) == (A == B) && (*P == B) == (A == B),
              "comparison with a value");
    PBT_CHECK(C, L(NonTopBotValue<L>::unwrap(A)) == A, "unwrap");
  }
  if constexpr (is_llvm_hashable_v<V>) {
    PBT_CHECK(C, !Eq || hash_value(A) == hash_value(B),
              "equal values with unequal hashes");
  }
}

void domains(pbt::Ctx &C) {
  switch (C.range(0, 5)) {
  case 0:
    return latticeDomain<int64_t>(C, "LatticeDomain<int64_t>",
                                  [&] { return int64_t(C.interesting64()); });
  case 1:
    return latticeDomain<int>(C, "LatticeDomain<int>",
                              [&] { return int(C.range(0, 3)); });
  case 2:
    return latticeDomain<IntSet>(C, "LatticeDomain<set>", [&] {
      IntSet S;
      while (C.flip())
        S.S.insert(int(C.range(0, 4)));
      return S;
    });
  case 3: {
    auto G = [&] { return C.flip() ? BinaryDomain::TOP : BinaryDomain::BOTTOM; };
    auto A = G(), B = G(), D = G();
    C.describe(pbt::strf("BinaryDomain %d %d %d", int(A), int(B), int(D)));
    C.nontrivial(A != B);
    return traitsLaws<BinaryDomain>(C, "BinaryDomain", A, B, D);
  }
  case 4: {
    auto G = [&] { return SecureHeapValue(C.range(0, 2)); };
    auto A = G(), B = G(), D = G();
    C.describe(pbt::strf("SecureHeapValue %d %d %d", int(A), int(B), int(D)));
    C.nontrivial(A != B);
    return traitsLaws<SecureHeapValue>(C, "SecureHeapValue", A, B, D);
  }
  default: {
    static const std::vector<CSTDFILEIOState> All = {
        CSTDFILEIOState::TOP,    CSTDFILEIOState::BOT,
        CSTDFILEIOState::UNINIT, CSTDFILEIOState::OPENED,
        CSTDFILEIOState::CLOSED, CSTDFILEIOState::ERROR};
    auto A = C.pick(All), B = C.pick(All), D = C.pick(All);
    C.describe(pbt::strf("CSTDFILEIOState %d %d %d", int(A), int(B), int(D)));
    C.nontrivial(A != CSTDFILEIOState::TOP && B != CSTDFILEIOState::TOP);
    return traitsLaws<CSTDFILEIOState>(C, "CSTDFILEIOState", A, B, D);
  }
  }
}

// --------------------------------------------------------------- control flow

struct Cfg {
  llvm::LLVMContext Ctx;
  std::unique_ptr<llvm::Module> M;
  llvm::Function *F = nullptr, *G = nullptr;
  std::vector<const Instruction *> Insts; // of both functions
  std::string Text;

  explicit Cfg(pbt::Ctx &C) {
    auto Fun = [&](const char *Name, unsigned N) {
      std::string S = std::string("define void @") + Name + "(i32 %a) {\nentry:\n";
      unsigned V = 0;
      auto Body = [&] {
        for (unsigned K = unsigned(C.range(0, 2)); K; --K)
          S += "  %v" + std::to_string(V++) + " = add i32 %a, 1\n";
      };
      Body();
      S += "  br label %b0\n";
      auto Tgt = [&] { return "label %b" + std::to_string(C.range(0, N - 1)); };
      for (unsigned I = 0; I < N; ++I) {
        S += "b" + std::to_string(I) + ":\n";
        Body();
        switch (C.weighted({2, 3, 5, 2})) {
        case 0:
          S += "  ret void\n";
          break;
        case 1:
          S += "  br " + Tgt() + "\n";
          break;
        case 2:
          S += "  br i1 undef, " + Tgt() + ", " + Tgt() + "\n";
          break;
        default:
          S += "  switch i32 %a, " + Tgt() + " [i32 1, " + Tgt() + " i32 2, " +
               Tgt() + "]\n";
          for (auto P = S.rfind('['); P != std::string::npos;) {
            auto Q = S.find(" i32 2", P);
            S.replace(Q, 6, "\n i32 2");
            break;
          }
        }
      }
      return S + "}\n";
    };
    Text = Fun("f", unsigned(C.range(1, 6))) + Fun("g", 1);
    llvm::SMDiagnostic D;
    M = llvm::parseAssemblyString(Text, D, Ctx);
    if (!M)
      C.fail("harness: " + D.getMessage().str() + "\n" + Text);
    F = M->getFunction("f");
    G = M->getFunction("g");
    // code that is never reached is not analysed
    for (auto *Fn : {F, G}) {
      std::vector<const llvm::BasicBlock *> Work{&Fn->getEntryBlock()};
      std::set<const llvm::BasicBlock *> Seen{Work[0]};
      while (!Work.empty()) {
        auto *BB = Work.back();
        Work.pop_back();
        for (auto &I : *BB)
          Insts.push_back(&I);
        for (auto *S : llvm::successors(BB))
          if (Seen.insert(S).second)
            Work.push_back(S);
      }
    }
  }
  const Instruction *inst(pbt::Ctx &C) {
    // prefer the beginning of blocks: this is where joins end up
    auto *I = C.pick(Insts);
    return C.chance(1, 3) ? &I->getParent()->front() : I;
  }
};

std::string str(const Instruction *I) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (!I)
    return "null";
  OS << *I << " in " << I->getFunction()->getName() << ":"
     << I->getParent()->getName();
  return OS.str();
}
std::string str(const XTaint::EdgeDomain &E) {
  switch (E.getKind()) {
  case XTaint::EdgeDomain::Bot:
    return "Bottom";
  case XTaint::EdgeDomain::Top:
    return "Top";
  case XTaint::EdgeDomain::Sanitized:
    return "Sanitized";
  default:
    return E.getSanitizer() ? "With[" + str(E.getSanitizer()) + "]"
                            : "NotSanitized";
  }
}
int rank(const XTaint::EdgeDomain &E) {
  if (E.isBottom())
    return 0;
  if (E.isNotSanitized())
    return 1;
  if (E.hasSanitizer())
    return 2;
  return E.isSanitized() ? 3 : 4;
}
XTaint::EdgeDomain edgeVal(pbt::Ctx &C, Cfg &G) {
  switch (C.weighted({8, 2, 2, 1, 1})) {
  case 0:
    return G.inst(C);
  case 1:
    return nullptr;
  case 2:
    return XTaint::Sanitized{};
  case 3:
    return Top{};
  default:
    return Bottom{};
  }
}

// every path from the entry to R passes L before
bool before(const Instruction *L, const Instruction *R) {
  if (L == R || L->getFunction() != R->getFunction())
    return false;
  if (L->getParent() == R->getParent())
    return L->comesBefore(R);
  // can R's block be reached without entering L's?
  std::set<const llvm::BasicBlock *> Seen;
  std::vector<const llvm::BasicBlock *> Work;
  auto Push = [&](const llvm::BasicBlock *BB) {
    if (BB != L->getParent() && Seen.insert(BB).second)
      Work.push_back(BB);
  };
  Push(&L->getFunction()->getEntryBlock());
  while (!Work.empty()) {
    auto *BB = Work.back();
    Work.pop_back();
    for (auto *S : llvm::successors(BB))
      Push(S);
  }
  return !Seen.count(R->getParent());
}

void edgeDomain(pbt::Ctx &C) {
  Cfg G(C);
  BasicBlockOrdering BBO{DefaultDominatorTreeAnalysis{}};
  for (unsigned K = 0; K < 6; ++K) {
    auto A = edgeVal(C, G), B = edgeVal(C, G);
    auto *P = C.flip() ? &BBO : nullptr;
    C.describe(G.Text + "a = " + str(A) + "\nb = " + str(B) +
               (P ? "\nwith order\n" : "\n"));
    C.nontrivial(A.hasSanitizer() && B.hasSanitizer() && A != B);
    auto AB = A.join(B, P), BA = B.join(A, P);
    PBT_CHECK(C, AB == BA, "join(a, b) = " + str(AB) + ", join(b, a) = " +
                               str(BA));
    PBT_CHECK(C, A.join(A, P) == A, "not idempotent");
    PBT_CHECK(C, A.join(Top{}, P) == A, "top is not neutral");
    PBT_CHECK(C, A.join(Bottom{}, P).isBottom(), "bottom does not absorb");
    PBT_CHECK(C, rank(AB) <= std::min(rank(A), rank(B)),
              "join(a, b) = " + str(AB) + " claims more than an operand");
    PBT_CHECK(C, JoinLatticeTraits<XTaint::EdgeDomain>::join(A, B) == A.join(B),
              "traits");
    PBT_CHECK(C, !(A < A) && (A < B || B < A) == (A != B) && !(A < B && B < A),
              "< is no strict order consistent with ==");
    // a joined sanitizer has been passed, or is passed next, by both sides
    if (AB.hasSanitizer() && A.hasSanitizer() && B.hasSanitizer()) {
      auto *S = AB.getSanitizer();
      auto Reaches = [&](const Instruction *X) {
        if (X == S)
          return true;
        for (auto *Succ : llvm::successors(X->getParent()))
          if (&Succ->front() == S)
            return true;
        return P && BBO.mustComeBefore(S, X);
      };
      PBT_CHECK(C, Reaches(A.getSanitizer()) && Reaches(B.getSanitizer()),
                "join(a, b) = " + str(AB) + " is not related to an operand");
    }
    // joining the same values again and again reaches a fixed point
    auto D = edgeVal(C, G);
    XTaint::EdgeDomain Acc = Top{};
    unsigned Changes = 0;
    for (unsigned R = 0; R < 40; ++R)
      for (auto &E : {A, B, D}) {
        auto N = Acc.join(E, P);
        Changes += N != Acc;
        Acc = N;
      }
    PBT_CHECK(C, Changes < 40, "joins of a, b, " + str(D) + " do not end");
    auto *X = G.inst(C), *Y = G.inst(C);
    if (BBO.mustComeBefore(X, Y) != before(X, Y))
      C.fail("mustComeBefore(" + str(X) + ", " + str(Y) + ") is " +
             (before(X, Y) ? "false" : "true"));
  }
}

// ---------------------------------------------------- edge functions of XTaint

void xtaint(pbt::Ctx &C) {
  using namespace XTaint;
  using EF = EdgeFunction<EdgeDomain>;
  Cfg G(C);
  BasicBlockOrdering BBO{DefaultDominatorTreeAnalysis{}};
  std::vector<EdgeDomain> Samples{nullptr, Sanitized{}, Bottom{}};
  for (auto *I : G.Insts)
    Samples.emplace_back(I);

  struct T {
    EF F;
    std::string S;
  };
  std::vector<T> Pool;
  auto L = [&]() { return C.chance(1, 3) ? nullptr : G.inst(C); };
  for (unsigned N = unsigned(C.range(2, 5)); N; --N) {
    auto *A = L(), *B = G.inst(C);
    switch (C.range(0, 7)) {
    case 0:
      Pool.push_back({EdgeIdentity<EdgeDomain>{}, "id"});
      break;
    case 1:
      Pool.push_back({AllBottom<EdgeDomain>{}, "bottom"});
      break;
    case 2:
      Pool.push_back({AllSanitized{}, "allsanitized"});
      break;
    case 3:
      Pool.push_back({GenEdgeFunction{A}, "gen(" + str(A) + ")"});
      break;
    case 4:
    case 5:
      Pool.push_back({KillIfSanitizedEdgeFunction{{}, &BBO, A},
                      "killif(" + str(A) + ")"});
      break;
    default:
      Pool.push_back({TransferEdgeFunction{{}, &BBO, A, B},
                      "transfer(" + str(A) + " -> " + str(B) + ")"});
    }
  }
  std::string Log = G.Text;
  for (unsigned I = 0; I < Pool.size(); ++I)
    Log += "#" + std::to_string(I) + " = " + Pool[I].S + "\n";
  bool Interesting = false;
  for (unsigned K = unsigned(C.range(1, 6)); K; --K) {
    unsigned I = unsigned(C.range(0, Pool.size() - 1)),
             J = unsigned(C.range(0, Pool.size() - 1));
    auto &A = Pool[I].F, &B = Pool[J].F;
    bool Join = C.flip();
    Log += pbt::strf("#%d = %s(#%u, #%u)\n", int(Pool.size()),
                     Join ? "join" : "compose", I, J);
    C.describe(Log);
    Log.clear();
    auto R = Join ? A.joinWith(B) : A.composeWith(B);
    for (auto &X : Samples) {
      auto Got = R.computeTarget(X);
      if (Join) {
        auto U = A.computeTarget(X), V = B.computeTarget(X);
        PBT_CHECK(C, rank(Got) <= std::min(rank(U), rank(V)),
                  "joined function maps " + str(X) + " to " + str(Got) +
                      ", the operands to " + str(U) + " and " + str(V));
        PBT_CHECK(C, !(A == B) || Got == U, "join of equal functions");
        Interesting |= !(U == V);
      } else {
        auto U = A.computeTarget(X), V = B.computeTarget(U);
        // what follows a function to bottom may stay at bottom
        PBT_CHECK(C, Got == V || (U.isBottom() && Got.isBottom()),
                  "composed function maps " + str(X) + " to " + str(Got) +
                      ", the first operand to " + str(U) +
                      " and the second this to " + str(V));
        Interesting |= !(V == U) && !(U == X);
      }
    }
    Pool.push_back({R, ""});
    for (unsigned Q = 0; Q < Pool.size(); ++Q)
      for (auto &X : Samples)
        if (Pool[Q].F == R &&
            Pool[Q].F.computeTarget(X) != R.computeTarget(X))
          C.fail(pbt::strf("#%u equals the new function but maps ", Q) +
                 str(X) + " to " + str(Pool[Q].F.computeTarget(X)) +
                 " instead of " + str(R.computeTarget(X)));
    for (unsigned P = 0; P < Pool.size(); ++P)
      for (unsigned Q = 0; Q < P; ++Q)
        if (Pool[P].F == Pool[Q].F)
          for (auto &X : Samples)
            if (Pool[P].F.computeTarget(X) != Pool[Q].F.computeTarget(X))
              C.fail(pbt::strf("#%u equals #%u but they differ at ", P, Q) +
                     str(X));
  }
  C.nontrivial(Interesting);
}

// ---------------------------------------------- edge functions of type states

template <typename Desc> struct ApiOf;
template <> struct ApiOf<CSTDFILEIOTypeStateDescription> {
  static constexpr auto IR = R"(
%struct._IO_FILE = type { i32 }
declare %struct._IO_FILE* @fopen(i8*, i8*)
declare i32 @fclose(%struct._IO_FILE*)
declare i32 @fgetc(%struct._IO_FILE*)
declare i32 @fflush(%struct._IO_FILE*)
define i32 @main() {
entry:
  %p = alloca %struct._IO_FILE*
  %h = call %struct._IO_FILE* @fopen(i8* null, i8* null)
  %a = call i32 @fgetc(%struct._IO_FILE* %h)
  %b = call i32 @fflush(%struct._IO_FILE* %h)
  %c = call i32 @fclose(%struct._IO_FILE* %h)
  %d = call i32 @fclose(%struct._IO_FILE* %h)
  ret i32 0
}
)";
  static std::vector<CSTDFILEIOState> states() {
    return {CSTDFILEIOState::TOP,    CSTDFILEIOState::BOT,
            CSTDFILEIOState::UNINIT, CSTDFILEIOState::OPENED,
            CSTDFILEIOState::CLOSED, CSTDFILEIOState::ERROR};
  }
};
template <> struct ApiOf<OpenSSLEVPKDFDescription> {
  static constexpr auto IR = R"(
%struct.evp_kdf_st = type { i32 }
declare %struct.evp_kdf_st* @EVP_KDF_fetch(i8*, i8*, i8*)
declare void @EVP_KDF_free(%struct.evp_kdf_st*)
define i32 @main() {
entry:
  %p = alloca %struct.evp_kdf_st*
  %h = call %struct.evp_kdf_st* @EVP_KDF_fetch(i8* null, i8* null, i8* null)
  call void @EVP_KDF_free(%struct.evp_kdf_st* %h)
  call void @EVP_KDF_free(%struct.evp_kdf_st* %h)
  ret i32 0
}
)";
  static std::vector<OpenSSLEVPKDFState> states() {
    return {OpenSSLEVPKDFState::TOP,         OpenSSLEVPKDFState::BOT,
            OpenSSLEVPKDFState::UNINIT,      OpenSSLEVPKDFState::ERROR,
            OpenSSLEVPKDFState::KDF_FETCHED};
  }
};

template <typename Desc> void typestateFor(pbt::Ctx &C) {
  using L = typename Desc::State;
  using EF = EdgeFunction<L>;
  // the program is always the same
  struct World {
    LLVMProjectIRDB DB;
    LLVMAliasSet PT;
    Desc D;
    IDETypeStateAnalysis<Desc> Prob;
    std::vector<EF> Funs;
    World()
        : DB(llvm::MemoryBufferRef(ApiOf<Desc>::IR, "m.ll")), PT(&DB),
          Prob(&DB, &PT, &D) {
      auto *Main = DB.getFunctionDefinition("main");
      const Instruction *H = nullptr;
      auto *Z = Prob.getZeroValue();
      for (auto &I : llvm::instructions(Main)) {
        if (llvm::isa<llvm::AllocaInst>(I))
          Funs.push_back(Prob.getNormalEdgeFunction(&I, Z, I.getNextNode(), &I));
        auto *Call = llvm::dyn_cast<llvm::CallBase>(&I);
        if (!Call)
          continue;
        std::vector<const llvm::Function *> Cs{Call->getCalledFunction()};
        if (!H) {
          H = &I;
          Funs.push_back(Prob.getCallToRetEdgeFunction(&I, Z, I.getNextNode(), &I, Cs));
        } else {
          Funs.push_back(Prob.getCallToRetEdgeFunction(&I, H, I.getNextNode(), H, Cs));
        }
      }
    }
  };
  static World &W = *new World();
  auto St = ApiOf<Desc>::states();
  auto Top = W.D.top(), Bot = W.D.bottom();
  auto Show = [](L X) { return std::string(LToString(X)); };
  auto A = C.pick(St), B = C.pick(St), D = C.pick(St);
  std::string Log = "states " + Show(A) + " " + Show(B) + " " + Show(D) + "\n";
  C.describe(Log);
  Log.clear();
  laws<L>(C, "type states", A, B, D, Top, Bot,
          [&](L X, L Y) { return W.Prob.join(X, Y); });
  PBT_CHECK(C, W.Prob.topElement() == Top && W.Prob.bottomElement() == Bot,
            "extreme elements");

  std::vector<EF> Pool = W.Funs;
  Pool.push_back(EdgeIdentity<L>{});
  Pool.push_back(W.Prob.allTopFunction());
  unsigned AllTopIdx = unsigned(Pool.size() - 1);
  if constexpr (HasJoinLatticeTraits<L>)
    Pool.push_back(AllBottom<L>{});
  else
    Pool.push_back(AllBottom<L>{Bot});
  for (unsigned I = 0; I < Pool.size(); ++I)
    Log += pbt::strf("#%u = %s\n", I, to_string(Pool[I]).c_str());
  bool Interesting = false;
  for (unsigned K = unsigned(C.range(1, 5)); K; --K) {
    unsigned I = unsigned(C.range(0, Pool.size() - 1)),
             J = unsigned(C.range(0, Pool.size() - 1));
    auto &F = Pool[I], &G = Pool[J];
    bool Join = C.flip();
    Log += pbt::strf("#%d = %s(#%u, #%u)\n", int(Pool.size()),
                     Join ? "join" : "compose", I, J);
    C.describe(Log);
    Log.clear();
    auto R = Join ? F.joinWith(G) : F.composeWith(G);
    for (auto X : St) {
      if (X == Top)
        continue;
      auto Got = R.computeTarget(X), U = F.computeTarget(X);
      if (Join) {
        auto V = G.computeTarget(X), Want = W.Prob.join(U, V);
        PBT_CHECK(C, Got == Want || Got == Bot,
                  "joined function maps " + Show(X) + " to " + Show(Got) +
                      ", the operands to " + Show(U) + " and " + Show(V));
        PBT_CHECK(C, !(F == G) || Got == U, "join of equal functions");
        PBT_CHECK(C, I != AllTopIdx || Got == V, "join with all-top");
        PBT_CHECK(C, J != AllTopIdx || Got == U, "join with all-top");
        Interesting |= U != V;
      } else {
        auto V = G.computeTarget(U);
        // what follows unreachable code is unreachable
        if (U == Top)
          continue;
        PBT_CHECK(C, Got == V || (U == Bot && Got == Bot),
                  "composed function maps " + Show(X) + " to " + Show(Got) +
                      ", the first operand to " + Show(U) +
                      " and the second this to " + Show(V));
        Interesting |= U != V && U != X;
      }
      PBT_CHECK(C, std::count(St.begin(), St.end(), Got), "no state at all");
    }
    Pool.push_back(R);
    for (unsigned P = 0; P < Pool.size(); ++P)
      for (unsigned Q = 0; Q < P; ++Q)
        if (Pool[P] == Pool[Q])
          for (auto X : St)
            if (Pool[P].computeTarget(X) != Pool[Q].computeTarget(X))
              C.fail(pbt::strf("#%u equals #%u but they differ at ", P, Q) +
                     Show(X));
  }
  C.nontrivial(Interesting);
}
void typestate(pbt::Ctx &C) {
  if (C.flip())
    typestateFor<CSTDFILEIOTypeStateDescription>(C);
  else
    typestateFor<OpenSSLEVPKDFDescription>(C);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P05";
  P.Subs = {
      {"domains",
       "triples of elements of LatticeDomain<int64/int/set>, BinaryDomain, "
       "SecureHeapValue and CSTDFILEIOState: the join laws, and order, equality "
       "and hash of LatticeDomain. Non-trivial: inner or distinct elements",
       domains, 60000},
      {"edgedomain",
       "random control-flow graphs with loops and switches; six pairs of "
       "sanitizer values each, with and without the dominance order, and six "
       "queries of this order against path search. Non-trivial: two different "
       "sanitizers",
       edgeDomain, 60000},
      {"xtaint",
       "random joins and compositions over the edge functions of the extended "
       "taint analysis, evaluated at every sanitizer. Non-trivial: an operand "
       "pair that disagrees or changes the value twice",
       xtaint, 50000},
      {"typestate",
       "random joins and compositions over the edge functions of the type-state "
       "analysis (two descriptions), evaluated at every state. Non-trivial: as "
       "above",
       typestate, 80000}};
  return pbt::run(argc, argv, P);
}
