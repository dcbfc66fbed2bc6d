// BUILD:
// P16: alias sets are an equivalence relation that covers what executions do.
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h"
#include "phasar/PhasarLLVM/Pointer/LLVMPointsToUtils.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/IR/InstIterator.h"
#include "nlohmann/json.hpp"

#include <set>

using namespace psr;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;

namespace {
using VSet = std::set<const Value *>;

std::string str(const Value *V) {
  if (llvm::isa<Function>(V))
    return "@" + V->getName().str();
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  if (auto *A = llvm::dyn_cast<llvm::Argument>(V))
    OS << " of " << A->getParent()->getName();
  return OS.str();
}

std::unique_ptr<llvm::Module> module(pbt::Ctx &C, llvm::LLVMContext &Ctx,
                                     bool Loops, bool Structs = true) {
  irgen::Opts O;
  O.MaxFuns = 4;
  O.MaxBlocks = 6;
  O.MaxStmts = 7;
  O.Loops = Loops;
  O.PtrPtrs = C.flip();
  O.Arrays = C.flip();
  O.Structs = Structs && C.flip();
  O.FnPtrs = C.chance(1, 3);
  O.FnPtrGlobals = C.chance(1, 3);
  O.Malloc = C.chance(1, 3);
  O.Memcpy = C.chance(1, 4);
  O.Select = true;
  O.Casts = C.flip();
  O.Mem2RegOf = 2;
  irgen::Gen G(C, O, Ctx);
  auto M = G.run();
  C.describe(irgen::print(*M));
  return M;
}

std::vector<const Value *> pointers(const llvm::Module &M) {
  std::set<const Value *> Seen;
  std::vector<const Value *> R;
  auto Add = [&](const Value *V) {
    if (isInterestingPointer(V) && Seen.insert(V).second)
      R.push_back(V);
  };
  for (auto &G : M.globals())
    Add(&G);
  for (auto &F : M)
    Add(&F);
  for (auto &F : M) {
    for (auto &A : F.args())
      if (!F.isDeclaration())
        Add(&A);
    for (auto &I : llvm::instructions(F)) {
      Add(&I);
    }
  }
  return R;
}

std::map<const Value *, VSet> sets(LLVMAliasSet &AS,
                                   const std::vector<const Value *> &Vs) {
  std::map<const Value *, VSet> R;
  for (auto *V : Vs)
    AS.getAliasSet(V);
  for (auto *V : Vs) {
    auto P = AS.getAliasSet(V);
    R[V] = VSet(P->begin(), P->end());
  }
  return R;
}

void lawsOf(pbt::Ctx &C, LLVMAliasSet &AS, const std::vector<const Value *> &Vs,
            const std::string &W) {
  auto S = sets(AS, Vs);
  for (auto &[V, X] : S) {
    PBT_CHECK(C, X.count(V), W + "not reflexive: " + str(V));
    for (auto *Y : X)
      if (auto It = S.find(Y); It != S.end())
        PBT_CHECK(C, It->second == X,
                  W + "the members of one alias set have different alias sets: " +
                      str(V) + " / " + str(Y));
  }
  for (unsigned K = 0; K < 20 && !Vs.empty(); ++K) {
    auto *A = C.pick(Vs), *B = C.pick(Vs);
    auto R = AS.alias(A, B);
    PBT_CHECK(C, (R != AliasResult::NoAlias) == bool(S[A].count(B)),
              W + "alias() disagrees with the alias set: " + str(A) + " / " +
                  str(B));
    PBT_CHECK(C, AS.alias(B, A) == R, W + "alias() is not symmetric");
  }
  // allocation sites
  auto IsSite = [](const Value *V) {
    if (llvm::isa<llvm::AllocaInst>(V))
      return true;
    auto *CB = llvm::dyn_cast<llvm::CallBase>(V);
    return CB && CB->getCalledFunction() &&
           CB->getCalledFunction()->getName() == "malloc";
  };
  for (unsigned K = 0; K < 6 && !Vs.empty(); ++K) {
    auto *V = C.pick(Vs);
    const Function *F = nullptr;
    if (auto *I = llvm::dyn_cast<Instruction>(V))
      F = I->getFunction();
    if (auto *A = llvm::dyn_cast<llvm::Argument>(V))
      F = A->getParent();
    bool Glob = llvm::isa<llvm::GlobalObject>(V);
    for (bool Intra : {false, true}) {
      VSet Want;
      for (auto *P : S[V]) {
        auto *I = llvm::dyn_cast<Instruction>(P);
        if (IsSite(P) && (!Intra || Glob || I->getFunction() == F))
          Want.insert(P);
        if (auto *A = llvm::dyn_cast<llvm::Argument>(P))
          if (Intra && A->getParent() == F)
            Want.insert(P);
      }
      auto R = AS.getReachableAllocationSites(V, Intra);
      PBT_CHECK(C, VSet(R->begin(), R->end()) == Want,
                W + "allocation sites of " + str(V) + (Intra ? " (intra)" : ""));
      auto *P = C.pick(Vs);
      PBT_CHECK(C,
                AS.isInReachableAllocationSites(V, P, Intra) ==
                    bool(Want.count(P)),
                W + "isInReachableAllocationSites");
    }
  }
}

void laws(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  auto M = module(C, Ctx, true);
  LLVMProjectIRDB IRDB(M.get());
  auto Ty = std::array{AliasAnalysisType::CFLAnders, AliasAnalysisType::CFLSteens,
                       AliasAnalysisType::Basic}[C.draw(3)];
  bool Lazy = C.flip();
  LLVMAliasSet AS(&IRDB, Lazy, Ty);
  auto Vs = pointers(*M);
  C.nontrivial(Vs.size() >= 8);
  auto Sh = Vs;
  for (size_t K = Sh.size(); K > 1; --K)
    std::swap(Sh[K - 1], Sh[C.draw(K)]);
  // query in random order
  lawsOf(C, AS, Sh, "");
  auto S = sets(AS, Vs);
  {
    LLVMAliasSet Other(&IRDB, !Lazy, Ty);
    auto S2 = sets(Other, Vs);
    for (auto *V : Vs)
      PBT_CHECK(C, S[V] == S2[V], "lazy and eager alias sets differ: " + str(V));
  }
  // things that are no pointers
  for (auto &I : llvm::instructions(*M->getFunction("main")))
    if (!I.getType()->isPointerTy()) {
      PBT_CHECK(C, AS.getAliasSet(&I)->empty(), "alias set of a non-pointer");
      PBT_CHECK(C, AS.alias(&I, &I) == AliasResult::NoAlias,
                "alias of non-pointers");
    }
  // store and reload; functions and constants have no id and cannot be stored
  {
    std::string J;
    llvm::raw_string_ostream OS(J);
    AS.printAsJson(OS);
    OS.flush();
    {
      auto D = LLVMAliasSetData::loadJsonString(J);
      auto E = AS.getLLVMAliasSetData();
      auto Norm = [](LLVMAliasSetData &X) {
        for (auto &Y : X.AliasSets)
          std::sort(Y.begin(), Y.end());
        std::sort(X.AliasSets.begin(), X.AliasSets.end());
        std::sort(X.AnalyzedFunctions.begin(), X.AnalyzedFunctions.end());
      };
      Norm(D);
      Norm(E);
      PBT_CHECK(C, D.AliasSets == E.AliasSets &&
                       D.AnalyzedFunctions == E.AnalyzedFunctions,
                "stored alias-set data differs");
    }
    LLVMAliasSet R(&IRDB, nlohmann::json::parse(J));
    for (auto *V : Vs) {
      if (llvm::isa<Function>(V))
        continue;
      VSet Want, Got;
      for (auto *X : S[V])
        if (getMetaDataID(X) != "-1")
          Want.insert(X);
      auto P = R.getAliasSet(V);
      for (auto *X : *P)
        if (getMetaDataID(X) != "-1")
          Got.insert(X);
      PBT_CHECK(C, Got == Want, "reloaded alias set of " + str(V) + " differs");
    }
  }
  // introduce aliases and merge: union-find model
  std::map<const Value *, VSet> Cur = S;
  auto Unite = [&](const Value *A, const Value *B) {
    VSet U = Cur[A];
    U.insert(Cur[B].begin(), Cur[B].end());
    for (auto *X : U)
      Cur[X] = U;
  };
  LLVMAliasInfoRef Ref = &AS;
  unsigned N = C.draw(5);
  for (unsigned K = 0; K < N && !Vs.empty(); ++K) {
    auto *A = C.pick(Vs), *B = C.pick(Vs);
    if (C.flip())
      AS.introduceAlias(A, B);
    else
      Ref.introduceAlias(A, B);
    Unite(A, B);
    auto P = Ref.getAliasSet(A);
    PBT_CHECK(C, VSet(P->begin(), P->end()) == Cur[A],
              "alias set after introduceAlias");
  }
  if (C.flip()) {
    LLVMAliasSet Other(&IRDB, C.flip(), Ty);
    unsigned N = C.draw(4);
    for (unsigned K = 0; K < N && !Vs.empty(); ++K) {
      auto *A = C.pick(Vs), *B = C.pick(Vs);
      Other.introduceAlias(A, B);
      Unite(A, B);
    }
    sets(Other, Vs);
    AS.mergeWith(Other);
    C.label("merged");
  }
  auto Now = sets(AS, Vs);
  for (auto *V : Vs)
    PBT_CHECK(C, Now[V] == Cur[V],
              "alias set of " + str(V) + " after introducing/merging aliases");
  lawsOf(C, AS, Vs, "after merging: ");
}

void sound(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  auto Ty = std::array{AliasAnalysisType::Basic, AliasAnalysisType::CFLSteens,
                       AliasAnalysisType::CFLAnders}[C.draw(3)];
  // LLVM's CFL analyses are not sound for objects that hold their own address
  // and their answers then depend on hash order: no structs for them
  auto M = module(C, Ctx, false, Ty == AliasAnalysisType::Basic);
  LLVMProjectIRDB IRDB(M.get());
  LLVMAliasSet AS(&IRDB, C.flip(), Ty);
  std::set<std::pair<const Value *, const Value *>> Pairs;
  for (unsigned Run = 0; Run < 2; ++Run) {
    interp::Machine X(*M);
    X.MaxSteps = 400;
    // pointer values of each activation, in order of creation
    std::map<unsigned, std::vector<std::pair<const Value *, uint64_t>>> Live;
    std::map<unsigned, std::set<const Value *>> Known;
    auto Note = [&](interp::Frame &F, const Value *V, uint64_t A) {
      auto *O = X.objAt(A);
      if (!O || O->Freed)
        return;
      if (!Known[F.Act].insert(V).second)
        return; // executed again (no loops: cannot happen)
      for (auto &[W, B] : Live[F.Act])
        if (A == B)
          Pairs.insert({V, W});
      Live[F.Act].push_back({V, A});
    };
    X.OnInst = [&](interp::Frame &F, interp::Inst I) {
      if (Known[F.Act].empty())
        for (auto &A : F.F->args())
          if (A.getType()->isPointerTy() && !F.R[&A].U)
            Note(F, &A, F.R[&A].B);
      if (llvm::isa<llvm::PHINode>(I))
        return;
      for (auto &Op : I->operands()) {
        if (auto *G = llvm::dyn_cast<llvm::GlobalObject>(Op.get())) {
          if (llvm::isa<llvm::CallBase>(I) &&
              &Op == &llvm::cast<llvm::CallBase>(I)->getCalledOperandUse())
            continue;
          Note(F, G, X.GAddr[G]);
        }
      }
    };
    X.AfterInst = [&](interp::Frame &F, interp::Inst I) {
      if (!I->getType()->isPointerTy())
        return;
      auto V = F.R[I];
      if (!V.U)
        Note(F, I, V.B);
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *CS, const Function *F,
                   std::vector<interp::Val> &A) {
      interp::Val V;
      if (F->getName() == "malloc")
        V.B = X.alloc(A.at(0).B, CS, 0);
      else if (CS->getType()->isIntegerTy())
        V.B = uint64_t(C.range(-1, 3));
      return V;
    };
    try {
      X.run(M->getFunction("main"), {});
    } catch (interp::Stop) {
    } catch (interp::Throw) {
    }
  }
  C.nontrivial(Pairs.size() >= 4);
  for (auto &[A, B] : Pairs)
    PBT_CHECK(C, AS.alias(A, B) != AliasResult::NoAlias,
              "equal pointers that do not alias: " + str(A) + " / " + str(B));
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P16";
  P.Subs = {
      {"laws",
       "random programs with pointers, arrays, structs, heap objects and "
       "function pointers; lazily or eagerly computed alias sets of all three "
       "analyses: equivalence laws, allocation sites, JSON round trip, "
       "introduced aliases and merging against a union-find model. "
       "Non-trivial: at least eight pointers",
       laws, 20000},
      {"sound",
       "random loop-free programs, interpreted twice: two pointers of one "
       "activation that are equal must be may-aliases. Non-trivial: at least "
       "four pairs of equal pointers",
       sound, 60000}};
  P.Assumptions = {"only pointers of one activation of one function are "
                   "compared (the analysis is intra-procedural)",
                   "loop-free programs, as LLVM's answers are per iteration"};
  return pbt::run(argc, argv, P);
}
