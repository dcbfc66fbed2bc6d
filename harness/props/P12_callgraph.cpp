// BUILD:
// P12: call graphs contain every call that can happen (and are as precise as
// their algorithm promises).
#include "cppgen.h"
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/SourceMgr.h"

#include <set>

using namespace psr;
using llvm::CallBase;
using llvm::Function;
using llvm::Instruction;

namespace {
using Edges = std::map<const Instruction *, std::set<const Function *>>;

std::string str(const llvm::Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (!V)
    return "null";
  if (auto *F = llvm::dyn_cast<Function>(V))
    return F->getName().str();
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  return S;
}

// what executions from Entry really call
Edges observe(pbt::Ctx &C, const llvm::Module &M, const Function *Entry,
              unsigned Runs) {
  Edges R;
  for (unsigned K = 0; K < Runs; ++K) {
    interp::Machine X(M);
    X.MaxSteps = 600;
    X.OnCall = [&](interp::Frame &, const CallBase *CS, const Function *F) {
      R[CS].insert(F);
    };
    X.Extern = [&](interp::Frame &, const CallBase *CS, const Function *F,
                   std::vector<interp::Val> &A) {
      interp::Val V;
      auto N = F->getName();
      if (N == "_Znwm" || N == "malloc")
        V.B = X.alloc(A.at(0).B, CS, 0);
      else if (CS->getType()->isIntegerTy())
        V.B = uint64_t(C.range(-1, 3));
      return V;
    };
    std::vector<interp::Val> Args;
    for (auto &A : Entry->args()) {
      interp::Val V;
      if (A.getType()->isIntegerTy())
        V.B = uint64_t(C.range(-1, 3));
      Args.push_back(V);
    }
    try {
      X.run(Entry, Args);
    } catch (interp::Stop) {
    } catch (interp::Throw) {
    }
  }
  return R;
}

const char *name(CallGraphAnalysisType T) {
  switch (T) {
  case CallGraphAnalysisType::NORESOLVE: return "NORESOLVE";
  case CallGraphAnalysisType::CHA: return "CHA";
  case CallGraphAnalysisType::RTA: return "RTA";
  case CallGraphAnalysisType::DTA: return "DTA";
  case CallGraphAnalysisType::OTF: return "OTF";
  default: return "?";
  }
}

const Function *staticCallee(const CallBase *CS) {
  return llvm::dyn_cast<Function>(
      CS->getCalledOperand()->stripPointerCastsAndAliases());
}

// structure every call graph has
template <typename CG>
void structure(pbt::Ctx &C, const CG &G, const llvm::Module &M,
               const std::set<const Function *> &Entries,
               const std::string &W) {
  // inverse relations, no duplicates
  std::map<const Function *, std::multiset<const Instruction *>> Inv;
  std::set<const Function *> Vtx(G.getAllVertexFunctions().begin(),
                                 G.getAllVertexFunctions().end());
  std::set<const Instruction *> CSs;
  for (auto *CS : G.getAllVertexCallSites())
    PBT_CHECK(C, CSs.insert(CS).second, W + "call site listed twice");
  PBT_CHECK(C, G.getNumVertexFunctions() == Vtx.size(), W + "#functions");
  PBT_CHECK(C, G.getNumVertexCallSites() == CSs.size(), W + "#call sites");
  std::set<const Function *> Reach;
  std::vector<const Function *> WL(Entries.begin(), Entries.end());
  std::set<const Instruction *> WantCS;
  while (!WL.empty()) {
    auto *F = WL.back();
    WL.pop_back();
    if (!Reach.insert(F).second)
      continue;
    for (auto &I : llvm::instructions(*F))
      if (llvm::isa<CallBase>(I)) {
        WantCS.insert(&I);
        for (auto *T : G.getCalleesOfCallAt(&I))
          WL.push_back(T);
      }
  }
  PBT_CHECK(C, Reach == Vtx || [&] {
    // declarations that are entry points may be left out
    for (auto *F : Reach)
      if (!Vtx.count(F) && !(F->isDeclaration() && Entries.count(F)))
        return false;
    for (auto *F : Vtx)
      if (!Reach.count(F))
        return false;
    return true;
  }(), W + "functions of the graph are not those reachable from the entries");
  PBT_CHECK(C, WantCS == CSs, W + "call sites of the graph");
  for (auto *CS : CSs) {
    std::set<const Function *> S;
    for (auto *F : G.getCalleesOfCallAt(CS)) {
      PBT_CHECK(C, F, W + "null callee");
      PBT_CHECK(C, S.insert(F).second, W + "callee listed twice at " + str(CS));
      Inv[F].insert(CS);
    }
    auto *CB = llvm::cast<CallBase>(CS);
    if (auto *F = staticCallee(CB))
      PBT_CHECK(C, S == std::set<const Function *>{F},
                W + "static call " + str(CS));
  }
  for (auto *F : Vtx) {
    std::multiset<const Instruction *> S(G.getCallersOf(F).begin(),
                                         G.getCallersOf(F).end());
    PBT_CHECK(C, S == Inv[F], W + "callers of " + str(F) +
                                  " are not the inverse of the callees");
  }
  // unknown things
  for (auto &F : M)
    if (!Vtx.count(&F))
      PBT_CHECK(C, G.getCallersOf(&F).empty(), W + "callers of non-vertex");
}

template <typename CG>
void covers(pbt::Ctx &C, const CG &G, const Edges &E, const std::string &W) {
  for (auto &[CS, Fs] : E)
    for (auto *F : Fs) {
      auto R = G.getCalleesOfCallAt(CS);
      PBT_CHECK(C, llvm::is_contained(R, F),
                W + "execution calls " + str(F) + " at " + str(CS) +
                    ", which the call graph does not contain");
      PBT_CHECK(C, llvm::is_contained(G.getCallersOf(F), CS),
                W + "caller missing for " + str(F));
    }
}

std::set<const Function *> callees(const LLVMBasedCallGraph &G,
                                   const Instruction *CS) {
  auto R = G.getCalleesOfCallAt(CS);
  return {R.begin(), R.end()};
}
template <typename G>
std::set<const Function *> callees(const G &X, const Instruction *CS) {
  auto R = X.getCalleesOfCallAt(CS);
  return {R.begin(), R.end()};
}

constexpr CallGraphAnalysisType AllTypes[] = {
    CallGraphAnalysisType::NORESOLVE, CallGraphAnalysisType::CHA,
    CallGraphAnalysisType::RTA, CallGraphAnalysisType::DTA,
    CallGraphAnalysisType::OTF};

// builds the call graph in one of the documented ways
void withGraph(pbt::Ctx &C, LLVMProjectIRDB &IRDB, CallGraphAnalysisType T,
               const std::vector<std::string> &Entries,
               llvm::function_ref<void(const LLVMBasedCallGraph &)> Use) {
  LLVMTypeHierarchy TH(IRDB);
  LLVMVFTableProvider VTP(IRDB);
  bool OTF = T == CallGraphAnalysisType::OTF;
  switch (C.draw(4)) {
  case 0: { // own alias information
    if (OTF && C.flip()) {
      LLVMAliasSet AS(&IRDB);
      Use(buildLLVMBasedCallGraph(IRDB, T, Entries, TH, VTP, &AS));
    } else
      Use(buildLLVMBasedCallGraph(IRDB, T, Entries, TH, VTP));
    return;
  }
  case 1: {
    LLVMAliasSet AS(&IRDB, false);
    auto R = Resolver::create(T, &IRDB, &VTP, &TH, &AS);
    Use(buildLLVMBasedCallGraph(IRDB, *R, Entries));
    return;
  }
  case 2: {
    LLVMBasedICFG I(&IRDB, T, Entries, C.flip() ? &TH : nullptr, nullptr,
                    Soundness::Soundy, false);
    Use(I.getCallGraph());
    return;
  }
  default: {
    LLVMAliasSet AS(&IRDB);
    auto R = Resolver::create(T, &IRDB, &VTP, &TH, &AS);
    LLVMBasedICFG I(&IRDB, *R, Entries, Soundness::Soundy, false);
    Use(I.getCallGraph());
    return;
  }
  }
}

void pointers(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Opts O;
  O.MinFuns = 3;
  O.MaxFuns = 6;
  O.MaxBlocks = 4;
  O.FnPtrs = true;
  O.FnPtrGlobals = C.flip();
  O.Invokes = C.chance(1, 4);
  O.Linkage = C.chance(1, 4);
  O.PtrPtrs = false;
  O.Structs = C.chance(1, 3);
  O.ExtraWeight = 5;
  irgen::Gen G(C, O, Ctx);
  // C-style "objects": a struct with function pointers that take the object
  auto *Ops = llvm::StructType::create(Ctx, "struct.Ops");
  auto *MT = llvm::FunctionType::get(G.I32, {Ops->getPointerTo(), G.I32}, false);
  Ops->setBody({MT->getPointerTo(), G.FT1P, G.I32});
  std::vector<Function *> Meths;
  llvm::GlobalVariable *Tab = nullptr;
  Function *Getter = nullptr;
  llvm::GlobalVariable *Nest = nullptr, *NestP = nullptr;
  std::vector<Function *> Getters, Appliers;
  unsigned NApply = 1 + C.draw(3);
  auto *AT2 = llvm::FunctionType::get(G.I32, {G.FT1P, G.I32}, false);
  auto *AVT = llvm::FunctionType::get(G.I32, {G.FT1P, G.I32}, true);
  unsigned NMeth = 1 + C.draw(3);
  auto Meth = [&](irgen::Gen &G) {
    if (Meths.size() < NMeth) {
      auto *F = Function::Create(
          MT, C.flip() ? Function::InternalLinkage : Function::ExternalLinkage,
          "meth" + std::to_string(Meths.size()), *G.M);
      llvm::IRBuilder<> B(llvm::BasicBlock::Create(Ctx, "e", F));
      B.CreateRet(B.CreateAdd(F->getArg(1), B.getInt32(int(Meths.size()))));
      Meths.push_back(F);
    }
    return C.pick(Meths);
  };
  auto UnaryFns = [&](irgen::Gen &G) {
    std::vector<Function *> R;
    for (auto *F : G.Funs)
      if (F->getFunctionType() == G.FT1)
        R.push_back(F);
    return R;
  };
  G.Extra = [&](irgen::Gen &G) {
    auto &B = G.B;
    auto U = UnaryFns(G);
    switch (C.draw(9)) {
    case 0: { // obj.method(&obj, n)
      llvm::IRBuilder<> EB(&G.F->getEntryBlock(),
                           G.F->getEntryBlock().begin());
      auto *Obj = EB.CreateAlloca(Ops);
      auto *P = B.CreateStructGEP(Ops, Obj, 0);
      B.CreateStore(Meth(G), P);
      if (C.chance(1, 3))
        B.CreateStore(Meth(G), P);
      auto *L = B.CreateLoad(MT->getPointerTo(), B.CreateStructGEP(Ops, Obj, 0));
      B.CreateCall(MT, L, {Obj, G.num(2)});
      break;
    }
    case 1: { // table of function pointers
      if (U.empty())
        break;
      if (!Tab) {
        std::vector<llvm::Constant *> K;
        unsigned N = 1 + C.draw(3);
        for (unsigned I = 0; I < N; ++I)
          K.push_back(C.pick(U));
        auto *AT = llvm::ArrayType::get(G.FT1P, N);
        Tab = new llvm::GlobalVariable(*G.M, AT, C.flip(),
                                       llvm::GlobalValue::InternalLinkage,
                                       llvm::ConstantArray::get(AT, K), "tab");
      }
      auto *AT = llvm::cast<llvm::ArrayType>(Tab->getValueType());
      unsigned Ix = C.draw(AT->getNumElements());
      auto *P = B.CreateInBoundsGEP(
          AT, Tab, {B.getInt64(0), C.flip() ? (llvm::Value *)B.getInt64(Ix)
                                            : B.CreateZExt(
                                                  B.CreateAnd(
                                                      G.num(C.draw(2)), 1),
                                                  B.getInt64Ty())});
      auto *L = B.CreateLoad(G.FT1P, P);
      B.CreateCall(G.FT1, L, {G.num(1)});
      break;
    }
    case 2: { // returned function pointer
      if (U.empty())
        break;
      if (!Getter) {
        Getter = Function::Create(
            llvm::FunctionType::get(G.FT1P, {G.I32}, false),
            Function::InternalLinkage, "getter", *G.M);
        llvm::IRBuilder<> EB(llvm::BasicBlock::Create(Ctx, "e", Getter));
        auto *S = EB.CreateSelect(
            EB.CreateICmpSGT(Getter->getArg(0), G.num(0)), C.pick(U),
            C.pick(U));
        EB.CreateRet(S);
      }
      auto *FP = B.CreateCall(Getter, {G.num(C.range(-1, 1))});
      B.CreateCall(G.FT1, FP, {G.num(1)});
      break;
    }
    case 3: { // statically known through a cast or an alias
      if (U.empty())
        break;
      auto *F = C.pick(U);
      llvm::Constant *K = F;
      if (C.flip()) {
        auto *A = G.M->getNamedAlias("alias_" + F->getName().str());
        if (!A && !F->isDeclaration())
          A = llvm::GlobalAlias::create(
              G.FT1, 0, llvm::GlobalValue::ExternalLinkage,
              "alias_" + F->getName().str(), F, G.M.get());
        if (A)
          K = A;
      }
      if (K == F || C.flip()) {
        auto *XT = llvm::FunctionType::get(G.I32, {}, true);
        B.CreateCall(XT, llvm::ConstantExpr::getBitCast(K, XT->getPointerTo()),
                     {G.num(1)});
      } else
        B.CreateCall(G.FT1, K, {G.num(1)});
      break;
    }
    case 4: { // a function that calls its argument, called directly or not
      if (U.empty())
        break;
      if (Appliers.size() < NApply) {
        bool Var = C.chance(1, 4), Chain = !Appliers.empty() && C.chance(1, 3);
        auto *FT = Var ? AVT : AT2;
        auto *F = Function::Create(FT, Function::InternalLinkage,
                                   "apply" + std::to_string(Appliers.size()),
                                   *G.M);
        llvm::IRBuilder<> EB(llvm::BasicBlock::Create(Ctx, "e", F));
        llvm::Value *R = nullptr;
        if (Chain) {
          auto *X = C.pick(Appliers);
          llvm::Value *Callee = X;
          if (C.flip()) { // via memory
            auto *A = EB.CreateAlloca(X->getType());
            EB.CreateStore(X, A);
            Callee = EB.CreateLoad(X->getType(), A);
          }
          R = EB.CreateCall(X->getFunctionType(), Callee,
                            {F->getArg(0), F->getArg(1)});
        } else if (C.flip()) { // clang -O0
          auto *A = EB.CreateAlloca(G.FT1P);
          EB.CreateStore(F->getArg(0), A);
          R = EB.CreateCall(G.FT1, EB.CreateLoad(G.FT1P, A), {F->getArg(1)});
        } else
          R = EB.CreateCall(G.FT1, F->getArg(0), {F->getArg(1)});
        EB.CreateRet(R);
        Appliers.push_back(F);
      }
      auto *X = C.pick(Appliers);
      llvm::Value *Callee = X;
      if (C.chance(2, 3)) {
        llvm::IRBuilder<> EB(&G.F->getEntryBlock(),
                             G.F->getEntryBlock().begin());
        auto *A = EB.CreateAlloca(X->getType());
        B.CreateStore(X, A);
        if (C.chance(1, 4)) {
          std::vector<Function *> Same;
          for (auto *Y : Appliers)
            if (Y->getType() == X->getType())
              Same.push_back(Y);
          B.CreateStore(C.pick(Same), A);
        }
        Callee = B.CreateLoad(X->getType(), A);
      }
      std::vector<llvm::Value *> As{C.pick(U), G.num(1)};
      if (X->isVarArg() && C.flip())
        As.push_back(G.num(3));
      B.CreateCall(X->getFunctionType(), Callee, As);
      C.label("higher-order");
      break;
    }
    case 5: { // function pointers somewhere inside of a constant
      if (U.empty())
        break;
      if (!Nest) {
        auto *In = llvm::StructType::get(Ctx, {G.I32, G.FT1P});
        auto *Arr = llvm::ArrayType::get(In, 2);
        auto *Out = llvm::StructType::get(Ctx, {G.FT1P, Arr, G.I32});
        auto Inner = [&] {
          return llvm::ConstantStruct::get(In, {G.num(1), C.pick(U)});
        };
        Nest = new llvm::GlobalVariable(
            *G.M, Out, C.flip(), llvm::GlobalValue::InternalLinkage,
            llvm::ConstantStruct::get(
                Out, {C.chance(1, 3) ? (llvm::Constant *)llvm::Constant::
                                           getNullValue(G.FT1P)
                                     : C.pick(U),
                      llvm::ConstantArray::get(Arr, {Inner(), Inner()}),
                      G.num(0)}),
            "nest");
        NestP = new llvm::GlobalVariable(*G.M, Nest->getType(), C.flip(),
                                         llvm::GlobalValue::InternalLinkage,
                                         Nest, "nestp");
      }
      llvm::Value *Base = Nest;
      if (C.chance(1, 3))
        Base = B.CreateLoad(Nest->getType(), NestP);
      auto *Z = B.getInt32(0), *One = B.getInt32(1);
      std::vector<llvm::Value *> Ix{B.getInt64(0), One,
                                    B.getInt64(C.draw(2)), One};
      if (C.chance(1, 3) &&
          !Nest->getInitializer()->getAggregateElement(0u)->isNullValue())
        Ix = {B.getInt64(0), Z};
      auto *P = B.CreateInBoundsGEP(Nest->getValueType(), Base, Ix);
      B.CreateCall(G.FT1, B.CreateLoad(G.FT1P, P), {G.num(1)});
      C.label("nested constant");
      break;
    }
    case 6: { // getters with several exits, called via a pointer
      if (U.empty())
        break;
      auto *GT = llvm::FunctionType::get(G.FT1P, {G.I32}, false);
      if (Getters.size() < 2) {
        auto *F = Function::Create(GT, Function::InternalLinkage,
                                   "get" + std::to_string(Getters.size()),
                                   *G.M);
        auto *E = llvm::BasicBlock::Create(Ctx, "e", F);
        auto *T = llvm::BasicBlock::Create(Ctx, "t", F);
        auto *X = llvm::BasicBlock::Create(Ctx, "x", F);
        llvm::IRBuilder<> EB(E);
        EB.CreateCondBr(EB.CreateICmpSGT(F->getArg(0), G.num(0)), T, X);
        EB.SetInsertPoint(T);
        EB.CreateRet(C.pick(U));
        EB.SetInsertPoint(X);
        EB.CreateRet(C.pick(U));
        Getters.push_back(F);
      }
      auto *X = C.pick(Getters);
      llvm::IRBuilder<> EB(&G.F->getEntryBlock(), G.F->getEntryBlock().begin());
      auto *A = EB.CreateAlloca(X->getType());
      B.CreateStore(X, A);
      auto *FP = B.CreateCall(GT, B.CreateLoad(X->getType(), A),
                              {G.num(C.range(-1, 1))});
      B.CreateCall(G.FT1, FP, {G.num(1)});
      C.label("indirect getter");
      break;
    }
    case 7: { // an external function
      auto *X = llvm::cast<Function>(
          G.M->getOrInsertFunction("exttarget", G.FT1).getCallee());
      llvm::IRBuilder<> EB(&G.F->getEntryBlock(), G.F->getEntryBlock().begin());
      auto *A = EB.CreateAlloca(G.FT1P);
      B.CreateStore(X, A);
      B.CreateCall(G.FT1, B.CreateLoad(G.FT1P, A), {G.num(1)});
      C.label("external target");
      break;
    }
    default: { // through a stored pointer to a pointer
      if (U.empty())
        break;
      llvm::IRBuilder<> EB(&G.F->getEntryBlock(),
                           G.F->getEntryBlock().begin());
      auto *A = EB.CreateAlloca(G.FT1P);
      auto *PA = EB.CreateAlloca(G.FT1P->getPointerTo());
      B.CreateStore(A, PA);
      B.CreateStore(C.pick(U), B.CreateLoad(G.FT1P->getPointerTo(), PA));
      auto *L = B.CreateLoad(G.FT1P, A);
      B.CreateCall(G.FT1, L, {G.num(1)});
      break;
    }
    }
  };
  auto M = G.run();
  LLVMProjectIRDB IRDB(M.get());
  C.describe(irgen::print(*M));
  std::vector<std::string> Entries;
  std::set<const Function *> EFns;
  if (C.chance(1, 4)) {
    Entries = {"__ALL__"};
    for (auto &F : *M) // what can be called from outside
      if (!F.isDeclaration() &&
          (F.hasExternalLinkage() || F.getName() == "main"))
        EFns.insert(&F);
  } else {
    Entries = {"main"};
    EFns.insert(M->getFunction("main"));
    if (C.chance(1, 3)) {
      auto *F = C.pick(G.Funs);
      if (!F->isDeclaration() && EFns.insert(F).second)
        Entries.push_back(F->getName().str());
    }
  }
  Edges Seen;
  {
    auto X = observe(C, *M, M->getFunction("main"), 3);
    Seen = X;
  }
  unsigned Ind = 0;
  for (auto &[CS, Fs] : Seen)
    Ind += llvm::cast<CallBase>(CS)->isIndirectCall();
  if (Ind)
    C.nontrivial();
  C.label(Ind ? "indirect calls executed" : "none executed");
  auto T = AllTypes[C.draw(5)];
  std::string W = std::string(name(T)) + ": ";
  withGraph(C, IRDB, T, Entries, [&](const LLVMBasedCallGraph &CG) {
    structure(C, CG, *M, EFns, W);
    if (T == CallGraphAnalysisType::NORESOLVE) {
      for (auto *CS : CG.getAllVertexCallSites())
        if (!staticCallee(llvm::cast<CallBase>(CS)))
          PBT_CHECK(C, callees(CG, CS).empty(), "NORESOLVE resolves");
      return;
    }
    covers(C, CG, Seen, W);
    for (auto *CS : CG.getAllVertexCallSites()) {
      auto *CB = llvm::cast<CallBase>(CS);
      if (staticCallee(CB))
        continue;
      std::set<const Function *> Want;
      // variadic functions may also be called with another type
      std::set<const Function *> May;
      for (auto &F : *M) {
        if (!F.hasAddressTaken())
          continue;
        if (F.getFunctionType() == CB->getFunctionType())
          Want.insert(&F);
        bool Fits = F.getReturnType() == CB->getType() &&
                    F.arg_size() <= CB->arg_size() &&
                    (F.isVarArg() || (CB->getFunctionType()->isVarArg() &&
                                      F.arg_size() == CB->arg_size()));
        for (unsigned K = 0; Fits && K < F.arg_size(); ++K)
          Fits = F.getArg(K)->getType() == CB->getArgOperand(K)->getType();
        if (Fits)
          May.insert(&F);
      }
      auto Got = callees(CG, CS);
      for (auto *F : Got)
        if (May.count(F))
          Want.insert(F);
      if (T == CallGraphAnalysisType::OTF) {
        for (auto *F : Got)
          PBT_CHECK(C, Want.count(F), W + "impossible callee " + str(F) +
                                          " at " + str(CS));
      } else
        PBT_CHECK(C, Got == Want,
                  W + "callees of " + str(CS) +
                      " are not the address-taken functions of its type");
    }
  });
}

void virtuals(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  cppgen::Opts O;
  O.MultiInh = C.chance(1, 4);
  O.Members = C.chance(1, 3);
  O.DeclaredOnly = C.chance(1, 3);
  cppgen::Gen G(C, O, Ctx);
  auto M = G.run();
  std::string S;
  llvm::raw_string_ostream(S) << *M;
  C.describe(S);
  LLVMProjectIRDB IRDB(M.get());
  auto Seen = observe(C, *M, M->getFunction("main"), 3);
  unsigned Ind = 0;
  for (auto &[CS, Fs] : Seen)
    Ind += llvm::cast<CallBase>(CS)->isIndirectCall();
  if (Ind)
    C.nontrivial();
  C.label(Ind ? "virtual calls executed" : "none executed");
  bool Multi = false;
  for (auto &K : G.Cs)
    Multi |= K.Bases.size() > 1;
  C.label(Multi ? "multiple inheritance" : "single inheritance");
  std::set<const Function *> EFns{M->getFunction("main")};
  auto T = AllTypes[C.draw(5)];
  std::string W = std::string(name(T)) + ": ";
  LLVMVFTableProvider VTP(IRDB);
  withGraph(C, IRDB, T, {"main"}, [&](const LLVMBasedCallGraph &CG) {
    structure(C, CG, *M, EFns, W);
    if (T == CallGraphAnalysisType::NORESOLVE)
      return;
    if (T != CallGraphAnalysisType::DTA) // a heuristic
      covers(C, CG, Seen, W);
    for (auto *CS : CG.getAllVertexCallSites()) {
      auto *CB = llvm::cast<CallBase>(CS);
      if (staticCallee(CB) || !isVirtualCall(CS, VTP))
        continue;
      auto *Recv = getReceiverType(CB);
      int K = -1;
      for (size_t J = 0; J < G.Cs.size(); ++J)
        if (G.Cs[J].Ty == Recv)
          K = J;
      PBT_CHECK(C, K >= 0, "harness: receiver");
      unsigned Ix = *getVFTIndex(CB);
      std::set<const Function *> Want;
      for (int Z : G.subs(K)) {
        auto &X = G.Cs[Z];
        if (!X.External && Ix < X.VT.size() && !X.VT[Ix].Pure && X.VT[Ix].Fn)
          Want.insert(X.VT[Ix].Fn);
      }
      auto Got = callees(CG, CS);
      PBT_CHECK(C, !llvm::is_contained(Got, G.PureFn),
                W + "calls a pure virtual function");
      if (Multi)
        continue; // slots of secondary bases: only the dynamic check
      if (T == CallGraphAnalysisType::CHA)
        PBT_CHECK(C, Got == Want, W + "callees of " + str(CS) +
                                      " are not the overriders in the subtypes");
      else if (T != CallGraphAnalysisType::OTF) // limited by the alias sets
        for (auto *F : Got)
          PBT_CHECK(C, Want.count(F),
                    W + "callee " + str(F) + " is no overrider for " + str(CS));
    }
  });
}
// struct D : A, B { int fb() override; }; B *b = new D; b->fb();
bool secondaryStillFails() {
  static const char *IR = R"(
target triple = "x86_64-unknown-linux-gnu"
%struct.A = type { i32 (...)** }
%struct.B = type { i32 (...)** }
%struct.D = type { %struct.A, %struct.B }
@_ZTI1A = external constant i8*
@_ZTI1B = external constant i8*
@_ZTVN10__cxxabiv121__vmi_class_type_infoE = external global i8*
@_ZTI1D = constant { i8*, i8*, i32, i32, i8*, i64, i8*, i64 } { i8* bitcast (i8** getelementptr inbounds (i8*, i8** @_ZTVN10__cxxabiv121__vmi_class_type_infoE, i64 2) to i8*), i8* null, i32 0, i32 2, i8* bitcast (i8** @_ZTI1A to i8*), i64 2, i8* bitcast (i8** @_ZTI1B to i8*), i64 2050 }
@_ZTV1A = constant { [3 x i8*] } { [3 x i8*] [i8* null, i8* bitcast (i8** @_ZTI1A to i8*), i8* bitcast (i32 (%struct.A*)* @_ZN1A2faEv to i8*)] }
@_ZTV1B = constant { [3 x i8*] } { [3 x i8*] [i8* null, i8* bitcast (i8** @_ZTI1B to i8*), i8* bitcast (i32 (%struct.B*)* @_ZN1B2fbEv to i8*)] }
@_ZTV1D = constant { [4 x i8*], [3 x i8*] } { [4 x i8*] [i8* null, i8* bitcast ({ i8*, i8*, i32, i32, i8*, i64, i8*, i64 }* @_ZTI1D to i8*), i8* bitcast (i32 (%struct.A*)* @_ZN1A2faEv to i8*), i8* bitcast (i32 (%struct.D*)* @_ZN1D2fbEv to i8*)], [3 x i8*] [i8* inttoptr (i64 -8 to i8*), i8* bitcast ({ i8*, i8*, i32, i32, i8*, i64, i8*, i64 }* @_ZTI1D to i8*), i8* bitcast (i32 (%struct.D*)* @_ZThn8_N1D2fbEv to i8*)] }
define i32 @_ZN1A2faEv(%struct.A* %0) { ret i32 1 }
define i32 @_ZN1B2fbEv(%struct.B* %0) { ret i32 2 }
define i32 @_ZN1D2fbEv(%struct.D* %0) { ret i32 3 }
define i32 @_ZThn8_N1D2fbEv(%struct.D* %0) { ret i32 3 }
define i32 @main(%struct.B* %0) {
entry:
  %o = alloca %struct.D
  %1 = bitcast %struct.B* %0 to i32 (%struct.B*)***
  %2 = load i32 (%struct.B*)**, i32 (%struct.B*)*** %1
  %3 = getelementptr inbounds i32 (%struct.B*)*, i32 (%struct.B*)** %2, i64 0
  %4 = load i32 (%struct.B*)*, i32 (%struct.B*)** %3
  %5 = call i32 %4(%struct.B* %0)
  ret i32 %5
})";
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic D;
  auto M = llvm::parseAssemblyString(IR, D, Ctx);
  if (!M)
    abort();
  LLVMProjectIRDB IRDB(M.get());
  LLVMBasedICFG I(&IRDB, CallGraphAnalysisType::CHA, {"main"}, nullptr, nullptr,
                  Soundness::Soundy, false);
  for (auto &X : llvm::instructions(M->getFunction("main")))
    if (llvm::isa<CallBase>(X)) {
      return !llvm::is_contained(I.getCalleesOfCallAt(&X),
                                 M->getFunction("_ZThn8_N1D2fbEv"));}
  return false;
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P12";
  P.Subs = {
      {"pointers",
       "random programs with function pointers (variables, parameters, "
       "globals, tables, struct fields taking the object, returned pointers, "
       "casts and aliases); the call graph of a random algorithm, built in a "
       "random documented way, is compared with interpreted executions and "
       "with the address-taken functions. Non-trivial: an indirect call was "
       "executed",
       pointers, 20000},
      {"virtual",
       "random C++-like programs with class hierarchies, objects of all "
       "storage kinds and virtual calls; compared with interpreted executions "
       "and the overriders in the class model. Non-trivial: a virtual call was "
       "executed",
       virtuals, 25000}};
  P.Knowns = {{"P12-secondary-base",
               "CHA/RTA miss overriders called through a pointer to a "
               "non-primary base class",
               secondaryStillFails}};
  P.Assumptions = {
      "programs are closed: external functions do not call back",
      "objects are used through their primary base only",
      "DTA is documented as a heuristic: only structure and precision are "
      "checked for virtual calls"};
  return pbt::run(argc, argv, P);
}
