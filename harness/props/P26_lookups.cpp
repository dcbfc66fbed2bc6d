// BUILD:
// P26: statistics, orderings and lookups describe the IR of the module.
#include "pbt.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Passes/GeneralStatisticsAnalysis.h"
#include "phasar/PhasarLLVM/Utils/BasicBlockOrdering.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "nlohmann/json.hpp"

#include <map>
#include <set>

using namespace psr;
using llvm::BasicBlock;
using llvm::Function;
using llvm::Instruction;
using llvm::Type;
using llvm::Value;

namespace {
std::string str(const Value *V) {
  if (!V)
    return "<null>";
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  return OS.str();
}

// what the generator put into the module
struct Facts {
  std::map<std::string, size_t> N;
  std::set<const Type *> Types;
  std::set<const Instruction *> Allocs;
  std::set<const Function *> AddrTaken;
};

struct Gen {
  pbt::Ctx &C;
  llvm::LLVMContext &Ctx;
  std::unique_ptr<llvm::Module> M;
  llvm::IRBuilder<> B;
  Facts K;
  std::vector<Function *> Defs, Decls;
  std::vector<llvm::GlobalVariable *> Globs;
  llvm::StructType *S1, *S2;
  Function *Ctor, *Ctor0, *Asm = nullptr;
  Type *I32, *I8P;

  Gen(pbt::Ctx &C, llvm::LLVMContext &Ctx)
      : C(C), Ctx(Ctx), M(new llvm::Module("m" + std::to_string(C.draw(9)), Ctx)), B(Ctx) {
    I32 = B.getInt32Ty();
    I8P = B.getInt8PtrTy();
    S1 = llvm::StructType::create(Ctx, {I32, I32}, "struct.A");
    S2 = llvm::StructType::create(Ctx, {I8P, I32}, "struct.B");
  }
  Function *fun(Type *R, std::vector<Type *> A, std::string Nm, bool VarArg = false,
                bool Intern = false) {
    auto *F = Function::Create(llvm::FunctionType::get(R, A, VarArg),
                               Intern ? Function::InternalLinkage
                                      : Function::ExternalLinkage,
                               Nm, *M);
    ++K.N["Functions"];
    K.N["ExternalFunctions"] += !Intern;
    return F;
  }
  // operands: values of the entry block, arguments, constants
  std::vector<Value *> Ints, Ptrs; // of the current block
  Value *i() {
    unsigned X = C.draw(5);
    if (X < 3 && !Ints.empty())
      return Ints[C.draw(Ints.size())];
    return B.getInt32(C.draw(9));
  }
  Value *p() { return Ptrs[C.draw(Ptrs.size())]; }
  void call(Function *F, BasicBlock *&) {
    std::vector<Value *> A;
    for (auto &P : F->args())
      A.push_back(P.getType() == I32 ? i() : (Value *)llvm::Constant::getNullValue(P.getType()));
    auto *X = B.CreateCall(F, A);
    ++K.N["CallSites"];
    if (X->getType() == I32)
      Ints.push_back(X);
  }
  void stmt(Function *F, BasicBlock *&BB) {
    switch (C.draw(18)) {
    case 0: {
      auto *T = C.pick(std::vector<Type *>{I32, S1, S2, B.getInt64Ty()});
      auto *A = B.CreateAlloca(T);
      K.Types.insert(T);
      K.Allocs.insert(A);
      ++K.N["AllocationSites"];
      if (T == I32)
        Ptrs.push_back(A);
      break;
    }
    case 1:
    case 2:
      B.CreateStore(i(), p());
      ++K.N["StoreInstructions"];
      break;
    case 3:
    case 4:
      Ints.push_back(B.CreateLoad(I32, p()));
      ++K.N["LoadInstructions"];
      break;
    case 5:
      Ptrs.push_back(llvm::GetElementPtrInst::Create(I32, p(), {i()}, "", BB));
      ++K.N["GetElementPtrs"];
      break;
    case 6: {
      auto *X = i();
      for (unsigned N = C.draw(4); N; --N)
        X = llvm::BinaryOperator::CreateAdd(X, i(), "", BB);
      if (llvm::isa<Instruction>(X))
        Ints.push_back(X);
      break;
    }
    case 7:
      call(C.pick(Defs), BB);
      break;
    case 8:
      if (!Decls.empty())
        call(C.pick(Decls), BB);
      break;
    case 9: { // heap allocation, perhaps of an object with a constructor
      static const char *Ns[] = {"malloc", "_Znwm", "_Znam", "calloc", "realloc", "alloc", "free"};
      unsigned W = C.draw(7);
      auto *H = M->getFunction(Ns[W]);
      if (!H) {
        std::vector<Type *> A{B.getInt64Ty()};
        if (W == 3)
          A.push_back(B.getInt64Ty());
        if (W == 4)
          A.insert(A.begin(), I8P);
        H = fun(I8P, A, Ns[W]);
      }
      std::vector<Value *> A;
      for (auto &P : H->args())
        A.push_back(llvm::Constant::getNullValue(P.getType()));
      auto *X = B.CreateCall(H, A);
      ++K.N["CallSites"];
      if (W < 5) {
        K.Allocs.insert(X);
        ++K.N["AllocationSites"];
      }
      if (C.flip()) {
        auto *Y = B.CreateBitCast(X, S1->getPointerTo());
        if (C.flip()) {
          bool Real = C.chance(2, 3);
          if (Real)
            B.CreateCall(Ctor, {Y, B.getInt32(1)});
          else
            B.CreateCall(Ctor0, {Y});
          ++K.N["CallSites"];
          if (Real && W < 5)
            K.Types.insert(S1);
        }
      }
      break;
    }
    case 10: { // indirect call
      auto *FT = llvm::FunctionType::get(I32, {I32}, false);
      auto *FP = B.CreateLoad(FT->getPointerTo(), B.CreateBitCast(p(), FT->getPointerTo()->getPointerTo()));
      ++K.N["LoadInstructions"];
      Ints.push_back(B.CreateCall(FT, FP, {i()}));
      ++K.N["CallSites"];
      ++K.N["IndCalls"];
      break;
    }
    case 11: { // inline assembly
      auto *FT = llvm::FunctionType::get(B.getVoidTy(), false);
      B.CreateCall(FT, llvm::InlineAsm::get(FT, "nop", "", true));
      ++K.N["CallSites"];
      ++K.N["NumInlineAsm"];
      break;
    }
    case 12: // memory intrinsics
    {
      auto Before = M->size();
      auto *D = B.CreateBitCast(p(), I8P);
      if (C.flip())
        B.CreateMemSet(D, B.getInt8(0), 4, llvm::MaybeAlign());
      else
        B.CreateMemCpy(D, llvm::MaybeAlign(), B.CreateBitCast(p(), I8P), llvm::MaybeAlign(), 4);
      K.N["Functions"] += M->size() - Before;
      K.N["ExternalFunctions"] += M->size() - Before;
      ++K.N["CallSites"];
      ++K.N["MemIntrinsics"];
      break;
    }
    case 13: { // take the address of a function
      auto *G = C.pick(C.flip() || Decls.empty() ? Defs : Decls);
      auto *P = B.CreateAlloca(G->getType());
      K.Types.insert(G->getType());
      K.Allocs.insert(P);
      ++K.N["AllocationSites"];
      B.CreateStore(G, P);
      ++K.N["StoreInstructions"];
      K.AddrTaken.insert(G);
      break;
    }
    case 14: { // a call through a cast: uses the address, but calls directly
      auto *G = C.pick(Defs);
      auto *FT = llvm::FunctionType::get(I32, {I8P}, false);
      if (FT == G->getFunctionType())
        break;
      B.CreateCall(FT, llvm::ConstantExpr::getBitCast(G, FT->getPointerTo()),
                   {llvm::Constant::getNullValue(I8P)});
      ++K.N["CallSites"];
      K.AddrTaken.insert(G);
      break;
    }
    case 15: { // a function as an argument
      auto *G = C.pick(Defs);
      auto *X = M->getFunction("take");
      if (!X)
        X = fun(B.getVoidTy(), {I8P}, "take");
      B.CreateCall(X, {llvm::ConstantExpr::getBitCast(G, I8P)});
      ++K.N["CallSites"];
      K.AddrTaken.insert(G);
      break;
    }
    case 16:
      if (!Globs.empty()) {
        auto *G = C.pick(Globs);
        if (C.flip() || G->isConstant()) {
          Ints.push_back(B.CreateLoad(I32, G));
          ++K.N["LoadInstructions"];
        } else {
          B.CreateStore(i(), G);
          ++K.N["StoreInstructions"];
        }
      }
      break;
    case 17: { // invoke
      auto *L = BasicBlock::Create(Ctx, "", F), *Ok = BasicBlock::Create(Ctx, "", F);
      auto *G = C.pick(Defs);
      std::vector<Value *> A;
      for (auto &P : G->args())
        A.push_back(P.getType() == I32 ? i() : (Value *)llvm::Constant::getNullValue(P.getType()));
      B.CreateInvoke(G, Ok, L, A);
      ++K.N["CallSites"];
      if (!F->hasPersonalityFn()) {
        auto *P = M->getFunction("pers");
        if (!P)
          P = fun(I32, {}, "pers", true);
        F->setPersonalityFn(P);
        K.AddrTaken.insert(P);
      }
      B.SetInsertPoint(L);
      auto *LP = B.CreateLandingPad(llvm::StructType::get(I8P, I32), 0);
      LP->setCleanup(true);
      ++K.N["LandingPads"];
      if (C.flip())
        B.CreateResume(LP);
      else
        B.CreateUnreachable();
      BB = Ok;
      B.SetInsertPoint(BB);
      break;
    }
    }
  }
  void body(Function *F) {
    ++K.N["FunctionDefinitions"];
    unsigned N = 1 + C.draw(6);
    std::vector<BasicBlock *> BBs;
    for (unsigned X = 0; X < N; ++X)
      BBs.push_back(BasicBlock::Create(Ctx, "b" + std::to_string(X), F));
    B.SetInsertPoint(BBs[0]);
    std::vector<Value *> EI, EP;
    auto *A = B.CreateAlloca(I32);
    K.Types.insert(I32);
    K.Allocs.insert(A);
    ++K.N["AllocationSites"];
    EP.push_back(A);
    for (auto &X : F->args())
      if (X.getType() == I32)
        EI.push_back(&X);
    Ints = EI;
    Ptrs = EP;
    struct Phi {
      llvm::PHINode *P;
      BasicBlock *BB;
    };
    std::vector<Phi> Phis;
    std::vector<BasicBlock *> Ends;
    for (unsigned X = 0; X < N; ++X) {
      auto *BB = BBs[X];
      B.SetInsertPoint(BB);
      if (X) {
        Ints = EI;
        Ptrs = EP;
        for (unsigned Y = C.chance(1, 3) ? 1 + C.draw(2) : 0; Y; --Y) {
          Phis.push_back({B.CreatePHI(I32, 0), BB});
          Ints.push_back(Phis.back().P);
        }
      }
      for (unsigned Y = C.draw(6); Y; --Y)
        stmt(F, BB);
      if (!X) {
        EI = Ints;
        EP = Ptrs;
      }
      auto To = [&] { return BBs[1 + C.draw(N - 1)]; };
      unsigned T = N > 1 ? C.draw(10) : 9;
      if (T < 3) {
        B.CreateBr(To());
        ++K.N["Branches"];
      } else if (T < 6) {
        auto *Cnd = llvm::CmpInst::Create(Instruction::ICmp, llvm::CmpInst::ICMP_SGT, i(), i(), "", BB);
        B.CreateCondBr(Cnd, To(), To());
        ++K.N["Branches"];
      } else if (T == 6) {
        auto *S = B.CreateSwitch(i(), To());
        for (unsigned Y = C.draw(4); Y; --Y)
          S->addCase(B.getInt32(Y), To());
        ++K.N["Switches"];
      } else if (T == 7) {
        B.CreateUnreachable();
      } else if (F->getReturnType()->isVoidTy()) {
        B.CreateRetVoid();
      } else {
        B.CreateRet(i());
      }
    }
    for (auto &[P, BB] : Phis) {
      bool Any = false;
      for (auto *Pr : llvm::predecessors(BB)) {
        P->addIncoming(C.flip() && !EI.empty() && llvm::isa<llvm::Argument>(EI[0])
                           ? EI[0]
                           : (Value *)B.getInt32(3),
                       Pr);
        // the same value per predecessor
        for (unsigned X = 0; X + 1 < P->getNumIncomingValues(); ++X)
          if (P->getIncomingBlock(X) == Pr)
            P->setIncomingValue(P->getNumIncomingValues() - 1, P->getIncomingValue(X));
        Any = true;
      }
      if (!Any) {
        P->replaceAllUsesWith(B.getInt32(0));
        P->eraseFromParent();
      } else
        ++K.N["PhiNodes"];
    }
  }
  void run() {
    for (unsigned X = 0, E = C.draw(4); X < E; ++X) {
      bool Const = C.chance(1, 3), Decl = C.chance(1, 3), Intern = !Decl && C.flip();
      Globs.push_back(new llvm::GlobalVariable(
          *M, I32, Const,
          Intern ? llvm::GlobalValue::InternalLinkage : llvm::GlobalValue::ExternalLinkage,
          Decl ? nullptr : B.getInt32(1), "g" + std::to_string(X)));
      ++K.N["Globals"];
      K.N["GlobalConsts"] += Const;
      K.N["GlobalsDefinitions"] += !Decl;
      K.N["ExternalGlobals"] += !Intern;
    }
    Ctor = fun(B.getVoidTy(), {S1->getPointerTo(), I32}, "_ZN1AC2Ei");
    Ctor0 = fun(B.getVoidTy(), {}, "log", true);
    for (unsigned X = 0, E = 1 + C.draw(3); X < E; ++X) {
      std::vector<Type *> A;
      for (unsigned Y = C.draw(3); Y; --Y)
        A.push_back(C.flip() ? I32 : C.flip() ? I8P : (Type *)S1->getPointerTo());
      Defs.push_back(fun(C.flip() ? I32 : B.getVoidTy(), A, "f" + std::to_string(X), false, C.chance(1, 3)));
    }
    for (unsigned X = 0, E = C.draw(2); X < E; ++X)
      Decls.push_back(fun(C.flip() ? I32 : B.getVoidTy(), {I32}, "d" + std::to_string(X)));
    for (auto *F : Defs)
      body(F);
    // a function pointer in a global
    if (C.chance(1, 4)) {
      auto *G = C.pick(Defs);
      new llvm::GlobalVariable(*M, G->getType(), true, llvm::GlobalValue::InternalLinkage, G, "fp");
      ++K.N["Globals"];
      ++K.N["GlobalConsts"];
      ++K.N["GlobalsDefinitions"];
      K.AddrTaken.insert(G);
    }
  }
};

void describe(pbt::Ctx &C, llvm::Module &M) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  M.print(OS, nullptr);
  C.describe(OS.str());
}

void stats(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  Gen G(C, Ctx);
  G.run();
  auto &M = *G.M;
  describe(C, M);
  std::string VE;
  llvm::raw_string_ostream VS(VE);
  PBT_CHECK(C, !llvm::verifyModule(M, &VS), "generator: " + VS.str());
  auto &N = G.K.N;
  // sums and maxima
  std::set<const Instruction *> Exits;
  for (auto &F : M) {
    for (auto &BB : F) {
      ++N["BasicBlocks"];
      size_t P = 0, Su = BB.getTerminator()->getNumSuccessors();
      for (auto &B2 : F)
        for (unsigned X = 0; X < B2.getTerminator()->getNumSuccessors(); ++X)
          P += B2.getTerminator()->getSuccessor(X) == &BB;
      N["TotalNumPredecessorBBs"] += P;
      N["TotalNumSuccessorBBs"] += Su;
      N["MaxNumPredecessorBBs"] = std::max(N["MaxNumPredecessorBBs"], P);
      N["MaxNumSuccessorBBs"] = std::max(N["MaxNumSuccessorBBs"], Su);
      for (auto &I : BB) {
        ++N["Instructions"];
        size_t Ops = I.getNumOperands(), Uses = 0;
        bool Out = false;
        for (auto &U : I.uses()) {
          ++Uses;
          auto *UI = llvm::cast<Instruction>(U.getUser());
          auto *UB = UI->getParent();
          if (auto *P = llvm::dyn_cast<llvm::PHINode>(UI))
            UB = P->getIncomingBlock(U);
          Out |= UB != &BB;
        }
        N["TotalNumOperands"] += Ops;
        N["TotalNumUses"] += Uses;
        N["MaxNumOperands"] = std::max(N["MaxNumOperands"], Ops);
        N["MaxNumUses"] = std::max(N["MaxNumUses"], Uses);
        N["NumInstWithMultipleUses"] += Uses > 1;
        N["NumInstsUsedOutsideBB"] += Out;
        N["NonVoidInsts"] += !I.getType()->isVoidTy();
        if (I.getOpcode() == Instruction::Ret || I.getOpcode() == Instruction::Resume)
          Exits.insert(&I);
      }
    }
  }
  N["AddressTakenFunctions"] = G.K.AddrTaken.size();
  GeneralStatisticsAnalysis GSA;
  auto S = GSA.runOnModule(M);
  std::map<std::string, size_t> R;
#define F(X) R[#X] = S.X;
  F(Functions) F(ExternalFunctions) F(FunctionDefinitions)
  F(AddressTakenFunctions) F(Globals) F(GlobalConsts) F(ExternalGlobals)
  F(GlobalsDefinitions) F(BasicBlocks) F(AllocationSites) F(CallSites)
  F(DebugIntrinsics) F(Instructions) F(StoreInstructions) F(LoadInstructions)
  F(MemIntrinsics) F(Branches) F(Switches) F(GetElementPtrs) F(LandingPads)
  F(PhiNodes) F(NumInlineAsm) F(IndCalls) F(TotalNumOperands) F(TotalNumUses)
  F(TotalNumPredecessorBBs) F(TotalNumSuccessorBBs) F(MaxNumOperands)
  F(MaxNumUses) F(MaxNumPredecessorBBs) F(MaxNumSuccessorBBs)
  F(NumInstWithMultipleUses) F(NumInstsUsedOutsideBB) F(NonVoidInsts)
#undef F
  C.nontrivial(N["BasicBlocks"] >= 6 && N["CallSites"] >= 3);
  for (auto &[Nm, V] : R)
    PBT_CHECK(C, V == N[Nm], pbt::strf("%s: %zu, expected %zu", Nm.c_str(), V, N[Nm]));
  PBT_CHECK(C, S.AllocatedTypes == G.K.Types, "allocated types");
  PBT_CHECK(C, S.AllocaInstructions == G.K.Allocs, "allocating instructions");
  PBT_CHECK(C, S.RetResInstructions == Exits, "return and resume instructions");
  PBT_CHECK(C, S.ModuleName == M.getName(), "module name");
  // the exported forms
  std::string T;
  llvm::raw_string_ostream OS(T);
  S.printAsJson(OS);
  auto J = nlohmann::json::parse(OS.str());
  const std::map<std::string, size_t> Js = {
      {"Instructions", N["Instructions"]},
      {"Functions", N["Functions"]},
      {"ExternalFunctions", N["ExternalFunctions"]},
      {"FunctionDefinitions", N["FunctionDefinitions"]},
      {"AddressTakenFunctions", N["AddressTakenFunctions"]},
      {"Globals", N["Globals"]},
      {"GlobalConsts", N["GlobalConsts"]},
      {"GlobalVariables", N["Globals"] - N["GlobalConsts"]},
      {"ExternalGlobals", N["ExternalGlobals"]},
      {"GlobalsDefinitions", N["GlobalsDefinitions"]},
      {"AllocaInstructions", G.K.Allocs.size()},
      {"CallSites", N["CallSites"]},
      {"IndirectCallSites", N["IndCalls"]},
      {"NumInlineAssembly", N["NumInlineAsm"]},
      {"MemoryIntrinsics", N["MemIntrinsics"]},
      {"DebugIntrinsics", N["DebugIntrinsics"]},
      {"Switches", N["Switches"]},
      {"GetElementPtrs", N["GetElementPtrs"]},
      {"PhiNodes", N["PhiNodes"]},
      {"LandingPads", N["LandingPads"]},
      {"BasicBlocks", N["BasicBlocks"]},
      {"TotalNumPredecessorBBs", N["TotalNumPredecessorBBs"]},
      {"Branches", N["Branches"]},
      {"MaxPredPerBasicBlock", N["MaxNumPredecessorBBs"]},
      {"MaxSuccPerBasicBlock", N["MaxNumSuccessorBBs"]},
      {"MaxNumOperandsPerInst", N["MaxNumOperands"]},
      {"MaxUsesPerInst", N["MaxNumUses"]},
      {"NumInstWithMultipleUses", N["NumInstWithMultipleUses"]},
      {"NonVoidInsts", N["NonVoidInsts"]},
      {"NumInstsUsedOutsideBB", N["NumInstsUsedOutsideBB"]}};
  for (auto &[Nm, V] : Js)
    PBT_CHECK(C, J[Nm].get<size_t>() == V, "JSON: " + Nm);
  auto Avg = [&](const char *Nm, size_t A, size_t B) {
    PBT_CHECK(C, std::abs(J[Nm].get<double>() - double(A) / double(B)) < 1e-9,
              std::string("JSON: ") + Nm);
  };
  Avg("AvgPredPerBasicBlock", N["TotalNumPredecessorBBs"], N["BasicBlocks"]);
  Avg("AvgSuccPerBasicBlock", N["TotalNumSuccessorBBs"], N["BasicBlocks"]);
  Avg("AvgOperandsPerInst", N["TotalNumOperands"], N["Instructions"]);
  Avg("AvgUsesPerInst", N["TotalNumUses"], N["Instructions"]);
  std::string P;
  llvm::raw_string_ostream PS(P);
  PS << S;
  llvm::SmallVector<llvm::StringRef, 64> Lines;
  llvm::StringRef(PS.str()).split(Lines, '\n');
  const std::map<std::string, std::string> Txt = {
      {"LLVM IR instructions", "Instructions"},
      {"Functions", "Functions"},
      {"External Functions", "ExternalFunctions"},
      {"Function Definitions", "FunctionDefinitions"},
      {"Address-Taken Functions", "AddressTakenFunctions"},
      {"Globals", "Globals"},
      {"Global Constants", "GlobalConsts"},
      {"Global Variables", "GlobalVariables"},
      {"External Globals", "ExternalGlobals"},
      {"Global Definitions", "GlobalsDefinitions"},
      {"Alloca Instructions", "AllocaInstructions"},
      {"Call Sites", "CallSites"},
      {"Indirect Call Sites", "IndirectCallSites"},
      {"Inline Assemblies", "NumInlineAssembly"},
      {"Memory Intrinsics", "MemoryIntrinsics"},
      {"Switches", "Switches"},
      {"GetElementPtrs", "GetElementPtrs"},
      {"Phi Nodes", "PhiNodes"},
      {"LandingPads", "LandingPads"},
      {"Basic Blocks", "BasicBlocks"},
      {"Branches", "Branches"},
      {"Max #pred per BasicBlock", "MaxPredPerBasicBlock"},
      {"Max #succ per BasicBlock", "MaxSuccPerBasicBlock"},
      {"Max #operands per Inst", "MaxNumOperandsPerInst"},
      {"Max #uses per Inst", "MaxUsesPerInst"},
      {"Insts with >1 uses", "NumInstWithMultipleUses"},
      {"Non-void Insts", "NonVoidInsts"},
      {"Insts used outside its BB", "NumInstsUsedOutsideBB"}};
  size_t Found = 0;
  for (auto L : Lines) {
    auto [Nm, V] = L.split(':');
    auto It = Txt.find(Nm.str());
    if (It == Txt.end())
      continue;
    ++Found;
    size_t X;
    PBT_CHECK(C, !V.trim().getAsInteger(10, X) && X == Js.at(It->second),
              "text: " + L.str());
  }
  PBT_CHECK(C, Found == Txt.size(), "lines are missing from the text");
}

void lookups(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  Gen G(C, Ctx);
  G.run();
  auto &M = *G.M;
  describe(C, M);
  PBT_CHECK(C, !llvm::verifyModule(M), "generator");
  LLVMProjectIRDB IRDB(&M);
  BasicBlockOrdering Ord{DefaultDominatorTreeAnalysis{}};
  size_t Pairs = 0;
  for (auto *F : G.Defs) {
    std::vector<const Instruction *> Is, Terms, Sts, Exits;
    std::vector<const Value *> Used;
    for (auto &BB : *F)
      for (auto &I : BB) {
        Is.push_back(&I);
        if (I.isTerminator())
          Terms.push_back(&I);
        if (I.getOpcode() == Instruction::Store)
          Sts.push_back(&I);
        if (I.getOpcode() == Instruction::Ret || I.getOpcode() == Instruction::Resume)
          Exits.push_back(&I);
        for (auto &Op : I.operands())
          if (llvm::isa<llvm::GlobalValue>(Op))
            Used.push_back(Op);
      }
    auto Nth = [&](auto &&Fn, const auto &L, const char *What) {
      for (unsigned X = 0; X < L.size() + 3; ++X) {
        const Value *W = X >= 1 && X <= L.size() ? L[X - 1] : nullptr;
        PBT_CHECK(C, Fn(F, X) == W, pbt::strf("%s %u of ", What, X) + F->getName().str());
      }
    };
    Nth(getNthInstruction, Is, "instruction");
    Nth(getNthTermInstruction, Terms, "terminator");
    Nth(getNthStoreInstruction, Sts, "store");
    PBT_CHECK(C, getLastInstructionOf(F) == Is.back(), "last instruction");
    auto Ex = getAllExitPoints(F);
    PBT_CHECK(C, llvm::makeArrayRef(Ex) == llvm::makeArrayRef(Exits), "exit points");
    PBT_CHECK(C, globalValuesUsedinFunction(F) == Used, "used globals");
    for (unsigned X = 0; X < F->arg_size() + 3; ++X) {
      auto *A = getNthFunctionArgument(F, X);
      PBT_CHECK(C, X < F->arg_size() ? A == F->arg_begin() + X : !A, "argument");
      PBT_CHECK(C, !A || getFunctionArgumentNr(A) == int(X), "argument number");
    }
    for (auto *I : Is) {
      PBT_CHECK(C, isAllocaInstOrHeapAllocaFunction(I) == (G.K.Allocs.count(I) != 0),
                "allocation: " + str(I));
      PBT_CHECK(C, getModuleFromVal(I) == &M, "module");
      for (auto &Op : I->operands())
        if (llvm::isa<llvm::Argument>(Op) || llvm::isa<llvm::GlobalValue>(Op) || llvm::isa<BasicBlock>(Op))
          PBT_CHECK(C, getModuleFromVal(Op) == &M, "module of an operand");
    }
    // order: reachability without passing an instruction
    auto Reach = [&](const Instruction *Avoid) {
      // reachable instructions
      std::set<const Instruction *> R;
      std::vector<const BasicBlock *> WL{&F->getEntryBlock()};
      std::set<const BasicBlock *> Seen{WL[0]};
      while (!WL.empty()) {
        auto *BB = WL.back();
        WL.pop_back();
        bool Cut = false;
        for (auto &I : *BB) {
          R.insert(&I);
          if (&I == Avoid) {
            Cut = true;
            break;
          }
        }
        if (Cut)
          continue;
        for (auto *S : llvm::successors(BB))
          if (Seen.insert(S).second)
            WL.push_back(S);
      }
      return R;
    };
    auto All = Reach(nullptr);
    for (unsigned X = 0; X < 4; ++X) {
      auto *L = Is[C.draw(Is.size())];
      auto R = Reach(L);
      for (auto *I : Is) {
        bool Must = Ord.mustComeBefore(L, I);
        if (L == I) {
          PBT_CHECK(C, !Must, "before itself: " + str(L));
          continue;
        }
        // in unreachable code there is nothing to check
        if (!All.count(I) || !All.count(L))
          continue;
        ++Pairs;
        // before the unwind destination an invoke gives no value
        if (llvm::isa<llvm::InvokeInst>(L) && !Must)
          continue;
        PBT_CHECK(C, Must == !R.count(I),
                  str(L) + (Must ? " need not come before " : " must come before ") + str(I));
      }
    }
    auto *F2 = C.pick(G.Defs);
    if (F2 != F)
      PBT_CHECK(C, !Ord.mustComeBefore(Is[0], &F2->back().back()), "order of two functions");
  }
  // ids: a strict order in which only equal ids are equivalent
  std::vector<const Value *> Vs;
  for (auto &F : M) {
    for (auto &A : F.args())
      Vs.push_back(&A);
    for (auto &I : llvm::instructions(F))
      Vs.push_back(&I);
  }
  for (auto &Gl : M.globals())
    Vs.push_back(&Gl);
  LLVMValueIDLess Less;
  for (unsigned X = 0; X < 30; ++X) {
    auto *A = C.pick(Vs), *B = C.pick(Vs), *D = C.pick(Vs);
    auto IdA = getMetaDataID(A), IdB = getMetaDataID(B);
    PBT_CHECK(C, (A == B) == (IdA == IdB), "one id for two values: " + IdA);
    PBT_CHECK(C, !(Less(A, B) && Less(B, A)), "order of ids is not antisymmetric");
    PBT_CHECK(C, A == B || Less(A, B) || Less(B, A),
              "ids " + IdA + " and " + IdB + " are equivalent");
    PBT_CHECK(C, !(Less(A, B) && Less(B, D)) || Less(A, D), "order of ids is not transitive");
    unsigned NA, NB;
    if (!llvm::StringRef(IdA).getAsInteger(10, NA) && !llvm::StringRef(IdB).getAsInteger(10, NB))
      PBT_CHECK(C, Less(A, B) == (NA < NB), "numeric order of " + IdA + " and " + IdB);
    if (auto *Arg = llvm::dyn_cast<llvm::Argument>(A))
      PBT_CHECK(C, IdA == (Arg->getParent()->getName() + "." + llvm::Twine(Arg->getArgNo())).str(),
                "id of a parameter: " + IdA);
    // the printed form ends in the id
    for (auto &T : {llvmIRToString(A), llvmIRToStableString(A), llvmIRToShortString(A)})
      PBT_CHECK(C, llvm::StringRef(T).endswith(" | ID: " + IdA), "printed form: " + T);
    PBT_CHECK(C, llvm::StringRef(llvmIRToStableString(A)).find('!') == llvm::StringRef::npos,
              "metadata in the stable form");
  }
  // signatures
  auto Same = [](const llvm::FunctionType *A, const llvm::FunctionType *B) {
    if (A->getReturnType() != B->getReturnType() || A->getNumParams() != B->getNumParams())
      return false;
    for (unsigned X = 0; X < A->getNumParams(); ++X)
      if (A->getParamType(X) != B->getParamType(X))
        return false;
    return true;
  };
  auto *A = C.pick(G.Defs), *B = C.pick(G.Defs);
  bool W = Same(A->getFunctionType(), B->getFunctionType());
  PBT_CHECK(C, matchesSignature(A, B->getFunctionType()) == W, "signature");
  PBT_CHECK(C, matchesSignature(A->getFunctionType(), B->getFunctionType()) == W, "signature");
  PBT_CHECK(C, !W || matchesSignature(A, B->getFunctionType(), false), "relaxed signature");
  // i8* parameters accept every pointer, structs every struct
  if (A->getReturnType() == B->getReturnType() && A->arg_size() == B->arg_size()) {
    bool Ok = true;
    for (unsigned X = 0; X < A->arg_size(); ++X) {
      auto *Fm = A->getArg(X)->getType(), *Ac = B->getArg(X)->getType();
      Ok &= Fm == Ac || (Fm == G.I8P && Ac->isPointerTy());
    }
    PBT_CHECK(C, matchesSignature(A, B->getFunctionType(), false) == Ok,
              "relaxed signature of " + str(A) + " called as " + str(B));
  }
  PBT_CHECK(C, !matchesSignature(A, nullptr) && !matchesSignature((const Function *)nullptr, A->getFunctionType()),
            "null signature");
  // hashes
  auto H = computeModuleHash(&M, true), H2 = computeModuleHash(&M, false);
  PBT_CHECK(C, H == computeModuleHash(const_cast<const llvm::Module *>(&M)), "module hash");
  auto Id = M.getModuleIdentifier();
  M.setModuleIdentifier("other");
  PBT_CHECK(C, H2 == computeModuleHash(&M, false) && M.getModuleIdentifier() == "other",
            "the hash without identifier depends on the identifier");
  M.setModuleIdentifier(Id);
  C.nontrivial(Pairs >= 20);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P26";
  P.Subs = {{"statistics",
             "random modules; every number of the module statistics, and its "
             "JSON and text form, is compared with what the generator put into "
             "the module and with naive sums. Non-trivial: six basic blocks, "
             "three calls",
             stats, 60000},
            {"lookups",
             "random modules; n-th instructions, exits, arguments, ids, "
             "signatures and the must-come-before order of instructions are "
             "compared with naive searches. Non-trivial: twenty ordered pairs",
             lookups, 40000}};
  P.Assumptions = {"function names do not start with digits or contain '!' or '#'"};
  return pbt::run(argc, argv, P);
}
