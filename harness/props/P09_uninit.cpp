// BUILD:
// P09: uses of uninitialised values are reported, and in straight-line code
// nothing else.
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"

#include "phasar/PhasarLLVM/Utils/LLVMIRToSrc.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"

#include <map>
#include <set>
#include <tuple>

using namespace psr;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;

namespace {
std::string str(const Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  return OS.str();
}

// instructions that only pass values on
bool silent(const Instruction *I) {
  return llvm::isa<llvm::StoreInst>(I) || llvm::isa<llvm::AllocaInst>(I) ||
         llvm::isa<llvm::GetElementPtrInst>(I) || llvm::isa<llvm::CastInst>(I) ||
         llvm::isa<llvm::PHINode>(I) || llvm::isa<llvm::CallBase>(I) ||
         llvm::isa<llvm::ReturnInst>(I) || llvm::isa<llvm::LandingPadInst>(I);
}

std::string line1(const Value *V) {
  return llvm::StringRef(llvmIRToString(V)).split('\n').first.str();
}

// The text report lists every use, with debug information grouped by location.
template <typename R>
void report(pbt::Ctx &C, IFDSUninitializedVariables &P, const R &Res, bool Dbg) {
  using Uses = std::set<std::pair<std::string, std::string>>;
  using Loc = std::tuple<unsigned, std::string, std::string>;
  std::map<Loc, std::pair<Uses, std::set<std::string>>> Want, Got;
  for (auto &[I, Vs] : P.getAllUndefUses()) {
    Loc L;
    auto *Sub = I->getFunction()->getSubprogram();
    if (Dbg)
      L = {I->getDebugLoc() ? I->getDebugLoc().getLine() : 0,
           I->getFunction()->getName().str(), Sub ? "/gen.c" : "gen"};
    else // one entry per instruction
      L = {Want.size(), I->getFunction()->getName().str(), ""};
    auto &W = Want[L];
    for (auto *V : Vs) {
      W.first.insert({line1(I), line1(V)});
      if (auto Name = getVarNameFromIR(V); !Name.empty()) // decided by P32
        W.second.insert(Name);
    }
  }
  std::string Text;
  {
    llvm::raw_string_ostream OS(Text);
    P.emitTextReport(Res, OS);
  }
  llvm::SmallVector<llvm::StringRef> Lines;
  llvm::StringRef(Text).split(Lines, '\n');
  unsigned Total = ~0u, N = 0;
  Loc L;
  std::string At;
  std::set<std::string> Vars;
  bool None = false;
  std::vector<std::pair<Loc, std::pair<Uses, std::set<std::string>>>> Es;
  for (auto X : Lines) {
    None |= X.startswith("No uses of");
    if (X.startswith("Total uses of"))
      X.rsplit(": ").second.getAsInteger(10, Total);
    if (X.contains(". Use  ---")) {
      ++N;
      Es.push_back({});
      std::get<0>(Es.back().first) = Dbg ? 0 : N - 1;
    }
    if (Es.empty())
      continue;
    auto &E = Es.back();
    if (X.consume_front("Variable(s): ")) {
      llvm::SmallVector<llvm::StringRef> Vs;
      X.split(Vs, ", ");
      for (auto V : Vs)
        if (!V.empty() && !V.startswith("Line "))
          E.second.second.insert(V.str());
    }
    if (auto K = X.find("Line       : "); K != llvm::StringRef::npos)
      X.drop_front(K + 13).getAsInteger(10, std::get<0>(E.first));
    else if (X.consume_front("Function   : ") ||
             X.consume_front("    in function: "))
      std::get<1>(E.first) = X.str();
    else if (X.consume_front("File       : "))
      std::get<2>(E.first) = X.str();
    else if (X.consume_front("At IR Statement: ") ||
             X.consume_front("At IR statement: "))
      At = X.str();
    else if (X.consume_front("   Uninit Value: "))
      E.second.first.insert({At, X.str()});
  }
  for (auto &[L, E] : Es) {
    PBT_CHECK(C, !Got.count(L), "a location is reported twice:\n" + Text);
    Got[L] = E;
  }
  PBT_CHECK(C, None == Want.empty(), "nothing found? " + Text);
  if (!None)
    PBT_CHECK(C, Total == Want.size(), "wrong total:\n" + Text);
  C.label(Dbg ? "report by location" : "report by instruction");
  if (Dbg) {
    PBT_CHECK(C, Got.size() == Want.size(), "number of locations:\n" + Text);
    for (auto &[L, W] : Want) {
      PBT_CHECK(C, Got.count(L),
                pbt::strf("no entry for line %u of ", std::get<0>(L)) +
                    std::get<1>(L) + ":\n" + Text);
      PBT_CHECK(C, Got[L].first == W.first,
                pbt::strf("uses at line %u of ", std::get<0>(L)) +
                    std::get<1>(L) + ":\n" + Text);
      PBT_CHECK(C, Got[L].second == W.second,
                pbt::strf("variables at line %u of ", std::get<0>(L)) +
                    std::get<1>(L) + ":\n" + Text);
    }
    return;
  }
  std::set<std::pair<std::string, Uses>> A, B;
  for (auto &[L, W] : Want)
    A.insert({std::get<1>(L), W.first});
  for (auto &[L, W] : Got)
    B.insert({std::get<1>(L), W.first});
  PBT_CHECK(C, A == B, "other uses in the report:\n" + Text);
}

void check(pbt::Ctx &C, llvm::Module &M, bool Precise) {
  LLVMProjectIRDB IRDB(&M);
  LLVMAliasSet PT(&IRDB, false);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, nullptr, &PT,
                    Soundness::Soundy, false);
  IFDSUninitializedVariables P(&IRDB, {"main"});
  IFDSSolver S(P, &ICF);
  S.solve();

  if (C.chance(1, 3))
    report(C, P, S.getSolverResults(), M.getNamedMetadata("llvm.dbg.cu"));
  std::set<std::pair<const Instruction *, const Value *>> Rep, Dyn;
  for (auto &[I, Vs] : P.getAllUndefUses())
    for (auto *V : Vs)
      Rep.insert({I, V});
  bool Cut = false;
  size_t Uses = 0;
  for (unsigned Run = 0; Run < (Precise ? 1 : 4); ++Run) {
    interp::Machine X(M);
    X.MaxSteps = Precise ? 4000 : 500;
    X.OnInst = [&](interp::Frame &F, interp::Inst I) {
      if (silent(I))
        return;
      for (auto &Op : I->operands()) {
        auto *V = Op.get();
        if (llvm::isa<llvm::UndefValue>(V)) {
          Dyn.insert({I, V});
          continue;
        }
        if (!llvm::isa<Instruction>(V) && !llvm::isa<llvm::Argument>(V))
          continue;
        auto It = F.R.find(V);
        if (It == F.R.end())
          continue;
        ++Uses;
        bool U = It->second.U;
        if (llvm::isa<llvm::LoadInst>(I))
          U |= X.loadMem(It->second.B, 4).U;
        if (U)
          Dyn.insert({I, V});
      }
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *CS, const Function *F,
                   std::vector<interp::Val> &A) {
      interp::Val V;
      if (CS->getType()->isIntegerTy())
        V.B = uint32_t(C.range(-2, 4));
      if (F->getName() == "get") // writes its argument
        X.storeMem(A[0].B, 4, {uint32_t(C.range(-2, 4))});
      return V;
    };
    try {
      X.run(M.getFunction("main"), {});
    } catch (interp::Stop) {
      Cut = true;
    } catch (interp::Throw) {
    }
  }
  if (Precise && Cut)
    C.discard();
  C.nontrivial(!Dyn.empty() && Dyn.size() < Uses);
  for (auto &[I, V] : Dyn) {
    if (Rep.count({I, V}))
      continue;
    // one report per instruction and fact: undef operands come first
    bool Other = false;
    for (auto &Op : I->operands())
      Other |= Op.get() != V && llvm::isa<llvm::UndefValue>(Op) &&
               Rep.count({I, Op.get()});
    if (!Other)
      C.fail("not reported: " + str(V) + " at " + str(I));
  }
  for (auto &[I, V] : Rep) {
    PBT_CHECK(C, !silent(I), "report at " + str(I));
    if (Precise)
      PBT_CHECK(C, Dyn.count({I, V}), "impossible report: " + str(V) + " at " + str(I));
  }
}

struct Ext {
  pbt::Ctx &C;
  bool Undefs, Indirect;
  llvm::Function *H[2] = {};

  llvm::Function *helper(irgen::Gen &G, const char *Name) {
    auto *F = Function::Create(
        llvm::FunctionType::get(G.Void, {G.I32P, G.I32}, false),
        Function::InternalLinkage, Name, *G.M);
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(G.Ctx, "entry", F));
    Value *V = nullptr;
    for (unsigned N = 1 + C.draw(3); N; --N) {
      switch (C.draw(4)) {
      case 0:
        V = B.CreateLoad(G.I32, F->getArg(0));
        break;
      case 1:
        V = B.CreateAdd(V && C.flip() ? V : F->getArg(1), G.smallNum());
        break;
      case 2:
        B.CreateStore(V && C.flip() ? V : F->getArg(1), F->getArg(0));
        break;
      case 3:
        B.CreateStore(G.smallNum(), F->getArg(0));
        break;
      }
    }
    B.CreateRetVoid();
    return F;
  }
  void operator()(irgen::Gen &G) {
    auto &B = G.B;
    if (G.Ints.empty())
      return;
    switch (C.draw(8)) {
    case 6:
    case 7: { // variables of other types
      llvm::Type *Ts[] = {B.getInt8Ty(),  B.getInt64Ty(),   B.getFloatTy(),
                          B.getDoubleTy(), B.getInt8PtrTy(), G.I32P};
      auto &EB = G.F->getEntryBlock();
      llvm::AllocaInst *A = nullptr;
      if (C.flip())
        for (auto &I : EB)
          if (auto *X = llvm::dyn_cast<llvm::AllocaInst>(&I))
            if (llvm::is_contained(Ts, X->getAllocatedType()))
              A = X;
      if (!A) {
        llvm::IRBuilder<> IB(&EB, EB.begin());
        A = IB.CreateAlloca(Ts[C.draw(6)]);
      }
      auto *T = A->getAllocatedType();
      switch (C.draw(3)) {
      case 0:
        B.CreateStore(llvm::Constant::getNullValue(T), A);
        break;
      case 1: {
        auto *L = B.CreateLoad(T, A);
        if (T->isIntegerTy())
          G.useResult(B.CreateSExtOrTrunc(L, G.I32));
        else if (T->isFloatingPointTy())
          G.useResult(B.CreateBitCast(B.CreateFPCast(L, B.getFloatTy()), G.I32));
        break;
      }
      case 2: // copy
        B.CreateStore(B.CreateLoad(T, A), A);
        break;
      }
      break;
    }
    case 0:
      B.CreateCall(G.ext("get", G.Void, {G.I32P}), {C.pick(G.Ints)});
      break;
    case 1:
      if (H[0])
        B.CreateCall(H[C.draw(2)], {C.pick(G.Ints), G.intRV()});
      break;
    case 2: // the same, through a pointer
      if (H[0] && Indirect) {
        auto *T = H[0]->getType();
        llvm::IRBuilder<> EB(&*G.F->getEntryBlock().begin());
        auto *A = EB.CreateAlloca(T);
        B.CreateStore(H[C.draw(2)], A);
        auto *L = B.CreateLoad(T, A);
        B.CreateCall(H[0]->getFunctionType(), L, {C.pick(G.Ints), G.intRV()});
      }
      break;
    case 3:
      if (Undefs) {
        auto *U = llvm::UndefValue::get(G.I32);
        if (C.flip())
          B.CreateStore(U, C.pick(G.Ints));
        else
          G.useResult(B.Insert(llvm::BinaryOperator::CreateAdd(
              C.flip() ? U : G.intRV(), C.flip() ? U : G.intRV())));
      }
      break;
    default: { // forget: a conditional or plain initialisation
      B.CreateStore(G.intRV(), C.pick(G.Ints));
      break;
    }
    }
  }
};

void go(pbt::Ctx &C, irgen::Opts O, bool Precise) {
  O.Ptrs = false;
  O.Globals = false;
  O.UninitLocals = true;
  O.Mem2RegOf = 0;
  O.MaxInts = 5;
  O.ExtraWeight = C.chance(3, 4) ? 5 : 0;
  O.Dbg = C.chance(1, 4);
  llvm::LLVMContext Ctx;
  irgen::Gen G(C, O, Ctx);
  Ext E{C, C.chance(1, 3), !Precise};
  if (O.ExtraWeight && C.flip()) {
    E.H[0] = E.helper(G, "h1");
    E.H[1] = E.helper(G, "h2");
  }
  G.Extra = [&E](irgen::Gen &G) { E(G); };
  auto M = G.run();
  if (O.Dbg) { // few lines, shared by several instructions
    for (auto &F : *M)
      for (auto &I : llvm::instructions(F))
        if (F.getSubprogram())
          I.setDebugLoc(llvm::DILocation::get(Ctx, 1 + C.draw(4), 1 + C.draw(3),
                                              F.getSubprogram()));
  }
  C.describe(irgen::print(*M));
  check(C, *M, Precise);
}

void sound(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxBlocks = 5;
  O.Arrays = C.chance(1, 3);
  O.Ternary = O.Select = O.Casts = C.chance(1, 3);
  O.Invokes = C.chance(1, 3);
  O.FnPtrs = C.chance(1, 4);
  go(C, O, false);
}

void precise(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxBlocks = 1;
  O.MaxStmts = 14;
  O.Recursion = false;
  O.Loops = false;
  go(C, O, true);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P09";
  P.Subs = {{"sound",
             "random programs are executed with definedness tracking; every "
             "use of an undefined value has to be reported. Non-trivial: some "
             "uses are undefined and some are not",
             sound, 40000},
            {"precise",
             "random straight-line programs with calls by value and by "
             "reference: exactly the undefined uses are reported. Non-trivial: "
             "some uses are undefined and some are not",
             precise, 20000}};
  P.Assumptions = {"no aliases within a function: cells are locals, used by "
                   "name or through one reference parameter",
                   "external functions initialise what their pointer arguments "
                   "point to"};
  return pbt::run(argc, argv, P);
}
