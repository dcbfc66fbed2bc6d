// BUILD:
// P07: constants reported by the linear constant analysis are the values the
// program computes.
#include "interp.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/SourceMgr.h"

#include <set>

using namespace psr;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;

namespace {
std::string str(const Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  return OS.str();
}

struct Seen {
  bool Many = false;
  int64_t V = 0;
};

// what is the concrete integer behind this fact now?
bool concrete(interp::Machine &X, interp::Frame &F, const Value *Fact,
              int64_t &Out, bool *Opaque = nullptr) {
  auto Mem = [&](uint64_t A, unsigned N) {
    auto *O = X.objAt(A);
    if (!O || O->Freed || A + N > O->Base + O->Size)
      return false;
    int64_t R = 0;
    for (unsigned K = 0; K < N; ++K) {
      if (X.MU[A - X.Lo + K])
        return false;
      if (Opaque && X.MT[A - X.Lo + K])
        *Opaque = true;
      R |= int64_t(X.Mem[A - X.Lo + K]) << (8 * K);
    }
    Out = R;
    return true;
  };
  if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(Fact)) {
    if (!G->getValueType()->isIntegerTy())
      return false;
    unsigned N = G->getValueType()->getIntegerBitWidth();
    return Mem(X.GAddr[G], N / 8) && (Out = llvm::SignExtend64(Out, N), true);
  }
  if (!llvm::isa<Instruction>(Fact) && !llvm::isa<llvm::Argument>(Fact))
    return false;
  auto It = F.R.find(Fact);
  if (It == F.R.end() || It->second.U)
    return false;
  if (Opaque && It->second.T)
    *Opaque = true;
  auto *T = Fact->getType();
  if (llvm::isa<llvm::BinaryOpIntrinsic>(Fact) && T->isStructTy())
    T = T->getStructElementType(0);
  if (T->isIntegerTy()) {
    Out = llvm::SignExtend64(It->second.B, T->getIntegerBitWidth());
    return true;
  }
  if (auto *PT = llvm::dyn_cast<llvm::PointerType>(T)) {
    auto *E = PT->getNonOpaquePointerElementType();
    if (!E->isIntegerTy())
      return false;
    unsigned N = E->getIntegerBitWidth();
    return Mem(It->second.B, N / 8) && (Out = llvm::SignExtend64(Out, N), true);
  }
  return false;
}

int64_t externInt(pbt::Ctx &C) { return C.range(-2, 4); }

void check(pbt::Ctx &C, llvm::Module &M, bool Precise) {
  LLVMProjectIRDB IRDB(&M);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::CHA, {"main"}, nullptr,
                    nullptr, Soundness::Soundy, false);
  IDELinearConstantAnalysis P(&IRDB, &ICF, {"main"});
  IDESolver S(P, &ICF);
  S.solve();

  std::string Bad;
  size_t Consts = 0, Missed = 0;
  std::string Miss;
  // all values seen of a fact at an instruction
  std::map<std::pair<const Instruction *, const Value *>, Seen> Obs;
  std::map<const Function *, std::set<unsigned>> Acts;
  for (unsigned Run = 0; Run < (Precise ? 1 : 3) && Bad.empty(); ++Run) {
    interp::Machine X(M);
    X.MaxSteps = Precise ? 4000 : 600;
    X.OnInst = [&](interp::Frame &F, interp::Inst I) {
      if (llvm::isa<llvm::PHINode>(I) && I != &I->getParent()->front())
        return; // evaluated in parallel
      for (auto &[Fact, V] : S.resultsAt(I, true)) {
        int64_t Is;
        if (!concrete(X, F, Fact, Is))
          continue;
        if (V.isTop()) {
          Bad = "TOP for " + str(Fact) + " at the executed " + str(I);
          throw interp::Stop{};
        }
        if (auto *K = V.getValueOrNull()) {
          ++Consts;
          if (*K != Is) {
            Bad = pbt::strf("claimed %lld, is %lld: ", (long long)*K,
                            (long long)Is) +
                  str(Fact) + " at " + str(I);
            throw interp::Stop{};
          }
        }
      }
      if (Precise) {
        Acts[F.F].insert(F.Act);
        for (auto &Op : I->operands()) {
          int64_t Is = 0;
          if (llvm::isa<llvm::Constant>(Op) &&
              !llvm::isa<llvm::GlobalVariable>(Op))
            continue;
          bool Opaque = false;
          if (!concrete(X, F, Op, Is, &Opaque))
            Opaque = true;
          auto [It, New] = Obs.try_emplace({I, Op}, Seen{Opaque, Is});
          if (Opaque || (!New && It->second.V != Is))
            It->second.Many = true;
        }
      }
    };
    // results that are not linear in one variable: marked with a taint label
    X.AfterInst = [&](interp::Frame &F, interp::Inst I) {
      if (auto *B = llvm::dyn_cast<llvm::BinaryOperator>(I))
        if ((!llvm::isa<llvm::Constant>(B->getOperand(0)) &&
             !llvm::isa<llvm::Constant>(B->getOperand(1))) ||
            B->isShift() || B->getType()->getIntegerBitWidth() == 64)
          F.R[I].T |= 1;
      if (auto *B = llvm::dyn_cast<llvm::BinaryOpIntrinsic>(I))
        if (!llvm::isa<llvm::Constant>(B->getLHS()) &&
            !llvm::isa<llvm::Constant>(B->getRHS()))
          F.R[I].T |= 1;
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *CS, const Function *,
                   std::vector<interp::Val> &) {
      interp::Val V;
      if (CS->getType()->isIntegerTy())
        V.B = uint64_t(externInt(C));
      return V;
    };
    std::vector<interp::Val> Args;
    for (auto &A : M.getFunction("main")->args()) {
      interp::Val V;
      if (A.getType()->isIntegerTy())
        V.B = uint32_t(externInt(C));
      Args.push_back(V);
    }
    try {
      X.run(M.getFunction("main"), Args);
    } catch (interp::Stop) {
      if (Precise)
        C.discard(); // not all contexts were seen
    } catch (interp::Throw) {
    }
  }
  if (Precise)
    for (auto &[K, V] : Obs) {
      // values of several contexts are joined: 0 * BOTTOM is not folded
      if (V.Many || Acts[K.first->getFunction()].size() > 1)
        continue;
      auto R = S.resultAt(K.first, K.second);
      auto *Is = R.getValueOrNull();
      if (!Is || *Is != V.V) {
        std::string T;
        llvm::raw_string_ostream OS(T);
        OS << R;
        Bad = pbt::strf("not recognised as %lld but ", (long long)V.V) +
              OS.str() + ": " + str(K.second) + " at " + str(K.first);
      }
    }
  C.nontrivial(Precise ? Obs.size() >= 12 : Consts >= 10);
  PBT_CHECK(C, Bad.empty(), Bad);
}


using BO = Instruction::BinaryOps;

// programs in which every integer is tracked by the analysis: it does not
// model the results of external functions, casts, selects and phis (a known
// finding), and cells are accessed through one name only (no aliases)
struct Ext {
  pbt::Ctx &C;
  bool Ptr, Wide, Ovf, Arr, Branch;
  llvm::Function *H = nullptr, *H2 = nullptr;
  std::map<llvm::Function *, std::vector<std::pair<Value *, unsigned>>> Wides;
  std::map<llvm::Function *, std::vector<Value *>> Geps;

  // void h(i32* p): *p = op(*p)
  llvm::Function *helper(irgen::Gen &G, const char *Name) {
    auto *F = Function::Create(
        llvm::FunctionType::get(G.Void, {G.I32P, G.I32}, false),
        Function::InternalLinkage, Name, *G.M);
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(G.Ctx, "entry", F));
    Value *V = nullptr;
    if (Branch && C.chance(1, 3)) { // two functions of the same argument
      auto *L = llvm::BasicBlock::Create(G.Ctx, "l", F);
      auto *R = llvm::BasicBlock::Create(G.Ctx, "r", F);
      auto *E = llvm::BasicBlock::Create(G.Ctx, "e", F);
      auto *X = F->getArg(1);
      auto *Cnd = C.flip() ? (Value *)X : B.CreateLoad(G.I32, F->getArg(0));
      B.CreateCondBr(B.CreateICmpSGT(Cnd, G.smallNum()), L, R);
      auto Op = C.pick(std::vector<BO>{BO::Add, BO::Mul, BO::Sub});
      for (auto *BB : {L, R}) {
        B.SetInsertPoint(BB);
        auto *K = G.smallNum();
        bool Sw = C.chance(1, 4);
        B.CreateStore(C.chance(1, 6) ? X
                                     : B.CreateBinOp(Op, Sw ? (Value *)K : X,
                                                     Sw ? (Value *)X : K),
                      F->getArg(0));
        B.CreateBr(E);
      }
      B.SetInsertPoint(E);
    }
    for (unsigned N = 1 + C.draw(3); N; --N) {
      switch (C.draw(4)) {
      case 0:
        V = B.CreateLoad(G.I32, F->getArg(0));
        break;
      case 1:
        V = B.CreateBinOp(C.pick(std::vector<BO>{BO::Add, BO::Mul, BO::Sub}),
                          V && C.flip() ? V : F->getArg(1), G.smallNum());
        break;
      case 2:
        B.CreateStore(V && C.flip() ? V : F->getArg(1), F->getArg(0));
        break;
      case 3:
        B.CreateStore(G.smallNum(), F->getArg(0));
        break;
      }
    }
    B.CreateRetVoid();
    return F;
  }
  void operator()(irgen::Gen &G) {
    auto &B = G.B;
    switch (C.draw(4)) {
    case 0: // pass a local by reference
      if (Ptr && H) {
        B.CreateCall(C.flip() ? H : H2, {C.pick(G.Ints), G.intRV()});
        return;
      }
      break;
    case 1: { // arithmetic of another width in its own variable
      if (!Wide)
        break;
      auto &W = Wides[G.F];
      if (W.empty() || C.chance(1, 4)) {
        unsigned N = C.pick(std::vector<unsigned>{8, 16, 64});
        auto *T = B.getIntNTy(N);
        llvm::IRBuilder<> EB(&*G.F->getEntryBlock().begin());
        auto *A = EB.CreateAlloca(T);
        EB.SetInsertPoint(G.F->getEntryBlock().getTerminator());
        EB.CreateStore(llvm::ConstantInt::getSigned(T, C.interesting64()), A);
        W.push_back({A, N});
      }
      auto [A, N] = C.pick(W);
      auto *T = B.getIntNTy(N);
      Value *V = B.CreateLoad(T, A);
      for (unsigned K = C.draw(3); K; --K) {
        static const BO Ops[] = {BO::Add,  BO::Sub,  BO::Mul, BO::Xor, BO::And,
                                 BO::Or,   BO::SDiv, BO::UDiv, BO::SRem,
                                 BO::URem, BO::Shl,  BO::LShr, BO::AShr};
        auto *K2 = llvm::ConstantInt::getSigned(
            T, C.flip() ? C.interesting64() : C.range(-3, 9));
        auto Op = Ops[C.draw(13)];
        V = C.chance(1, 3) ? B.CreateBinOp(Op, K2, V) : B.CreateBinOp(Op, V, K2);
      }
      B.CreateStore(V, A);
      return;
    }
    case 2: { // overflow intrinsic
      if (!Ovf)
        break;
      static const llvm::Intrinsic::ID Is[] = {
          llvm::Intrinsic::sadd_with_overflow, llvm::Intrinsic::ssub_with_overflow,
          llvm::Intrinsic::smul_with_overflow, llvm::Intrinsic::uadd_with_overflow};
      Value *L = B.CreateLoad(G.I32, C.pick(G.Ints)), *R = G.smallNum();
      if (C.chance(1, 4))
        std::swap(L, R);
      if (C.chance(1, 5))
        L = G.smallNum(), R = G.smallNum();
      else if (C.chance(1, 5))
        R = B.CreateLoad(G.I32, C.pick(G.Ints));
      auto *X = B.CreateBinaryIntrinsic(Is[C.draw(4)], L, R);
      auto *V = B.CreateExtractValue(X, 0);
      B.CreateStore(V, C.pick(G.Ints));
      return;
    }
    case 3: { // one name per array element
      if (!Arr)
        break;
      auto &V = Geps[G.F];
      if (V.empty()) {
        auto *AT = llvm::ArrayType::get(G.I32, 3);
        llvm::IRBuilder<> EB(&*G.F->getEntryBlock().begin());
        auto *A = EB.CreateAlloca(AT);
        EB.SetInsertPoint(G.F->getEntryBlock().getTerminator());
        for (int K = 0; K < 3; ++K) {
          V.push_back(EB.CreateInBoundsGEP(AT, A, {G.num(0), G.num(K)}));
          if (C.flip())
            EB.CreateStore(G.smallNum(), V.back());
        }
      }
      if (C.flip())
        B.CreateStore(G.intRV(), C.pick(V));
      else
        B.CreateStore(B.CreateLoad(G.I32, C.pick(V)), C.pick(G.Ints));
      return;
    }
    }
  }
};

std::unique_ptr<llvm::Module> module(pbt::Ctx &C, llvm::LLVMContext &Ctx,
                                     irgen::Opts O) {
  O.Ptrs = false;
  O.Externs = false;
  O.Mem2RegOf = 0;
  O.ExtraWeight = C.flip() ? 5 : 0;
  Ext E{C, C.flip(), C.flip(), C.chance(1, 3), C.chance(1, 3), O.MaxBlocks > 1};
  irgen::Gen G(C, O, Ctx);
  if (E.Ptr && O.ExtraWeight) {
    E.H = E.helper(G, "h1");
    E.H2 = E.helper(G, "h2");
  }
  G.Extra = [&E](irgen::Gen &G) { E(G); };
  auto M = G.run();
  C.describe(irgen::print(*M));
  return M;
}

void sound(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxFuns = 4;
  O.MaxBlocks = 5;
  O.UninitLocals = C.chance(1, 4);
  O.ConstGlobals = false;
  O.Ops = {BO::Add,  BO::Sub,  BO::Mul,  BO::Xor,  BO::And, BO::Or,
           BO::SDiv, BO::UDiv, BO::SRem, BO::URem, BO::Shl, BO::LShr, BO::AShr};
  llvm::LLVMContext Ctx;
  auto M = module(C, Ctx, O);
  check(C, *M, false);
}

void precise(pbt::Ctx &C) {
  irgen::Opts O;
  O.MaxFuns = 4;
  O.MaxBlocks = 1;
  O.MaxStmts = 14;
  O.Recursion = false;
  O.Loops = false;
  O.Ops = {BO::Add,  BO::Sub,  BO::Mul,  BO::Xor,  BO::And, BO::Or,
           BO::SDiv, BO::UDiv, BO::SRem, BO::URem, BO::Shl, BO::LShr, BO::AShr};
  llvm::LLVMContext Ctx;
  auto M = module(C, Ctx, O);
  check(C, *M, true);
}

bool untrackedStillFails() {
  const char *T = R"(
declare i32 @input()
define i32 @main() {
entry:
  %x = alloca i32
  store i32 1, i32* %x
  br label %loop
loop:
  %u = load i32, i32* %x
  %i = call i32 @input()
  store i32 %i, i32* %x
  %c = icmp eq i32 %u, 7
  br i1 %c, label %end, label %loop
end:
  ret i32 %u
}
)";
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(T, Err, Ctx);
  if (!M)
    abort();
  LLVMProjectIRDB IRDB(M.get());
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::CHA, {"main"}, nullptr,
                    nullptr, Soundness::Soundy, false);
  IDELinearConstantAnalysis P(&IRDB, &ICF, {"main"});
  IDESolver S(P, &ICF);
  S.solve();
  auto *F = M->getFunction("main");
  auto *X = &F->getEntryBlock().front();
  auto *Ret = F->back().getTerminator();
  auto R = S.resultAt(Ret, X);
  return !R.isBottom();
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P07";
  P.Subs = {{"sound",
             "random programs over tracked integers; every constant claimed at "
             "an instruction is compared with the value in executions. "
             "Non-trivial: at least ten comparisons with a constant",
             sound, 40000},
            {"precise",
             "random straight-line programs with calls: operands that are "
             "linear in constants, in functions that are entered once, are "
             "recognised as exactly that constant. Non-trivial: at least a dozen "
             "such operands",
             precise, 20000}};
  P.Knowns = {{"P07-untracked",
               "a variable overwritten with an unknown value in a loop is "
               "reported to be constant",
               untrackedStillFails}};
  P.Assumptions = {
      "every integer is modelled by the analysis (no external results, phis, "
      "selects, casts); every cell has one name per function",
      "external functions do not write to memory"};
  return pbt::run(argc, argv, P);
}
