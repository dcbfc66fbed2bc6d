// BUILD:
// P21: path queries report every path an execution can take to the queried
// statement with the queried fact, and only feasible, call-valid paths.
#include "pbt.h"
#include "solver_gen.h"

#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityConfig.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitvityManager.h"

#include "z3++.h"

#include <algorithm>
#include <filesystem>
#include <functional>
#include <set>
#include <unistd.h>

using namespace psr;
using llvm::BasicBlock;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;
using sg::Inst;
using Path = std::vector<Inst>;

namespace {
struct Scratch {
  char Old[4096], Dir[64] = "/tmp/p21.XXXXXX";
  Scratch() {
    if (!getcwd(Old, sizeof Old) || !mkdtemp(Dir) || chdir(Dir))
      abort();
  }
  ~Scratch() {
    if (chdir(Old))
      abort();
    std::error_code EC;
    std::filesystem::remove_all(Dir, EC);
  }
};

// ---- conditions
struct Ex {
  enum K { Const, Var, Call, Bin, SExt } Kind = Const;
  int64_t C = 0;
  const Value *Key = nullptr; // Var/Call: the input
  int Op = 0;
  std::shared_ptr<Ex> A, B;
};
using ExP = std::shared_ptr<Ex>;
struct Cond {
  llvm::CmpInst::Predicate P = llvm::CmpInst::ICMP_EQ;
  ExP A, B;
  bool Bool = false; // trunc of a loaded bool
  const Value *BKey = nullptr;
};
using Inputs = std::map<const Value *, int64_t>;

bool fits(int64_t V) { return V >= INT32_MIN && V <= INT32_MAX; }
int64_t eval(const ExP &E, Inputs &In, bool &Ovf) {
  switch (E->Kind) {
  case Ex::Const:
    return E->C;
  case Ex::Var:
  case Ex::Call:
    return In.at(E->Key);
  case Ex::SExt:
    return eval(E->A, In, Ovf);
  case Ex::Bin: {
    int64_t A = eval(E->A, In, Ovf), B = eval(E->B, In, Ovf), R = 0;
    switch (E->Op) {
    case Instruction::Add:
      R = A + B;
      break;
    case Instruction::Sub:
      R = A - B;
      break;
    case Instruction::Mul:
      R = A * B;
      break;
    case Instruction::SDiv:
      R = A / B;
      break;
    case Instruction::SRem:
      R = A % B;
      break;
    }
    if (!fits(R))
      Ovf = true;
    return R;
  }
  }
  abort();
}
bool evalC(const Cond &C, Inputs &In, bool &Ovf) {
  if (C.Bool)
    return In.at(C.BKey) & 1;
  int64_t A = eval(C.A, In, Ovf), B = eval(C.B, In, Ovf);
  uint32_t UA = A, UB = B;
  switch (C.P) {
  case llvm::CmpInst::ICMP_EQ:
    return A == B;
  case llvm::CmpInst::ICMP_NE:
    return A != B;
  case llvm::CmpInst::ICMP_SLT:
    return A < B;
  case llvm::CmpInst::ICMP_SLE:
    return A <= B;
  case llvm::CmpInst::ICMP_SGT:
    return A > B;
  case llvm::CmpInst::ICMP_SGE:
    return A >= B;
  case llvm::CmpInst::ICMP_ULT:
    return UA < UB;
  case llvm::CmpInst::ICMP_ULE:
    return UA <= UB;
  case llvm::CmpInst::ICMP_UGT:
    return UA > UB;
  case llvm::CmpInst::ICMP_UGE:
    return UA >= UB;
  default:
    abort();
  }
}
struct Enc {
  z3::context Z;
  std::map<const Value *, std::string> N;
  z3::expr var(const Value *K) {
    auto &S = N[K];
    if (S.empty())
      S = "k" + std::to_string(N.size());
    return Z.int_const(S.c_str());
  }
  z3::expr enc(const ExP &E) {
    switch (E->Kind) {
    case Ex::Const:
      return Z.int_val((int64_t)E->C);
    case Ex::Var:
    case Ex::Call:
      return var(E->Key);
    case Ex::SExt:
      return enc(E->A);
    case Ex::Bin: {
      auto A = enc(E->A), B = enc(E->B);
      switch (E->Op) {
      case Instruction::Add:
        return A + B;
      case Instruction::Sub:
        return A - B;
      case Instruction::Mul:
        return A * B;
      default: {
        auto Q = z3::ite(A >= 0, A / B, -((-A) / B));
        return E->Op == Instruction::SDiv ? Q : A - B * Q;
      }
      }
    }
    }
    abort();
  }
  z3::expr enc(const Cond &C) {
    if (C.Bool)
      return z3::mod(var(C.BKey), 2) == 1;
    auto A = enc(C.A), B = enc(C.B);
    auto U = [&](z3::expr X) {
      return z3::ite(X < 0, X + Z.int_val((int64_t)1 << 32), X);
    };
    switch (C.P) {
    case llvm::CmpInst::ICMP_EQ:
      return A == B;
    case llvm::CmpInst::ICMP_NE:
      return A != B;
    case llvm::CmpInst::ICMP_SLT:
      return A < B;
    case llvm::CmpInst::ICMP_SLE:
      return A <= B;
    case llvm::CmpInst::ICMP_SGT:
      return A > B;
    case llvm::CmpInst::ICMP_SGE:
      return A >= B;
    case llvm::CmpInst::ICMP_ULT:
      return U(A) < U(B);
    case llvm::CmpInst::ICMP_ULE:
      return U(A) <= U(B);
    case llvm::CmpInst::ICMP_UGT:
      return U(A) > U(B);
    case llvm::CmpInst::ICMP_UGE:
      return U(A) >= U(B);
    default:
      abort();
    }
  }
};

struct Opt {
  bool Switches, Helper, HelperTwice, Unsigned, Div, Dbg, Bools, Unnamed,
      Calls;
};

struct G {
  pbt::Ctx &C;
  Opt O;
  sg::Prog P;
  std::unique_ptr<llvm::Module> M;
  llvm::IRBuilder<> B;
  llvm::IntegerType *I32, *I8;
  Function *Ext, *Main = nullptr, *Help = nullptr;
  llvm::GlobalVariable *Mark;
  std::map<Inst, Cond> Conds;           // conditional branches
  std::map<Inst, const Value *> SwKeys; // switches
  std::set<const Value *> Keys;
  std::vector<int64_t> Pool{-2, -1, 0, 1, 2, 3};
  std::map<Inst, int> Gens, Kills;
  std::vector<Inst> HelpCalls, ExtCalls;
  std::vector<Value *> Vars, BoolVars;
  std::unique_ptr<llvm::DIBuilder> DB;
  llvm::DIFile *File = nullptr;
  llvm::DIBasicType *IntTy = nullptr;

  G(pbt::Ctx &C, Opt O)
      : C(C), O(O), M(std::make_unique<llvm::Module>("m", P.Ctx)), B(P.Ctx) {
    P.Ctx.enableOpaquePointers();
    I32 = B.getInt32Ty();
    I8 = B.getInt8Ty();
    Ext = Function::Create(llvm::FunctionType::get(I32, false),
                           llvm::GlobalValue::ExternalLinkage, "input", *M);
    Mark = new llvm::GlobalVariable(*M, I32, false,
                                    llvm::GlobalValue::ExternalLinkage,
                                    llvm::ConstantInt::get(I32, 0), "mark");
    if (O.Dbg) {
      M->addModuleFlag(llvm::Module::Warning, "Debug Info Version", 3);
      DB = std::make_unique<llvm::DIBuilder>(*M);
      File = DB->createFile("t.c", "/");
      DB->createCompileUnit(llvm::dwarf::DW_LANG_C, File, "g", false, "", 0);
      IntTy = DB->createBasicType("int", 32, llvm::dwarf::DW_ATE_signed);
    }
  }
  int64_t num() {
    int64_t V = C.chance(1, 6) ? C.range(-40, 40) : C.range(-3, 6);
    Pool.push_back(V);
    Pool.push_back(V + 1);
    Pool.push_back(V - 1);
    return V;
  }
  std::pair<Value *, ExP> leaf(bool AllowConst) {
    auto E = std::make_shared<Ex>();
    if (AllowConst && C.chance(2, 5)) {
      E->C = num();
      return {llvm::ConstantInt::getSigned(I32, E->C), E};
    }
    if (O.Calls && C.chance(1, 5)) {
      E->Kind = Ex::Call;
      auto *CI = B.CreateCall(Ext->getFunctionType(), Ext);
      ExtCalls.push_back(CI);
      E->Key = CI;
      Keys.insert(CI);
      return {CI, E};
    }
    E->Kind = Ex::Var;
    auto *V = C.pick(Vars);
    E->Key = V;
    return {B.CreateLoad(I32, V), E};
  }
  std::pair<Value *, ExP> expr(unsigned D) {
    if (D == 0 || C.chance(1, 2))
      return leaf(false);
    auto E = std::make_shared<Ex>();
    E->Kind = Ex::Bin;
    Value *L, *R;
    switch (C.weighted({4, 3, 2, O.Div ? 3u : 0u, O.Div ? 3u : 0u})) {
    case 0:
    case 1: {
      E->Op = C.flip() ? Instruction::Add : Instruction::Sub;
      std::tie(L, E->A) = expr(D - 1);
      std::tie(R, E->B) = C.flip() ? leaf(true) : expr(D - 1);
      break;
    }
    default: {
      E->Op = Instruction::Mul;
      if (O.Div && C.chance(2, 3))
        E->Op = C.flip() ? Instruction::SDiv : Instruction::SRem;
      std::tie(L, E->A) = expr(D - 1);
      auto Cst = std::make_shared<Ex>();
      do
        Cst->C = C.range(-3, 4);
      while (E->Op != Instruction::Mul && Cst->C == 0);
      E->B = Cst;
      R = llvm::ConstantInt::getSigned(I32, Cst->C);
      if (E->Op == Instruction::Mul && C.flip()) {
        std::swap(L, R);
        std::swap(E->A, E->B);
      }
      break;
    }
    }
    auto *V = llvm::BinaryOperator::Create(Instruction::BinaryOps(E->Op), L, R);
    B.Insert(V);
    return {V, E};
  }
  std::pair<Value *, Cond> cond() {
    Cond Cd;
    if (!BoolVars.empty() && C.chance(1, 3)) {
      Cd.Bool = true;
      auto *V = C.pick(BoolVars);
      Cd.BKey = V;
      return {B.CreateTrunc(B.CreateLoad(I8, V), B.getInt1Ty()), Cd};
    }
    Value *L, *R;
    std::tie(L, Cd.A) = expr(2);
    std::tie(R, Cd.B) = C.chance(1, 4) ? expr(1) : leaf(true);
    using Pr = llvm::CmpInst;
    std::vector<Pr::Predicate> Ps{Pr::ICMP_EQ,  Pr::ICMP_NE,  Pr::ICMP_SLT,
                                  Pr::ICMP_SLE, Pr::ICMP_SGT, Pr::ICMP_SGE};
    if (O.Unsigned)
      Ps = {Pr::ICMP_ULT, Pr::ICMP_ULE, Pr::ICMP_UGT, Pr::ICMP_UGE,
            Pr::ICMP_SLT, Pr::ICMP_SGT, Pr::ICMP_EQ};
    Cd.P = C.pick(Ps);
    if (llvm::isa<llvm::LoadInst>(L) && !Pr::isUnsigned(Cd.P) &&
        C.chance(1, 8)) {
      // compare as i64
      L = B.CreateSExt(L, B.getInt64Ty());
      if (auto *K = llvm::dyn_cast<llvm::ConstantInt>(R))
        R = llvm::ConstantInt::getSigned(B.getInt64Ty(), K->getSExtValue());
      else if (llvm::isa<llvm::LoadInst>(R) || llvm::isa<llvm::CallInst>(R))
        R = B.CreateSExt(R, B.getInt64Ty());
      else
        R = B.CreateSExt(R, B.getInt64Ty());
    }
    return {new llvm::ICmpInst(*B.GetInsertBlock(), Cd.P, L, R), Cd};
  }
  void marks(int D) {
    for (unsigned K = C.weighted({3, 3, 1}); K; --K) {
      auto *S = B.CreateStore(llvm::ConstantInt::get(I32, 1), Mark);
      switch (C.draw(3)) {
      case 0:
        Gens[S] = 1 + C.draw(D);
        break;
      case 1:
        Kills[S] = 1 + C.draw(D);
        break;
      }
    }
  }
  void body(Function *F, unsigned NB, bool Branches, bool IsMain) {
    llvm::DISubprogram *SP = nullptr;
    if (O.Dbg) {
      SP = DB->createFunction(
          File, F->getName(), F->getName(), File, 1,
          DB->createSubroutineType(DB->getOrCreateTypeArray({nullptr})), 1,
          llvm::DINode::FlagZero, llvm::DISubprogram::SPFlagDefinition);
      F->setSubprogram(SP);
      B.SetCurrentDebugLocation(llvm::DILocation::get(P.Ctx, 2, 1, SP));
    }
    std::vector<BasicBlock *> BBs;
    for (unsigned I = 0; I < NB; ++I)
      BBs.push_back(BasicBlock::Create(P.Ctx, "b" + std::to_string(I), F));
    B.SetInsertPoint(BBs[0]);
    Vars.clear();
    BoolVars.clear();
    // variables
    unsigned NV = 1 + C.draw(3), NBool = O.Bools ? 1 + C.draw(2) : 0;
    std::vector<llvm::AllocaInst *> As;
    for (unsigned I = 0; I < NV + NBool; ++I) {
      auto *A = B.CreateAlloca(I < NV ? (llvm::Type *)I32 : I8);
      if (!O.Unnamed)
        A->setName((IsMain ? "v" : "h") + std::to_string(I));
      As.push_back(A);
      Keys.insert(A);
    }
    for (unsigned I = 0; I < As.size(); ++I) {
      if (O.Dbg) {
        auto *DV = DB->createAutoVariable(
            SP,
            std::string(IsMain ? "" : "h") +
                (C.flip() ? "x" : "y" + std::to_string(I)),
            File, 2 + I, IntTy);
        DB->insertDeclare(As[I], DV, DB->createExpression(),
                          llvm::DILocation::get(P.Ctx, 2, 1, SP), BBs[0]);
      }
      if (I < F->arg_size() && F->getArg(I)->getType() == I32 && I < NV)
        B.CreateStore(F->getArg(I), As[I]);
      else if (I < NV) {
        auto *CI = B.CreateCall(Ext->getFunctionType(), Ext);
        ExtCalls.push_back(CI);
        B.CreateStore(CI, As[I]);
      } else {
        auto *CI = B.CreateCall(Ext->getFunctionType(), Ext);
        ExtCalls.push_back(CI);
        B.CreateStore(B.CreateTrunc(CI, I8), As[I]);
      }
      (I < NV ? Vars : BoolVars).push_back(As[I]);
    }
    unsigned HelpLeft = !IsMain || !Help ? 0 : O.HelperTwice ? 3 : 1;
    for (unsigned I = 0; I < NB; ++I) {
      B.SetInsertPoint(BBs[I]);
      marks(P.D);
      if (HelpLeft && C.chance(1, 2)) {
        do {
          HelpCalls.push_back(
              B.CreateCall(Help->getFunctionType(), Help,
                           {B.CreateLoad(I32, C.pick(Vars))}));
          --HelpLeft;
          if (C.flip())
            marks(P.D);
        } while (HelpLeft && C.chance(1, 8));
      }
      unsigned Left = NB - I - 1;
      auto Tgt = [&] { return BBs[I + 1 + C.draw(Left)]; };
      switch (Left == 0 ? 0
                        : C.weighted({1, 2, Branches ? 12u : 0u,
                                      O.Switches ? 4u : 0u})) {
      case 0:
        B.CreateRetVoid();
        break;
      case 1:
        B.CreateBr(Tgt());
        break;
      case 2: {
        auto [V, Cd] = cond();
        auto *T = Tgt(), *E = Tgt();
        Conds[B.CreateCondBr(V, T, E)] = Cd;
        break;
      }
      case 3: {
        auto *V = C.pick(Vars);
        auto *S = B.CreateSwitch(B.CreateLoad(I32, V), Tgt(), 2);
        std::set<int64_t> Used;
        for (unsigned K = C.draw(3); K; --K) {
          auto X = num();
          if (Used.insert(X).second)
            S->addCase(llvm::ConstantInt::getSigned(I32, X), Tgt());
        }
        SwKeys[S] = V;
        break;
      }
      }
    }
  }
  void gen() {
    P.D = 1 + C.draw(3);
    P.AutoAddZero = false;
    auto *VT = B.getVoidTy();
    if (O.Helper) {
      Help = Function::Create(llvm::FunctionType::get(VT, {I32}, false),
                              llvm::GlobalValue::ExternalLinkage, "help", *M);
      body(Help, 1 + C.draw(O.HelperTwice ? 2 : 3), !O.HelperTwice, false);
    }
    std::vector<llvm::Type *> Ps(C.draw(3), I32);
    Main = Function::Create(llvm::FunctionType::get(VT, Ps, false),
                            llvm::GlobalValue::ExternalLinkage, "main", *M);
    body(Main, 2 + C.draw(6), true, true);
    if (O.Dbg)
      DB->finalize();
    M->setSourceFileName("gen.c");
    if (llvm::verifyModule(*M, &llvm::errs()))
      abort();
    P.IRDB = std::make_unique<LLVMProjectIRDB>(std::move(M));
    P.Funs.push_back(Main);
    if (Help)
      P.Funs.push_back(Help);
    sg::buildStructure(P);
    CallGraphBuilder<Inst, sg::Fn> CGB;
    CGB.reserve(4);
    for (auto *F : {Main, Help, Ext})
      if (F)
        (void)CGB.addFunctionVertex(F);
    auto Ident = [&](sg::Rel &R, Inst I, bool OnlyZero) {
      for (int D = 0; D <= P.D; ++D)
        if (D == 0 || !OnlyZero)
          R.R[D][D];
      if (Kills.count(I))
        R.R.erase(Kills[I]);
      if (Gens.count(I))
        R.R[0][Gens[I]];
    };
    auto AddCall = [&](Inst CS, Function *T) {
      P.Callees[CS] = {T};
      CGB.addCallEdge(CS, T);
      for (auto *S : P.Succs.at(CS)) {
        Ident(P.CTR[{CS, S}], CS, T == Help);
        Ident(P.Call[{CS, T}], CS, false);
        for (auto *X : P.Exits[T])
          Ident(P.Ret[{CS, T, X, S}], X, false);
        P.Sum[{CS, S}];
      }
    };
    for (auto *I : HelpCalls)
      AddCall(I, Help);
    for (auto *I : ExtCalls)
      AddCall(I, Ext);
    for (auto *F : P.Funs)
      for (auto *I : P.Insts[F])
        if (!P.Callees.count(I))
          for (auto *S : P.Succs.at(I))
            Ident(P.Normal[{I, S}], I, false);
    P.ICF =
        std::make_unique<LLVMBasedICFG>(CGB.consumeCallGraph(), P.IRDB.get());
    P.Seeds[P.Insts[Main].front()][0] = sg::MaskVal{sg::Full};
  }

  // ---- execution
  struct Step {
    Inst I;
    unsigned Facts;
  };
  bool exec(Inputs &In, std::vector<Step> &T) {
    unsigned Facts = 1;
    bool Ovf = false;
    std::function<void(Function *)> Run = [&](Function *F) {
      Inst I = P.Insts.at(F).front();
      while (true) {
        T.push_back({I, Facts});
        if (auto *CI = llvm::dyn_cast<llvm::CallInst>(I);
            CI && Help && CI->getCalledFunction() == Help)
          Run(Help);
        if (auto K = Kills.find(I); K != Kills.end())
          Facts &= ~(1u << K->second);
        if (auto K = Gens.find(I); K != Gens.end())
          Facts |= 1u << K->second;
        if (llvm::isa<llvm::ReturnInst>(I))
          return;
        const BasicBlock *N = nullptr;
        if (auto It = Conds.find(I); It != Conds.end())
          N = I->getSuccessor(evalC(It->second, In, Ovf) ? 0 : 1);
        else if (auto *S = llvm::dyn_cast<llvm::SwitchInst>(I)) {
          N = S->getDefaultDest();
          for (auto &Cs : S->cases())
            if (Cs.getCaseValue()->getSExtValue() == In.at(SwKeys.at(I)))
              N = Cs.getCaseSuccessor();
        } else if (I->isTerminator())
          N = I->getSuccessor(0);
        I = sg::skipDbg(N ? &N->front() : I->getNextNode());
      }
    };
    Run(Main);
    return !Ovf;
  }
};

// the statements that leave their basic block
Path project(const Path &P) {
  Path R;
  for (size_t I = 0; I < P.size(); ++I) {
    bool Leaves = I + 1 == P.size() || P[I]->isTerminator() ||
                  P[I]->getParent() != P[I + 1]->getParent();
    if (Leaves && (R.empty() || R.back() != P[I]))
      R.push_back(P[I]);
  }
  return R;
}

void runCase(pbt::Ctx &C, Opt O) {
  G X(C, O);
  X.gen();
  auto &P = X.P;
  {
    std::string S;
    llvm::raw_string_ostream OS(S);
    for (auto *F : P.Funs)
      F->print(OS);
    OS << "\n";
    for (auto &[I, D] : X.Gens)
      OS << "gen " << D << " at n" << P.Id.at(I) << "\n";
    for (auto &[I, D] : X.Kills)
      OS << "kill " << D << " at n" << P.Id.at(I) << "\n";
    C.describe(OS.str());
  }
  auto Show = [&](const Path &Q) {
    std::string S;
    for (auto *I : Q)
      S += pbt::strf(" %s:%s#%d", I->getFunction()->getName().str().c_str(),
                     I->getParent()->getName().str().c_str(), P.Id.at(I));
    return S;
  };
  Scratch Dir;
  sg::IFDSProb Prob(P);
  PathAwareIDESolver S(Prob, P.ICF.get());
  S.solve();
  auto &ESG = S.getExplicitESG();

  // an additional constraint of the user
  bool Add = !O.Helper && !O.Dbg && !O.Unnamed && C.chance(1, 4);
  int64_t AddC = Add ? C.range(-2, 4) : 0;
  bool AddLT = Add && C.flip();
  const Value *AddKey = nullptr;
  if (Add)
    for (auto *K : X.Keys)
      if (K->getName() == "v0")
        AddKey = K;

  // executions
  struct Ex1 {
    std::vector<G::Step> T;
    Inputs In;
  };
  std::vector<Ex1> Runs;
  for (unsigned K = 0; K < 60; ++K) {
    Ex1 R;
    for (auto *V : X.Keys) {
      bool Byte =
          llvm::isa<llvm::AllocaInst>(V) &&
          llvm::cast<llvm::AllocaInst>(V)->getAllocatedType() == X.I8;
      R.In[V] = Byte ? (int64_t)C.draw(2) : C.pick(X.Pool);
    }
    if (Add && !(AddLT ? R.In[AddKey] < AddC : R.In[AddKey] >= AddC))
      continue;
    if (X.exec(R.In, R.T))
      Runs.push_back(std::move(R));
  }
  // Paths on which a function is called repeatedly are cut like loops
  std::map<const BasicBlock *, unsigned> MostCalls;
  for (auto &BB : llvm::reverse(*X.Main)) {
    unsigned N = 0, Here = 0;
    for (auto *Sc : llvm::successors(&BB))
      N = std::max(N, MostCalls[Sc]);
    for (auto *HC : X.HelpCalls)
      Here += HC->getParent() == &BB;
    MostCalls[&BB] = N + Here;
  }
  bool Repeats = MostCalls[&X.Main->front()] > 1;
  if (X.HelpCalls.size())
    C.label(Repeats                     ? "repeated-call"
            : X.HelpCalls.size() > 1 ? "two-call-sites"
                                     : "one-call-site");
  bool NT = false;
  // queries
  std::vector<Inst> Insts;
  for (auto *F : P.Funs)
    for (auto *I : P.Insts.at(F))
      if (S.getSolverResults().resultsAt(I).count(0) &&
          I != P.Insts.at(X.Main).front())
        Insts.push_back(I);
  for (unsigned QN = 1 + C.draw(2); QN; --QN) {
    if (Insts.empty())
      return;
    Inst Q = C.pick(Insts);
    if (C.flip() && !P.Exits[X.Main].empty()) {
      Inst E = P.Exits[X.Main].back();
      if (std::find(Insts.begin(), Insts.end(), E) != Insts.end())
        Q = E;
    }
    std::vector<int> Fs;
    for (auto [D, V] : S.getSolverResults().resultsAt(Q))
      Fs.push_back(D);
    int D = C.pick(Fs);
    if (!ESG.getNodeOrNull(Q, D)) {
      PBT_CHECK(C, false,
                pbt::strf("no node for fact %d at n%d", D, P.Id.at(Q)));
    }
    auto Where = pbt::strf("query fact %d at n%d", D, P.Id.at(Q));
    C.describe(Where + (Add ? pbt::strf(" with v0 %s %lld", AddLT ? "<" : ">=",
                                        (long long)AddC)
                            : "") +
               "\n");
    LLVMPathConstraints LPC;
    Z3BasedPathSensitivityConfig Cfg;
    if (Add) {
      auto V = LPC.getContext().int_const("v0");
      auto K = LPC.getContext().int_val((int64_t)AddC);
      Cfg = Cfg.withAdditionalConstraint(AddLT ? V < K : V >= K);
    }
    Cfg.MinimizeDAG = !C.chance(1, 4);
    Z3BasedPathSensitivityManager<sg::IFDSProb::ProblemAnalysisDomain> PSM(
        &ESG, Cfg, &LPC);
    auto Paths = PSM.pathsTo(Q, D);
    std::set<Path> Got;
    for (auto &F : Paths) {
      Path R(F.begin(), F.end());
      PBT_CHECK(C, !R.empty() && R.back() == Q,
                Where + ": reported path ends elsewhere:" + Show(R));
      Got.insert(project(R));
      // the witness
      PBT_CHECK(C, F.Model.eval(F.Constraint, true).is_true(),
                Where + ": the model of" + Show(R) +
                    " does not satisfy its constraint " +
                    F.Constraint.to_string());
    }
    // every execution is reported
    std::set<Path> Seen;
    for (auto &R : Runs) {
      Path Pre;
      for (auto &St : R.T) {
        Pre.push_back(St.I);
        if (St.I != Q || !((St.Facts >> D) & 1))
          continue;
        auto Pr = project(Pre);
        Seen.insert(Pr);
        if (!Repeats && !Got.count(Pr)) {
          std::string Vals, All;
          for (auto &G : Got)
            All += "\n " + Show(G);
          for (auto &[K, V] : R.In) {
            llvm::raw_string_ostream OS(Vals);
            K->print(OS);
            OS << " = " << V << ";";
          }
          PBT_CHECK(C, false,
                    Where + ": the execution" + Show(Pr) + " for " + Vals +
                        " is not reported; reported:" + All);
        }
      }
    }
    // every reported path exists, returns to its call and is feasible
    for (auto &R : Got) {
      std::vector<Inst> Stack;
      for (size_t I = 0; I + 1 < R.size(); ++I) {
        if (auto *CI = llvm::dyn_cast<llvm::CallInst>(R[I])) {
          PBT_CHECK(C, R[I + 1]->getFunction() == X.Help,
                    Where + ": no call:" + Show(R));
          Stack.push_back(CI);
        } else if (llvm::isa<llvm::ReturnInst>(R[I])) {
          PBT_CHECK(C, !Stack.empty(), Where + ": no caller:" + Show(R));
          PBT_CHECK(C,
                    R[I + 1]->getParent() == Stack.back()->getParent() &&
                        P.Id.at(Stack.back()) < P.Id.at(R[I + 1]),
                    Where + ": returns elsewhere:" + Show(R));
          // no other call in between
          for (auto *HC : X.HelpCalls)
            PBT_CHECK(C,
                      !(HC->getParent() == R[I + 1]->getParent() &&
                        P.Id.at(HC) > P.Id.at(Stack.back()) &&
                        P.Id.at(HC) < P.Id.at(R[I + 1])),
                      Where + ": skips a call:" + Show(R));
          Stack.pop_back();
        } else {
          bool Succ = false;
          for (auto *Sc : llvm::successors(R[I]->getParent()))
            Succ |= Sc == R[I + 1]->getParent();
          PBT_CHECK(C, Succ, Where + ": no such path:" + Show(R));
        }
      }
      if (Add) {
        // conjoin below
      }
      Enc E;
      z3::solver Sol(E.Z);
      if (Add) {
        auto V = E.var(AddKey);
        auto K = E.Z.int_val((int64_t)AddC);
        Sol.add(AddLT ? V < K : V >= K);
      }
      for (size_t I = 0; I + 1 < R.size(); ++I)
        if (auto It = X.Conds.find(R[I]); It != X.Conds.end()) {
          auto *Br = llvm::cast<llvm::BranchInst>(R[I]);
          if (Br->getSuccessor(0) == Br->getSuccessor(1))
            continue;
          auto Cz = E.enc(It->second);
          Sol.add(R[I + 1]->getParent() == Br->getSuccessor(0) ? Cz : !Cz);
        }
      PBT_CHECK(C, Sol.check() != z3::unsat,
                Where + ": reported path" + Show(R) + " is infeasible");
    }
    // at most as many paths as asked for
    size_t Max = 1 + C.draw(3);
    if (Paths.size() > 1 && C.chance(1, 4)) {
      LLVMPathConstraints LPC2;
      Z3BasedPathSensitivityConfig Cfg2;
      if (Add) {
        auto V = LPC2.getContext().int_const("v0");
        auto K = LPC2.getContext().int_val((int64_t)AddC);
        Cfg2 = Cfg2.withAdditionalConstraint(AddLT ? V < K : V >= K);
      }
      Z3BasedPathSensitivityManager<sg::IFDSProb::ProblemAnalysisDomain> PSM2(
          &ESG, Cfg2.withNumPathsThreshold(Max), &LPC2);
      auto Few = PSM2.pathsTo(Q, D);
      PBT_CHECK(C, Few.size() <= Max && !Few.empty(),
                Where + pbt::strf(": %zu paths with a limit of %zu",
                                  Few.size(), Max));
      for (auto &F : Few)
        PBT_CHECK(C, Got.count(project(Path(F.begin(), F.end()))),
                  Where + ": a path only with the limit");
    }
    size_t CondsOn = 0;
    for (auto &R : Got)
      for (auto *I : R)
        CondsOn += X.Conds.count(I);
    if (CondsOn >= 2 && Seen.size() >= 1)
      NT = true;
    C.label(D ? "fact" : "zero");
    if (Seen.size() > 1)
      C.label("several-executions");
  }
  C.nontrivial(NT);
}
void caseBasic(pbt::Ctx &C) {
  Opt O{};
  O.Calls = C.chance(1, 3);
  O.Dbg = C.chance(1, 4);
  O.Unnamed = C.chance(1, 4);
  O.Bools = C.chance(1, 4);
  O.Switches = C.chance(1, 4);
  runCase(C, O);
}
void caseArith(pbt::Ctx &C) {
  Opt O{};
  O.Unsigned = C.flip();
  O.Div = !O.Unsigned || C.flip();
  runCase(C, O);
}
void caseInter(pbt::Ctx &C) {
  Opt O{};
  O.Helper = true;
  O.HelperTwice = C.flip();
  O.Calls = C.chance(1, 4);
  O.Dbg = C.chance(1, 4);
  O.Unnamed = C.chance(1, 4);
  O.Switches = C.chance(1, 3);
  runCase(C, O);
}
// Variables of the same name in different functions are the same constant
bool sameName() {
  llvm::LLVMContext Ctx;
  Ctx.enableOpaquePointers();
  llvm::Module M("m", Ctx);
  llvm::IRBuilder<> B(Ctx);
  LLVMPathConstraints LPC;
  z3::solver S(LPC.getContext());
  for (unsigned K = 0; K < 2; ++K) {
    auto *F = Function::Create(
        llvm::FunctionType::get(B.getVoidTy(), {B.getInt32Ty()}, false),
        Function::ExternalLinkage, K ? "f" : "main", M);
    auto *E = BasicBlock::Create(Ctx, "", F), *T = BasicBlock::Create(Ctx, "", F),
         *U = BasicBlock::Create(Ctx, "", F);
    B.SetInsertPoint(E);
    auto *A = B.CreateAlloca(B.getInt32Ty(), nullptr, "x");
    B.CreateStore(F->getArg(0), A);
    auto *Br = B.CreateCondBr(
        B.CreateICmpSGT(B.CreateLoad(B.getInt32Ty(), A), B.getInt32(10)), T, U);
    B.SetInsertPoint(T);
    B.CreateRetVoid();
    B.SetInsertPoint(U);
    B.CreateRetVoid();
    auto Cz = LPC.getConstraintFromEdge(Br, K ? &T->front() : &U->front());
    if (Cz)
      S.add(*Cz);
  }
  return S.check() == z3::unsat;
}
} // namespace

int main(int Argc, char **Argv) {
  pbt::Property P;
  P.Id = "P21";
  const char *Rule = "a reported path crosses two or more conditional "
                     "branches and an execution reaches the query";
  P.Subs = {
      {"conditions", Rule, caseBasic, 2500, 0},
      {"arithmetic", Rule, caseArith, 1500, 0},
      {"calls", Rule, caseInter, 1500, 0},
  };
  P.Assumptions = {
      "loop-free programs; branch conditions are integer comparisons of "
      "variables that are assigned once, input calls and constants; inputs "
      "for which the arithmetic overflows are not considered",
      "a helper that is called repeatedly has no conditional branches",
  };
  P.Knowns = {{"P21-same-name",
               "variables of the same name in different functions share one "
               "solver constant, which makes feasible paths infeasible",
               sameName}};
  return pbt::run(Argc, Argv, P);
}
