// BUILD:
// P22: the model of static initialisation runs constructors, entry points and
// destructors in the order the runtime does.
#include "interp.h"
#include "pbt.h"

#include "phasar/PhasarLLVM/ControlFlow/EntryFunctionUtils.h"
#include "phasar/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"

#include <algorithm>
#include <set>

using namespace psr;
using llvm::Function;

namespace {
struct Prog {
  std::string Text;
  // expected events, as function names
  std::vector<std::string> Before, AfterMain;
  std::vector<std::string> Entries; // user entry points
  std::map<std::string, std::vector<std::string>> EntryEvents;
  std::vector<std::string> Names; // functions of the program
  bool AnyDtor = false;
};

Prog gen(pbt::Ctx &C) {
  Prog P;
  auto &T = P.Text;
  T = "source_filename = \"m.cpp\"\n"
      "declare i32 @__cxa_atexit(void (i8*)*, i8*, i8*)\n"
      "declare void @ev(i32)\n@__dso_handle = external hidden global i8\n"
      "%C = type { i32 }\n";
  std::vector<std::string> Late; // definitions after main
  auto Def = [&](const std::string &S) {
    if (C.flip())
      Late.push_back(S);
    else
      T += S;
  };
  // objects with static storage duration
  unsigned NG = C.draw(4), NL = C.draw(3);
  std::vector<std::string> AtExit; // order of registration
  bool Typed = C.flip();
  auto Obj = [&](const std::string &N, bool Own) {
    T += "@" + N + " = internal global %C zeroinitializer\n";
    std::string D = "d_" + (Own ? N : "shared");
    std::string Ty = Typed ? "%C*" : "i8*";
    if (Own || !std::count(P.Names.begin(), P.Names.end(), D)) {
      Def("define linkonce_odr void @" + D + "(" + Ty +
          " %this) {\nentry:\n  ret void\n}\n");
      P.Names.push_back(D);
    }
    AtExit.push_back(D + ":" + N);
    std::string Fp = Typed ? "void (i8*)* bitcast (void (%C*)* @" + D +
                                 " to void (i8*)*)"
                           : "void (i8*)* @" + D;
    return "  %r" + N + " = call i32 @__cxa_atexit(" + Fp +
           ", i8* bitcast (%C* @" + N + " to i8*), i8* @__dso_handle)\n";
  };
  std::string Init;
  std::vector<std::string> InitNames;
  for (unsigned K = 0; K < NG; ++K) {
    std::string V = "__cxx_global_var_init" + (K ? "." + std::to_string(K) : "");
    std::string B = "define internal void @" + V + "() {\nentry:\n";
    if (C.chance(3, 4))
      B += Obj("g" + std::to_string(K), C.flip());
    B += "  ret void\n}\n";
    T += B;
    Init += "  call void @" + V + "()\n";
    P.Names.push_back(V);
    InitNames.push_back(V);
  }
  if (NG) {
    Def("define internal void @_GLOBAL__sub_I_m.cpp() {\nentry:\n" + Init +
        "  ret void\n}\n");
    P.Names.push_back("_GLOBAL__sub_I_m.cpp");
  }
  // llvm.global_ctors / llvm.global_dtors
  auto Table = [&](const char *Name, bool Ctor) {
    std::vector<std::pair<unsigned, std::string>> E;
    if (Ctor && NG)
      E.push_back({65535, "_GLOBAL__sub_I_m.cpp"});
    std::string Pre = Ctor ? "c" : "t";
    std::set<unsigned> Used;
    for (unsigned K = 0, N = C.draw(4); K < N; ++K) {
      unsigned Pr = C.pick(std::vector<unsigned>{65535, 65535, 101, 200, 65534, 0});
      if (!Ctor && !Used.insert(Pr).second)
        continue; // the order of equal priorities is not defined
      std::string F = Pre + std::to_string(K);
      Def("define internal void @" + F + "() {\nentry:\n  ret void\n}\n");
      P.Names.push_back(F);
      if (C.chance(1, 8))
        E.push_back({Pr, ""});
      E.insert(E.begin() + C.draw(E.size() + 1), {Pr, F});
    }
    if (E.empty())
      return E;
    T += std::string("@llvm.") + Name + " = appending global [" +
         std::to_string(E.size()) + " x { i32, void ()*, i8* }] [";
    for (size_t K = 0; K < E.size(); ++K)
      T += (K ? ", " : "") + ("{ i32, void ()*, i8* } { i32 " +
           std::to_string(E[K].first) + ", void ()* ") +
           (E[K].second.empty() ? std::string("null") : "@" + E[K].second) +
           ", i8* null }";
    T += "]\n";
    E.erase(std::remove_if(E.begin(), E.end(),
                           [](auto &X) { return X.second.empty(); }),
            E.end());
    return E;
  };
  auto Ct = Table("global_ctors", true), Dt = Table("global_dtors", false);
  std::stable_sort(Ct.begin(), Ct.end(),
                   [](auto &A, auto &B) { return A.first < B.first; });
  std::stable_sort(Dt.begin(), Dt.end(),
                   [](auto &A, auto &B) { return A.first > B.first; });
  for (auto &[Pr, F] : Ct) {
    P.Before.push_back(F);
    if (F == "_GLOBAL__sub_I_m.cpp")
      for (auto &I : InitNames)
        P.Before.push_back(I);
  }
  // local statics, initialised by main
  std::string MainBody;
  std::vector<std::string> MainEv;
  for (unsigned K = 0; K < NL; ++K) {
    std::string F = "ls" + std::to_string(K);
    T += std::string("define void @" + F + "() {\nentry:\n" +
        Obj("s" + std::to_string(K), C.flip()) + "  ret void\n}\n");
    P.Names.push_back(F);
    MainBody += "  call void @" + F + "()\n";
    MainEv.push_back(F);
  }
  bool Args = C.flip();
  T += std::string("define i32 @main(") + (Args ? "i32 %argc, i8** %argv" : "") +
       ") {\nentry:\n" + MainBody + "  ret i32 0\n}\n";
  P.Names.push_back("main");
  for (auto It = AtExit.rbegin(); It != AtExit.rend(); ++It)
    P.AfterMain.push_back(*It);
  for (auto &[Pr, F] : Dt)
    P.AfterMain.push_back(F);
  P.AnyDtor = !P.AfterMain.empty();
  // entry points
  auto Add = [&](const std::string &E, std::vector<std::string> Ev) {
    P.Entries.push_back(E);
    P.EntryEvents[E] = std::move(Ev);
  };
  unsigned Kind = C.draw(3);
  if (Kind != 1) {
    MainEv.insert(MainEv.begin(), "main");
    Add("main", MainEv);
  }
  if (Kind != 0)
    for (unsigned K = 0, N = 1 + C.draw(2); K < N; ++K) {
      std::string E = "lib" + std::to_string(K);
      T += "define void @" + E + "() {\nentry:\n  ret void\n}\n";
      P.Names.push_back(E);
      Add(E, {E});
    }
  if (P.Entries.size() > 1 && C.flip())
    std::reverse(P.Entries.begin(), P.Entries.end());
  for (auto &L : Late)
    T += L;
  return P;
}

std::string join(const std::vector<std::string> &V) {
  std::string S;
  for (auto &X : V)
    S += X + " ";
  return S;
}

void model(pbt::Ctx &C) {
  auto P = gen(C);
  C.describe(P.Text + "; entries: " + join(P.Entries));
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(P.Text, Err, Ctx);
  if (!M)
    C.fail("harness: " + Err.getMessage().str());
  M->setModuleIdentifier(C.flip() ? "/some/dir/m.ll" : "m.ll");
  LLVMProjectIRDB IRDB(M.get());
  size_t NInst = IRDB.getNumInstructions();
  bool Icf = C.flip();
  std::unique_ptr<LLVMBasedICFG> ICF;
  const Function *Model = nullptr;
  if (Icf) {
    ICF = std::make_unique<LLVMBasedICFG>(
        &IRDB, CallGraphAnalysisType::CHA, P.Entries, nullptr, nullptr,
        Soundness::Soundy, true);
    Model = IRDB.getFunction(LLVMBasedICFG::GlobalCRuntimeModelName);
  } else {
    Model = GlobalCtorsDtorsModel::buildModel(IRDB, P.Entries);
  }
  PBT_CHECK(C, Model, "no model");
  std::string E;
  llvm::raw_string_ostream OS(E);
  PBT_CHECK(C, !llvm::verifyModule(*M, &OS), "broken module: " + OS.str());
  C.nontrivial(P.Before.size() >= 2 && P.AfterMain.size() >= 2);

  // the model's functions are part of the database
  size_t N = 0;
  std::set<const llvm::Instruction *> All;
  for (auto *I : IRDB.getAllInstructions())
    All.insert(I);
  for (auto &F : *M)
    for (auto &I : llvm::instructions(F)) {
      ++N;
      PBT_CHECK(C, All.count(&I), "instruction of " + F.getName().str() +
                                      " is not in the database");
      PBT_CHECK(C, IRDB.getInstruction(IRDB.getInstructionId(&I)) == &I,
                "instruction id");
    }
  PBT_CHECK(C, All.size() == N && IRDB.getNumInstructions() == N && N > NInst,
            "number of instructions");
  std::set<std::string> User(P.Names.begin(), P.Names.end());
  for (auto &F : *M) {
    if (F.isIntrinsic() || F.getName() == "__cxa_atexit" || F.getName() == "ev")
      continue;
    bool Gen = !User.count(F.getName().str());
    PBT_CHECK(C, GlobalCtorsDtorsModel::isPhasarGenerated(F) == Gen,
              "isPhasarGenerated(" + F.getName().str() + ")");
  }

  for (size_t K = 0; K < P.Entries.size(); ++K) {
    std::vector<std::string> Log, Want = P.Before;
    std::set<std::pair<const llvm::Instruction *, const Function *>> Calls;
    interp::Machine X(*M);
    bool Sel = false;
    uint64_t Argc = 3, Argv = 0x77;
    std::string Bad;
    X.OnCall = [&](interp::Frame &F, const llvm::CallBase *CS,
                   const Function *Callee) {
      Calls.insert({CS, Callee});
      std::string Nm = Callee->getName().str();
      if (!User.count(Nm))
        return;
      if (llvm::StringRef(Nm).startswith("d_")) {
        auto A = CS->getArgOperand(0)->stripPointerCasts();
        auto V = X.objAt(F.has(CS->getArgOperand(0))
                             ? F.R[CS->getArgOperand(0)].B
                             : X.GAddr[A]);
        Nm += ":" + (V && V->Site ? V->Site->getName().str() : "?");
      }
      if (Nm == "main" && CS->arg_size() == 2)
        if (F.R[CS->getArgOperand(0)].B != Argc ||
            F.R[CS->getArgOperand(1)].B != Argv)
          Bad = "arguments of main";
      Log.push_back(Nm);
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *, const Function *F,
                   std::vector<interp::Val> &) {
      interp::Val V;
      if (F->getName() == GlobalCtorsDtorsModel::UserEntrySelectorName) {
        Sel = true;
        V.B = K;
      }
      return V;
    };
    bool Done = false;
    try {
      X.run(Model, {interp::Val{Argc}, interp::Val{Argv}});
      Done = true;
    } catch (interp::Stop) {
    } catch (interp::Throw) {
    }
    PBT_CHECK(C, Done, "the model does not run to its end");
    PBT_CHECK(C, Bad.empty(), Bad);
    PBT_CHECK(C, Sel == (P.Entries.size() > 1), "entry selector");
    auto &E = P.EntryEvents[P.Entries[K]];
    Want.insert(Want.end(), E.begin(), E.end());
    if (P.Entries[K] == "main")
      Want.insert(Want.end(), P.AfterMain.begin(), P.AfterMain.end());
    PBT_CHECK(C, Log == Want, "runs   " + join(Log) + "\nshould " + join(Want));
    if (ICF)
      for (auto &[CS, F] : Calls) {
        auto Cs = ICF->getCalleesOfCallAt(CS);
        PBT_CHECK(C, std::find(Cs.begin(), Cs.end(), F) != Cs.end(),
                  "call of " + F->getName().str() + " is not in the call graph");
      }
  }
  // values outside the cases select nothing
}

void entries(pbt::Ctx &C) {
  auto P = gen(C);
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(P.Text, Err, Ctx);
  if (!M)
    C.fail("harness: " + Err.getMessage().str());
  LLVMProjectIRDB IRDB(M.get());
  std::vector<std::string> Want, Ask;
  bool All = C.flip();
  if (All) {
    Ask = {"__ALL__"};
    for (auto &F : *M)
      if (!F.isDeclaration() && F.getLinkage() == llvm::GlobalValue::ExternalLinkage)
        Want.push_back(F.getName().str());
  } else {
    for (unsigned N = C.draw(5); N; --N) {
      switch (C.draw(4)) {
      case 0:
        Ask.push_back("nosuch");
        break;
      case 1:
        Ask.push_back("__cxa_atexit"); // no definition
        break;
      default:
        Ask.push_back(C.pick(P.Names));
        Want.push_back(Ask.back());
      }
    }
  }
  C.describe(P.Text + "; ask: " + join(Ask));
  C.nontrivial(Want.size() >= 2);
  std::vector<std::string> A, B;
  for (auto *F : getEntryFunctions(IRDB, Ask))
    A.push_back(F->getName().str());
  for (auto *F : getEntryFunctionsMut(IRDB, Ask))
    B.push_back(F->getName().str());
  PBT_CHECK(C, A == Want, "entry points " + join(A) + "/ " + join(Want));
  PBT_CHECK(C, B == Want, "mutable entry points " + join(B) + "/ " + join(Want));
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P22";
  P.Subs = {{"model",
             "random modules with llvm.global_ctors/dtors of all priorities, "
             "objects with static storage and local statics, one or more entry "
             "points; the model is executed. Non-trivial: at least two "
             "constructors and two destructors",
             model, 60000},
            {"entries",
             "the same modules; the functions selected by lists of names and by "
             "__ALL__. Non-trivial: at least two functions",
             entries, 20000}};
  P.Assumptions = {"every static object is registered exactly once"};
  return pbt::run(argc, argv, P);
}
