// BUILD:
// P10: the type-state analysis reports the state a handle is in.
#include "interp.h"
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"

#include <set>

using namespace psr;
using llvm::Function;
using llvm::Instruction;
using llvm::Value;
using St = CSTDFILEIOState;

namespace {
std::string str(const Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  if (auto *I = llvm::dyn_cast<Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  return OS.str();
}

// functions that use a handle, and where they take it
struct Api {
  const char *Name, *Ty;
  std::vector<const char *> Args; // null: the handle
};
const std::vector<Api> &apis() {
  static std::vector<Api> A = {
      {"fgetc", "i32", {nullptr}},
      {"fputc", "i32", {"i32 1", nullptr}},
      {"fread", "i64", {"i8* null", "i64 1", "i64 1", nullptr}},
      {"fwrite", "i64", {"i8* null", "i64 1", "i64 1", nullptr}},
      {"fgets", "i8*", {"i8* null", "i32 1", nullptr}},
      {"fputs", "i32", {"i8* null", nullptr}},
      {"fflush", "i32", {nullptr}},
      {"fseek", "i32", {nullptr, "i64 1", "i32 1"}},
      {"ftell", "i64", {nullptr}},
      {"rewind", "void", {nullptr}},
      {"ungetc", "i32", {"i32 1", nullptr}},
      {"ungetwc", "i32", {"i32 1", nullptr}},
      {"putc", "i32", {"i32 1", nullptr}},
      {"putwc", "i32", {"i32 1", nullptr}},
      {"fputwc", "i32", {"i32 1", nullptr}},
      {"_IO_putc", "i32", {"i32 1", nullptr}},
      {"getc", "i32", {nullptr}},
      {"getwc", "i32", {nullptr}},
      {"fgetwc", "i32", {nullptr}},
      {"_IO_getc", "i32", {nullptr}},
      {"fprintf", "i32", {nullptr, "i8* null"}},
      {"fwprintf", "i32", {nullptr, "i32* null"}},
      {"vfprintf", "i32", {nullptr, "i8* null", "i8* null"}},
      {"vfwprintf", "i32", {nullptr, "i32* null", "i8* null"}},
      {"fscanf", "i32", {nullptr, "i8* null"}},
      {"__isoc99_fscanf", "i32", {nullptr, "i8* null"}},
      {"fwscanf", "i32", {nullptr, "i32* null"}},
      {"vfscanf", "i32", {nullptr, "i8* null", "i8* null"}},
      {"vfwscanf", "i32", {nullptr, "i32* null", "i8* null"}},
      {"fgetpos", "i32", {nullptr, "i8* null"}},
      {"fsetpos", "i32", {nullptr, "i8* null"}},
      {"fileno", "i32", {nullptr}},
      {"fclose", "i32", {nullptr}},
      {"fclose", "i32", {nullptr}},
      {"fclose", "i32", {nullptr}},
      {"fclose", "i32", {nullptr}},
      {"fclose", "i32", {nullptr}},
      {"feof", "i32", {nullptr}}, // not part of the API model
  };
  return A;
}
// the state machine of a C stream
St next(llvm::StringRef F, St S) {
  if (F == "feof")
    return S;
  if (F == "fclose")
    return S == St::OPENED ? St::CLOSED : St::ERROR;
  return S == St::OPENED ? St::OPENED : St::ERROR;
}

struct Gen {
  pbt::Ctx &C;
  bool Straight;
  std::string Funs; // definitions
  std::set<std::string> Decls;
  unsigned N = 0, NF = 0;

  const char *F = "%struct._IO_FILE*";
  std::string v() { return "%v" + std::to_string(N++); }
  struct Var {
    std::string Name;
    std::vector<std::string> Users, Makers; // helpers of this variable
  };

  void api(std::string &T, const std::string &H) {
    auto &A = C.pick(apis());
    std::string Args, D;
    for (auto *X : A.Args) {
      Args += (Args.empty() ? "" : ", ");
      D += (D.empty() ? "" : ", ");
      if (X) {
        Args += X;
        D += llvm::StringRef(X).split(' ').first.str();
      } else {
        Args += std::string(F) + " " + H;
        D += F;
      }
    }
    Decls.insert(std::string("declare ") + A.Ty + " @" + A.Name + "(" + D + ")\n");
    T += "  ";
    if (std::string(A.Ty) != "void")
      T += v() + " = ";
    T += std::string("call ") + A.Ty + " @" + A.Name + "(" + Args + ")\n";
  }
  std::string open(std::string &T) {
    auto R = v();
    if (C.chance(1, 3)) {
      Decls.insert("declare " + std::string(F) + " @fdopen(i32, i8*)\n");
      T += "  " + R + " = call " + F + " @fdopen(i32 1, i8* null)\n";
    } else {
      Decls.insert("declare " + std::string(F) + " @fopen(i8*, i8*)\n");
      T += "  " + R + " = call " + F + " @fopen(i8* null, i8* null)\n";
    }
    return R;
  }
  // statements about variables; Depth of nesting
  void block(std::string &T, std::string &Label, std::vector<Var> &Vs,
             unsigned Len, unsigned Depth, bool Help) {
    for (; Len; --Len) {
      auto &X = Vs[0]; // the others stay untouched: see P10-two-streams
      unsigned K = C.draw(11);
      if (K < 2) { // open
        std::string R;
        if (Help && C.chance(1, 3)) {
          if (X.Makers.empty() || C.flip())
            X.Makers.push_back(maker());
          R = v();
          T += "  " + R + " = call " + F + " @" + C.pick(X.Makers) + "()\n";
        } else {
          R = open(T);
        }
        T += std::string("  store ") + F + " " + R + ", " + F + "* " + X.Name + "\n";
      } else if (K < 7 || (K >= 8 && (Straight || !Depth))) {
        auto R = v();
        T += "  " + R + " = load " + F + ", " + F + "* " + X.Name + "\n";
        if (Help && C.chance(1, 4)) {
          if (X.Users.empty() || C.flip())
            X.Users.push_back(user());
          T += "  call void @" + C.pick(X.Users) + "(" + F + " " + R + ")\n";
        } else if (Help && C.chance(1, 6)) {
          auto Q = v();
          T += "  " + Q + " = call " + F + " @" + user(true) + "(" + F + " " + R + ")\n";
          if (C.flip())
            T += std::string("  store ") + F + " " + Q + ", " + F + "* " + X.Name + "\n";
          else
            api(T, Q);
        } else {
          api(T, R);
          if (C.chance(1, 6))
            api(T, R);
        }
      } else if (K == 7) {
        Decls.insert("declare i32 @input()\n");
        T += "  " + v() + " = call i32 @input()\n";
      } else {
        Decls.insert("declare i32 @input()\n");
        auto Ci = v(), Cc = v();
        auto A = "a" + std::to_string(N), B = "b" + std::to_string(N),
             E = "e" + std::to_string(N);
        ++N;
        bool Loop = K == 10;
        if (Loop) {
          T += "  br label %" + A + "\n" + A + ":\n";
          T += "  " + Ci + " = call i32 @input()\n  " + Cc +
               " = icmp sgt i32 " + Ci + ", 1\n";
          T += "  br i1 " + Cc + ", label %" + B + ", label %" + E + "\n";
          T += B + ":\n";
          block(T, Label, Vs, 1 + C.draw(3), Depth - 1, Help);
          T += "  br label %" + A + "\n" + E + ":\n";
        } else {
          T += "  " + Ci + " = call i32 @input()\n  " + Cc +
               " = icmp sgt i32 " + Ci + ", 1\n";
          T += "  br i1 " + Cc + ", label %" + A + ", label %" + B + "\n";
          T += A + ":\n";
          block(T, Label, Vs, C.draw(4), Depth - 1, Help);
          T += "  br label %" + E + "\n" + B + ":\n";
          block(T, Label, Vs, C.draw(3), Depth - 1, Help);
          T += "  br label %" + E + "\n" + E + ":\n";
        }
      }
    }
  }
  // Pass: returns its argument
  std::string user(bool Pass = false) {
    auto Nm = "use" + std::to_string(NF++);
    std::string T = std::string("define ") + (Pass ? F : "void") + " @" + Nm + "(" + F + " %p) {\nentry:\n";
    bool O0 = C.flip();
    std::string L = "entry";
    if (O0) {
      std::vector<Var> Vs{{"%p.addr", {}, {}}};
      T += std::string("  %p.addr = alloca ") + F + "\n  store " + F + " %p, " + F +
           "* %p.addr\n";
      for (unsigned K = 1 + C.draw(3); K; --K) {
        auto R = v();
        T += "  " + R + " = load " + F + ", " + F + "* %p.addr\n";
        api(T, R);
      }
    } else {
      for (unsigned K = 1 + C.draw(3); K; --K)
        api(T, "%p");
    }
    if (Pass && O0) {
      auto R = v();
      T += "  " + R + " = load " + F + ", " + F + "* %p.addr\n";
      T += std::string("  ret ") + F + " " + R + "\n}\n";
    } else
      T += Pass ? std::string("  ret ") + F + " %p\n}\n" : "  ret void\n}\n";
    Funs += T;
    return Nm;
  }
  std::string maker() {
    auto Nm = "make" + std::to_string(NF++);
    std::string T = std::string("define ") + F + " @" + Nm + "() {\nentry:\n";
    if (C.flip()) {
      std::vector<Var> Vs{{"%x", {}, {}}};
      std::string L = "entry";
      T += std::string("  %x = alloca ") + F + "\n";
      auto R = open(T);
      T += std::string("  store ") + F + " " + R + ", " + F + "* %x\n";
      block(T, L, Vs, C.draw(3), 0, false);
      auto Q = v();
      T += "  " + Q + " = load " + F + ", " + F + "* %x\n";
      T += std::string("  ret ") + F + " " + Q + "\n}\n";
    } else {
      auto R = open(T);
      if (C.chance(1, 3))
        api(T, R);
      T += std::string("  ret ") + F + " " + R + "\n}\n";
    }
    Funs += T;
    return Nm;
  }
  std::string run() {
    std::string T = "define i32 @main() {\nentry:\n";
    std::vector<Var> Vs;
    for (unsigned K = 0, E = 1 + C.draw(3); K < E; ++K) {
      Vs.push_back({"%f" + std::to_string(K), {}, {}});
      T += "  %f" + std::to_string(K) + " = alloca " + F + "\n";
    }
    std::string L = "entry";
    block(T, L, Vs, 2 + C.draw(Straight ? 10 : 6), Straight ? 0 : 2,
          C.chance(2, 3));
    T += "  ret i32 0\n}\n";
    std::string R = "%struct._IO_FILE = type { i32 }\n";
    for (auto &D : Decls)
      R += D;
    return R + Funs + T;
  }
};

void check(pbt::Ctx &C, bool Straight) {
  Gen G{C, Straight, {}, {}};
  auto Text = G.run();
  C.describe(Text);
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(Text, Err, Ctx);
  PBT_CHECK(C, M && !llvm::verifyModule(*M), "generator: " + Err.getMessage().str());
  LLVMProjectIRDB IRDB(M.get());
  LLVMAliasSet PT(&IRDB, C.flip());
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, nullptr, &PT,
                    Soundness::Soundy, false);
  CSTDFILEIOTypeStateDescription Desc;
  IDETypeStateAnalysis P(&IRDB, &PT, &Desc, {"main"});
  IDESolver S(P, &ICF);
  S.solve();

  std::map<std::pair<const Instruction *, const Value *>, std::set<St>> Obs;
  std::set<St> All;
  std::map<const Function *, std::set<unsigned>> Acts;
  bool Cut = false;
  for (unsigned Run = 0; Run < (Straight ? 1 : 6); ++Run) {
    interp::Machine X(*M);
    X.MaxSteps = 300;
    std::vector<St> State;
    auto Fresh = [&](St S) {
      State.push_back(S);
      return uint64_t(0x100000000ull + State.size() - 1);
    };
    auto Idx = [&](uint64_t H) -> size_t { return H - 0x100000000ull; };
    X.AfterInst = [&](interp::Frame &F, interp::Inst I) {
      if (llvm::isa<llvm::AllocaInst>(I))
        X.storeMem(F.R[I].B, 8, {Fresh(St::UNINIT)});
    };
    X.OnInst = [&](interp::Frame &F, interp::Inst I) {
      Acts[F.F].insert(F.Act);
      for (auto &[V, R] : F.R)
        if (llvm::isa<llvm::AllocaInst>(V)) {
          auto H = X.loadMem(R.B, 8).B;
          auto S = State.at(Idx(H));
          Obs[{I, V}].insert(S);
          All.insert(S);
        }
    };
    X.Extern = [&](interp::Frame &, const llvm::CallBase *CS, const Function *F,
                   std::vector<interp::Val> &A) {
      interp::Val V;
      auto N = F->getName();
      if (N == "input")
        V.B = uint32_t(C.range(-2, 4));
      else if (N == "fopen" || N == "fdopen")
        V.B = Fresh(St::OPENED);
      else
        for (auto &X : A)
          if (X.B >= 0x100000000ull && Idx(X.B) < State.size()) {
            auto &S = State[Idx(X.B)];
            S = next(N, S);
          }
      return V;
    };
    try {
      X.run(M->getFunction("main"), {});
    } catch (interp::Stop) {
      Cut = true;
    } catch (interp::Throw) {
    }
  }
  if (Straight && Cut)
    C.discard();
  C.nontrivial(All.size() >= 3 && Obs.size() >= 8);
  for (auto &[K, Ss] : Obs) {
    auto &[I, V] = K;
    auto R = S.resultAt(I, V);
    for (auto Is : Ss)
      PBT_CHECK(C, R == Is || R == St::BOT,
                "reported " + to_string(R).str() + " but is " +
                    to_string(Is).str() + ": " + str(V) + " at " + str(I));
    // the result of a call updates its variables before it is stored there
    bool Early = false;
    if (auto *Sto = llvm::dyn_cast<llvm::StoreInst>(I))
      Early = llvm::isa<llvm::CallBase>(Sto->getValueOperand());
    // the states of several contexts are joined before they are transformed
    if (Straight && Acts[I->getFunction()].size() == 1 && !Early)
      PBT_CHECK(C, R == *Ss.begin(),
                "not recognised as " + to_string(*Ss.begin()).str() + ": " +
                    str(V) + " at " + str(I));
  }
}
void sound(pbt::Ctx &C) { check(C, false); }
void precise(pbt::Ctx &C) { check(C, true); }
bool twoStreamsStillFails() {
  const char *T = R"(
%struct._IO_FILE = type { i32 }
declare %struct._IO_FILE* @fopen(i8*, i8*)
declare i32 @fclose(%struct._IO_FILE*)
define i32 @main() {
entry:
  %f0 = alloca %struct._IO_FILE*
  %f1 = alloca %struct._IO_FILE*
  %a = call %struct._IO_FILE* @fopen(i8* null, i8* null)
  store %struct._IO_FILE* %a, %struct._IO_FILE** %f0
  %b = call %struct._IO_FILE* @fopen(i8* null, i8* null)
  store %struct._IO_FILE* %b, %struct._IO_FILE** %f1
  %c = load %struct._IO_FILE*, %struct._IO_FILE** %f1
  %d = call i32 @fclose(%struct._IO_FILE* %c)
  ret i32 0
}
)";
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(T, Err, Ctx);
  if (!M)
    abort();
  LLVMProjectIRDB IRDB(M.get());
  LLVMAliasSet PT(&IRDB, false);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, nullptr, &PT,
                    Soundness::Soundy, false);
  CSTDFILEIOTypeStateDescription Desc;
  IDETypeStateAnalysis P(&IRDB, &PT, &Desc, {"main"});
  IDESolver S(P, &ICF);
  S.solve();
  auto *F = M->getFunction("main");
  auto R = S.resultAt(F->back().getTerminator(), &F->getEntryBlock().front());
  return R != St::OPENED && R != St::BOT;
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P10";
  P.Subs = {{"sound",
             "random programs that open, use and close streams held in "
             "variables (branches, loops, helpers): at each instruction of an "
             "execution, the reported state of each variable is the state of "
             "its stream, or BOT. Non-trivial: three different states occur",
             sound, 30000},
            {"precise",
             "the same, straight-line: the reported state is exactly the state "
             "of the stream. Non-trivial: three different states occur",
             precise, 20000}};
  P.Knowns = {{"P10-two-streams",
               "closing the stream of one variable changes the reported state "
               "of another variable",
               twoStreamsStillFails}};
  P.Assumptions = {"a program uses one stream variable",
                   "a stream is held by one variable at a time and helpers "
                   "serve one variable (the analysis treats may-aliases as "
                   "must-aliases)"};
  return pbt::run(argc, argv, P);
}
