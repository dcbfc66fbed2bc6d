// BUILD:
// P23: taint configurations (given as data or as annotations) tag exactly the
// values they name, and all queries agree with these tags.
#include "pbt.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigBase.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

#include <fstream>
#include <map>
#include <set>
#include <spawn.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace psr;
using llvm::Value;
using ValSet = std::set<const Value *>;
extern char **environ;

namespace {
std::string str(const Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (auto *F = llvm::dyn_cast<llvm::Function>(V))
    return ("@" + F->getName()).str();
  V->print(OS);
  if (auto *I = llvm::dyn_cast<llvm::Instruction>(V))
    OS << " in " << I->getFunction()->getName();
  if (auto *A = llvm::dyn_cast<llvm::Argument>(V))
    OS << " of " << A->getParent()->getName();
  return OS.str();
}

// ------------------------------------------------- programs, from C++ source
const char *const Cats[] = {"none", "source", "sink", "sanitizer"};

struct Var {
  std::string Name, Ty; // Ty: i(nt) c(har) p(int*) s0/s1 (struct)
  std::string Annot;
  unsigned Line = 0;
};
struct Fun {
  std::string Name;    // in the source
  std::string Ns;      // namespace, may be empty
  bool ExternC = false, Decl = false, Variadic = false, Static = false;
  std::string Ret; // i p
  std::string Annot;
  std::vector<Var> Params, Locals;
  std::string IRName;
};
struct Field {
  std::string Name, Ty, Annot;
  unsigned Line = 0;
};
struct Struct {
  std::string Name;
  bool IsClass = false;
  std::vector<Field> Fields;
};
struct Src {
  std::vector<Struct> Structs;
  std::vector<Fun> Funs;
  std::vector<Var> Globals;
  std::string Text;
  unsigned Line = 1;
  void put(const std::string &L) {
    Text += L + "\n";
    Line++;
  }
};

std::string tyName(const Src &P, const std::string &T) {
  if (T == "i")
    return "int";
  if (T == "c")
    return "char";
  if (T == "p")
    return "int *";
  return P.Structs[T[1] - '0'].Name;
}

struct SrcGen {
  pbt::Ctx &C;
  Src P;
  bool Annots;

  std::string annot() {
    if (!Annots || !C.chance(1, 4))
      return "";
    switch (C.weighted({6, 1, 1, 1})) {
    case 0:
      return std::string("psr.") + Cats[1 + C.draw(3)];
    case 1:
      return std::string("foo.") + Cats[1 + C.draw(3)]; // not for phasar
    case 2:
      return "psr.Source";
    default:
      return C.flip() ? "psr" : "psr.unknown";
    }
  }
  static std::string attr(const std::string &A) {
    return A.empty() ? "" : "__attribute__((annotate(\"" + A + "\"))) ";
  }
  std::string ty(bool Struct) {
    size_t K = C.weighted({4, 2, 3, Struct && !P.Structs.empty() ? 4u : 0u});
    if (K == 3)
      return "s" + std::to_string(C.draw(P.Structs.size()));
    return K == 0 ? "i" : K == 1 ? "c" : "p";
  }
  void gen() {
    P.put("extern \"C\" int cond();");
    P.put("extern \"C\" void take(const void *);");
    for (size_t N = C.draw(3), I = 0; I < N; ++I) {
      Struct S;
      S.Name = I ? "Beta" : "Alpha";
      S.IsClass = C.chance(1, 4);
      P.put((S.IsClass ? "class " : "struct ") + S.Name + " {");
      if (S.IsClass)
        P.put("public:");
      static const char *const FN[] = {"foo", "bar", "qux"};
      for (size_t K = 1 + C.draw(3), J = 0; J < K; ++J) {
        Field F;
        F.Name = FN[J];
        F.Ty = C.flip() ? "i" : C.flip() ? "p" : "c";
        F.Annot = annot();
        F.Line = P.Line;
        P.put("  " + attr(F.Annot) + tyName(P, F.Ty) + " " + F.Name + ";");
        S.Fields.push_back(F);
      }
      P.put("};");
      P.Structs.push_back(S);
    }
    for (size_t N = C.draw(2); N; --N) {
      Var G{"glob", C.flip() ? "i" : "c", annot(), P.Line};
      P.put(attr(G.Annot) + tyName(P, G.Ty) + " glob;");
      P.Globals.push_back(G);
    }
    size_t NF = 1 + C.draw(4);
    for (size_t I = 0; I < NF; ++I)
      fun(I);
    mainFun();
  }
  void fun(size_t I) {
    Fun F;
    F.Name = "fn" + std::to_string(I);
    F.Decl = C.chance(1, 3);
    F.ExternC = F.Decl || C.chance(1, 3);
    F.Static = !F.ExternC && C.chance(1, 4);
    if (!F.ExternC && C.chance(1, 4))
      F.Ns = "ns";
    F.Variadic = F.Decl && C.chance(1, 3);
    F.Ret = C.flip() ? "i" : "p";
    F.Annot = annot();
    size_t NP = C.draw(4);
    for (size_t J = 0; J < NP; ++J)
      F.Params.push_back(
          {"p" + std::to_string(J), ty(false), F.Decl ? "" : annot(), 0});
    if (F.Variadic && F.Params.empty())
      F.Params.push_back({"p0", "p", "", 0});
    std::string H = attr(F.Annot);
    if (!F.Ns.empty())
      H = "namespace ns { " + H;
    if (F.ExternC)
      H += "extern \"C\" ";
    if (F.Static)
      H += "static ";
    H += tyName(P, F.Ret) + " " + F.Name + "(";
    unsigned Line = P.Line;
    for (size_t J = 0; J < F.Params.size(); ++J) {
      F.Params[J].Line = Line;
      H += (J ? ", " : "") + attr(F.Params[J].Annot) +
           tyName(P, F.Params[J].Ty) + " " + F.Params[J].Name;
    }
    H += F.Variadic ? ", ...)" : ")";
    if (F.Decl) {
      P.put(H + ";");
    } else {
      P.put(H + " {");
      body(F);
      P.put(F.Ret == "i" ? "  return 0;" : "  return 0;");
      P.put(F.Ns.empty() ? "}" : "} }");
    }
    F.IRName = F.ExternC ? F.Name : "_Z3" + F.Name + "v"; // see resolve()
    P.Funs.push_back(F);
  }
  std::string arg(const std::string &Ty, const std::vector<Var> &Vs) {
    std::vector<std::string> Ok;
    for (auto &V : Vs) {
      if (V.Ty == Ty)
        Ok.push_back(V.Name);
      if (Ty == "p" && V.Ty == "i")
        Ok.push_back("&" + V.Name);
      if (V.Ty[0] == 's')
        for (auto &F : P.Structs[V.Ty[1] - '0'].Fields)
          if (F.Ty == Ty)
            Ok.push_back(V.Name + "." + F.Name);
    }
    if (Ok.empty() || C.chance(1, 6))
      return Ty == "p" ? "(int *)0" : "1";
    return C.pick(Ok);
  }
  void body(Fun &F) {
    std::vector<Var> Vs = F.Params;
    static const char *const LN[] = {"foo", "loc", "bar", "tmp"};
    for (size_t N = C.draw(4), J = 0; J < N; ++J) {
      Var V{LN[J], ty(true), annot(), P.Line};
      P.put("  " + attr(V.Annot) + tyName(P, V.Ty) + " " + V.Name + ";");
      F.Locals.push_back(V);
      Vs.push_back(V);
    }
    for (size_t N = C.draw(5); N; --N) {
      switch (C.weighted({4, 3, 2, 2})) {
      case 0: { // call
        if (P.Funs.empty())
          break;
        auto &G = C.pick(P.Funs);
        std::string S = G.Ns.empty() ? G.Name : "ns::" + G.Name;
        bool Ind = C.chance(1, 6);
        if (Ind)
          S = "(cond() ? " + S + " : (decltype(&" + S + "))0)";
        S += "(";
        for (size_t J = 0; J < G.Params.size(); ++J)
          S += (J ? ", " : "") + arg(G.Params[J].Ty, Vs);
        if (G.Variadic)
          for (size_t K = C.draw(3); K; --K)
            S += ", " + arg("p", Vs);
        P.put("  " + S + ");");
        break;
      }
      case 1: { // store
        std::vector<std::string> L;
        for (auto &V : Vs) {
          if (V.Ty == "i" || V.Ty == "c")
            L.push_back(V.Name);
          if (V.Ty[0] == 's')
            for (auto &Fi : P.Structs[V.Ty[1] - '0'].Fields)
              if (Fi.Ty != "p")
                L.push_back(V.Name + "." + Fi.Name);
        }
        if (!L.empty())
          P.put("  " + C.pick(L) + " = " + arg("i", Vs) + ";");
        break;
      }
      case 2: // a function as an argument
        if (!P.Funs.empty()) {
          auto &G = C.pick(P.Funs);
          P.put("  take((const void *)&" +
                (G.Ns.empty() ? G.Name : "ns::" + G.Name) + ");");
        }
        break;
      default:
        P.put("  take(" + arg("p", Vs) + ");");
      }
    }
  }
  void mainFun() {
    Fun F;
    F.Name = F.IRName = "main";
    F.Ret = "i";
    P.put("int main() {");
    body(F);
    P.put("  return 0;");
    P.put("}");
    P.Funs.push_back(F);
  }
};

struct Dir {
  std::string Path;
  Dir() {
    char B[] = "/tmp/p23XXXXXX";
    Path = mkdtemp(B);
  }
  ~Dir() {
    ::unlink((Path + "/a.cpp").c_str());
    ::unlink((Path + "/a.ll").c_str());
    ::rmdir(Path.c_str());
  }
};

std::unique_ptr<LLVMProjectIRDB> compile(pbt::Ctx &C, const std::string &Text,
                                         const char *Opt, bool Debug) {
  Dir D;
  auto In = D.Path + "/a.cpp", Out = D.Path + "/a.ll";
  std::ofstream(In) << Text;
  std::vector<const char *> A = {"/usr/bin/clang++-14",
                                 "-std=c++17",
                                 "-w",
                                 Opt,
                                 Debug ? "-g" : "-g0",
                                 "-Xclang",
                                 "-disable-O0-optnone",
                                 "-fno-discard-value-names",
                                 "-S",
                                 "-emit-llvm",
                                 "-o",
                                 Out.c_str(),
                                 In.c_str(),
                                 nullptr};
  pid_t Pid;
  if (posix_spawn(&Pid, A[0], nullptr, nullptr,
                  const_cast<char *const *>(A.data()), environ) != 0)
    C.fail("cannot run clang");
  int St;
  waitpid(Pid, &St, 0);
  if (St != 0)
    C.fail("generated source does not compile");
  return std::make_unique<LLVMProjectIRDB>(Out);
}

// the mangled names
void resolve(Src &P, const llvm::Module &M) {
  for (auto &F : P.Funs)
    if (!F.ExternC)
      for (auto &X : M)
        if (X.getName().contains("3" + F.Name))
          F.IRName = X.getName().str();
}

// ------------------------------------------------------------------ oracle
struct Tags {
  ValSet S[4];
  void add(const Value *V, int Cat) {
    if (Cat)
      S[Cat].insert(V);
  }
};

ValSet callsTo(const llvm::Module &M, const llvm::Function *F) {
  ValSet R;
  for (auto &G : M)
    for (auto &I : llvm::instructions(G))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I))
        if (CB->getCalledOperand()->stripPointerCasts() == F)
          R.insert(CB);
  return R;
}
const Value *localNamed(const llvm::Function *F, const std::string &N) {
  for (auto &I : llvm::instructions(F))
    if (I.getName() == N && llvm::isa<llvm::AllocaInst>(I))
      return &I;
  return nullptr;
}
ValSet geps(const llvm::Module &M, const Struct &S, unsigned Idx) {
  ValSet R;
  for (auto &G : M)
    for (auto &I : llvm::instructions(G))
      if (auto *GEP = llvm::dyn_cast<llvm::GetElementPtrInst>(&I))
        if (auto *T =
                llvm::dyn_cast<llvm::StructType>(GEP->getSourceElementType()))
          if (T->getName() == "struct." + S.Name ||
              T->getName() == "class." + S.Name)
            if (GEP->getNumIndices() == 2)
              if (auto *CI =
                      llvm::dyn_cast<llvm::ConstantInt>(GEP->getOperand(2)))
                if (CI->getZExtValue() == Idx)
                  R.insert(GEP);
  return R;
}

void compare(pbt::Ctx &C, const llvm::Module &M, const LLVMTaintConfig &Cfg,
             const Tags &T) {
  std::vector<const Value *> All;
  for (auto &G : M.globals())
    All.push_back(&G);
  for (auto &F : M) {
    All.push_back(&F);
    for (auto &A : F.args())
      All.push_back(&A);
    for (auto &I : llvm::instructions(F))
      All.push_back(&I);
  }
  for (auto *V : All) {
    bool Got[4] = {false, Cfg.isSource(V), Cfg.isSink(V), Cfg.isSanitizer(V)};
    for (int K = 1; K < 4; ++K)
      PBT_CHECK(C, Got[K] == !!T.S[K].count(V),
                str(V) + (Got[K] ? " is" : " is not") + " tagged as " +
                    Cats[K]);
    auto Want = Got[1]   ? TaintCategory::Source
                : Got[2] ? TaintCategory::Sink
                : Got[3] ? TaintCategory::Sanitizer
                         : TaintCategory::None;
    PBT_CHECK(C, Cfg.getCategory(V) == Want, "getCategory of " + str(V));
  }
}

void data(pbt::Ctx &C) {
  SrcGen G{C, {}, false};
  G.gen();
  bool Debug = !C.chance(1, 5), Opt = Debug && C.chance(1, 6);
  auto IRDB = compile(C, G.P.Text, Opt ? "-O1" : "-O0", Debug);
  auto &M = *IRDB->getModule();
  resolve(G.P, M);

  TaintConfigData D;
  Tags T;
  std::string Desc;
  // a name denotes one function
  std::set<std::pair<int, int>> Done;
  for (size_t N = C.draw(4); N; --N) {
    auto &F = C.pick(G.P.Funs);
    FunctionData FD;
    bool Plain = Debug && !F.Decl && C.flip();
    FD.Name = Plain ? F.Name : F.IRName;
    FD.ReturnCat = TaintCategory(C.draw(4));
    auto *Fn = M.getFunction(F.IRName);
    Desc += "function " + FD.Name + " ret " + Cats[int(FD.ReturnCat)];
    auto Params = [&](std::vector<uint32_t> &To, int Cat) {
      for (size_t K = C.draw(3); K; --K) {
        unsigned Idx = C.draw(F.Params.size() + 1);
        To.push_back(Idx);
        Desc += " " + std::to_string(Idx) + ":" + Cats[Cat];
        if (Fn && Idx < Fn->arg_size())
          T.add(Fn->getArg(Idx), Cat);
      }
    };
    Params(FD.SourceValues, 1);
    Params(FD.SinkValues, 2);
    Params(FD.SanitizerValues, 3);
    if (C.chance(1, 4)) {
      FD.HasAllSinkParam = true;
      Desc += " all:sink";
      if (Fn)
        for (auto &A : Fn->args())
          T.add(&A, 2);
    }
    if (Fn)
      for (auto *Call : callsTo(M, Fn))
        T.add(Call, int(FD.ReturnCat));
    Desc += "\n";
    D.Functions.push_back(FD);
  }
  if (!Opt)
    for (size_t N = C.draw(4); N; --N) {
      VariableData V;
      int Cat = 1 + C.draw(3);
      V.Cat = TaintCategory(Cat);
      if (!G.P.Structs.empty() && C.flip()) {
        auto &S = C.pick(G.P.Structs);
        unsigned Idx = C.draw(S.Fields.size());
        V.Scope = S.Name;
        V.Name = S.Fields[Idx].Name;
        V.Line = C.flip() ? S.Fields[Idx].Line : 0;
        if (Debug)
          for (auto *X : geps(M, S, Idx)) {
            // the type has to be known to the debug info
            T.add(X, Cat);
          }
      } else {
        auto &F = C.pick(G.P.Funs);
        if (F.Locals.empty())
          continue;
        auto &L = C.pick(F.Locals);
        V.Scope = F.Name;
        V.Name = L.Name;
        V.Line = L.Line;
        auto *Fn = M.getFunction(F.IRName);
        if (Fn && Debug)
          if (auto *X = localNamed(Fn, L.Name))
            T.add(X, Cat);
      }
      Desc += "variable " + V.Scope + "." + V.Name + " line " +
              std::to_string(V.Line) + " " + Cats[Cat] + "\n";
      D.Variables.push_back(V);
    }
  C.describe(G.P.Text + (Opt ? "// -O1\n" : "") + (Debug ? "" : "// -g0\n") +
             Desc);
  LLVMTaintConfig Cfg(*IRDB, D);
  compare(C, M, Cfg, T);
  C.nontrivial(T.S[1].size() + T.S[2].size() + T.S[3].size() >= 2);
}

int annotCat(const std::string &A) {
  for (int K = 1; K < 4; ++K)
    if (llvm::StringRef(A).equals_insensitive(std::string("psr.") + Cats[K]))
      return K;
  return 0;
}

void annotations(pbt::Ctx &C) {
  SrcGen G{C, {}, true};
  G.gen();
  C.describe(G.P.Text);
  auto IRDB = compile(C, G.P.Text, "-O0", C.flip());
  auto &M = *IRDB->getModule();
  resolve(G.P, M);
  Tags T;
  for (auto &F : G.P.Funs) {
    auto *Fn = M.getFunction(F.IRName);
    if (!Fn)
      continue;
    // an annotated function: what its calls return. Clang does not emit the
    // annotations of mere declarations
    if (!Fn->isDeclaration())
      for (auto *X : callsTo(M, Fn))
        T.add(X, annotCat(F.Annot));
    for (auto &L : F.Locals)
      if (auto *X = localNamed(Fn, L.Name))
        T.add(X, annotCat(L.Annot));
    if (!Fn->isDeclaration())
      for (size_t I = 0; I < F.Params.size(); ++I)
        T.add(Fn->getArg(I), annotCat(F.Params[I].Annot));
  }
  for (auto &S : G.P.Structs)
    for (size_t I = 0; I < S.Fields.size(); ++I)
      for (auto *X : geps(M, S, I))
        T.add(X, annotCat(S.Fields[I].Annot));
  // annotations of global variables have no meaning
  LLVMTaintConfig Cfg(*IRDB);
  compare(C, M, Cfg, T);
  C.nontrivial(T.S[1].size() + T.S[2].size() + T.S[3].size() >= 2);
}

// ----------------------------------------------------------------- queries
const char *const QueryIR = R"(
declare i32 @ext(i32*, i32, i32*)
declare i32 @var(i8*, ...)
define i32 @callee(i32* %a, i32 %b, i32* %c) {
  %x = alloca i32
  %y = load i32, i32* %a
  store i32 %y, i32* %x
  store i32 %b, i32* %c
  %z = add i32 %y, %b
  ret i32 %z
}
define i32* @ident(i32* %p) {
  ret i32* %p
}
define i32 @main(i32 %argc, i8** %argv) {
  %l = alloca i32
  %m = alloca i32
  store i32 %argc, i32* %l
  %r0 = call i32 @callee(i32* %l, i32 %argc, i32* %m)
  %r1 = call i32 @ext(i32* %l, i32 %r0, i32* %l)
  %s = load i8*, i8** %argv
  %r2 = call i32 (i8*, ...) @var(i8* %s, i32* %l, i32 %r1)
  %q = call i32* @ident(i32* %m)
  %r3 = call i32 @callee(i32* %q, i32 7, i32* %l)
  %v = load i32, i32* %q
  %w = add i32 %v, %r3
  ret i32 %w
}
)";

ValSet seen(llvm::function_ref<void(llvm::function_ref<void(const Value *)>)> F) {
  ValSet R;
  F([&](const Value *V) { R.insert(V); });
  return R;
}

void queries(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto MP = llvm::parseAssemblyString(QueryIR, Err, Ctx);
  LLVMProjectIRDB IRDB(MP.get());
  auto &M = *IRDB.getModule();
  std::vector<const Value *> All;
  std::vector<const llvm::Instruction *> Insts;
  for (auto &F : M) {
    for (auto &A : F.args())
      All.push_back(&A);
    for (auto &I : llvm::instructions(F)) {
      All.push_back(&I);
      Insts.push_back(&I);
    }
  }
  ValSet S[4];
  using CBMap = std::map<const llvm::Instruction *, ValSet>;
  CBMap CB[4];
  bool HasCB[4] = {};
  TaintConfigData Empty;
  std::string Desc;
  // callbacks are given to the constructor or registered later
  for (int K = 1; K < 4; ++K)
    if ((HasCB[K] = C.chance(1, 3)))
      for (size_t N = C.draw(4); N; --N) {
        auto *I = C.pick(Insts);
        auto *V = C.chance(1, 3) ? I
                  : I->getNumOperands()
                      ? I->getOperand(C.draw(I->getNumOperands()))
                      : C.pick(All);
        CB[K][I].insert(V);
        Desc += std::string("callback ") + Cats[K] + " at " + str(I) + ": " +
                str(V) + "\n";
      }
  auto Fn = [&](int K) -> LLVMTaintConfig::TaintDescriptionCallBackTy {
    if (!HasCB[K])
      return {};
    return [&CB, K](const llvm::Instruction *I) {
      auto It = CB[K].find(I);
      return It == CB[K].end() ? ValSet{} : It->second;
    };
  };
  bool Ctor = C.flip();
  LLVMTaintConfig Cfg =
      Ctor ? LLVMTaintConfig(Fn(1), Fn(2), Fn(3)) : LLVMTaintConfig(IRDB, Empty);
  if (!Ctor) {
    Cfg.registerSourceCallBack(Fn(1));
    Cfg.registerSinkCallBack(Fn(2));
    Cfg.registerSanitizerCallBack(Fn(3));
  }
  for (size_t N = C.draw(8); N; --N) {
    auto *V = C.pick(All);
    int K = 1 + C.draw(3);
    switch (C.draw(3)) {
    case 0:
      K == 1   ? Cfg.addSourceValue(V)
      : K == 2 ? Cfg.addSinkValue(V)
               : Cfg.addSanitizerValue(V);
      break;
    case 1:
      Cfg.addTaintCategory(V, TaintCategory(K));
      break;
    default:
      Cfg.addTaintCategory(V, llvm::StringRef(Cats[K]));
    }
    S[K].insert(V);
    Desc += std::string(Cats[K]) + ": " + str(V) + "\n";
  }
  if (C.chance(1, 4))
    Cfg.addTaintCategory(C.pick(All), TaintCategory::None);
  if (C.chance(1, 4))
    Cfg.addTaintCategory(C.pick(All), llvm::StringRef("none"));
  C.describe(Desc);

  Tags T;
  for (int K = 1; K < 4; ++K)
    T.S[K] = S[K];
  compare(C, M, Cfg, T);

  bool Some = false;
  for (auto *I : Insts) {
    auto *CBase = llvm::dyn_cast<llvm::CallBase>(I);
    const llvm::Function *Callee = CBase ? CBase->getCalledFunction() : nullptr;
    ValSet Want[4];
    for (int K = 1; K < 4; ++K) {
      if (CB[K].count(I))
        Want[K] = CB[K][I];
      if (Callee)
        for (auto &A : Callee->args())
          if (S[K].count(&A))
            Want[K].insert(CBase->getArgOperand(A.getArgNo()));
      Some |= !Want[K].empty();
    }
    if (S[1].count(I))
      Want[1].insert(I);
    // outside of calls, the variables that are sources are generated by every
    // instruction that uses them
    if (!Callee)
      for (auto &Op : I->operands())
        if (S[1].count(Op.get()))
          Want[1].insert(Op.get());
    ValSet Got[4];
    Got[1] = seen([&](auto H) { Cfg.forAllGeneratedValuesAt(I, Callee, H); });
    Got[2] = seen([&](auto H) { Cfg.forAllLeakCandidatesAt(I, Callee, H); });
    Got[3] = seen([&](auto H) { Cfg.forAllSanitizedValuesAt(I, Callee, H); });
    bool Any[4] = {false, Cfg.generatesValuesAt(I, Callee),
                   Cfg.mayLeakValuesAt(I, Callee),
                   Cfg.sanitizesValuesAt(I, Callee)};
    for (int K = 1; K < 4; ++K) {
      PBT_CHECK(C, Got[K] == Want[K],
                std::string(Cats[K]) + " values at " + str(I) + ": " +
                    std::to_string(Got[K].size()) + " instead of " +
                    std::to_string(Want[K].size()));
      PBT_CHECK(C, Any[K] == !Want[K].empty(),
                std::string("whether there are ") + Cats[K] + " values at " +
                    str(I));
    }
    if (CBase && Callee) {
      // what the analyses use
      ValSet A[4], B;
      collectGeneratedFacts(A[1], Cfg, CBase, Callee);
      collectLeakedFacts(A[2], Cfg, CBase, Callee);
      collectSanitizedFacts(A[3], Cfg, CBase, Callee);
      for (int K = 1; K < 4; ++K)
        PBT_CHECK(C, A[K] == Want[K],
                  std::string("collected ") + Cats[K] + " facts at " + str(I));
      auto Pred = [](const Value *V) { return V->getType()->isPointerTy(); };
      collectLeakedFacts(B, Cfg, CBase, Callee, Pred);
      ValSet WB;
      for (auto *V : Want[2])
        if (Pred(V))
          WB.insert(V);
      PBT_CHECK(C, B == WB, "conditionally leaked facts at " + str(I));
    }
  }
  std::map<const llvm::Instruction *, ValSet> Seeds;
  for (auto *V : S[1]) {
    if (auto *I = llvm::dyn_cast<llvm::Instruction>(V))
      Seeds[I].insert(V);
    if (auto *A = llvm::dyn_cast<llvm::Argument>(V))
      if (!A->getParent()->isDeclaration())
        Seeds[&A->getParent()->front().front()].insert(A);
  }
  PBT_CHECK(C, Cfg.makeInitialSeeds() == Seeds, "initial seeds");
  for (int K = 0; K < 4; ++K) {
    PBT_CHECK(C, toTaintCategory(to_string(TaintCategory(K))) ==
                     TaintCategory(K),
              "name of a category");
  }
  C.nontrivial(Some);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P23";
  P.Subs = {
      {"queries",
       "random values tagged through every interface, random callbacks; all "
       "queries for all instructions of a module with direct and variadic "
       "calls. Non-trivial: some call generates, leaks or sanitizes a value",
       queries, 20000, 0, 500},
      {"data",
       "random C++ programs compiled with and without debug info, random "
       "configurations of functions, members and variables. Non-trivial: at "
       "least two tagged values",
       data, 2500, 0, 10, 120},
      {"annotations",
       "random C++ programs with annotated functions, parameters, variables, "
       "members and globals. Non-trivial: at least two tagged values",
       annotations, 2500, 0, 10, 120},
  };
  P.Assumptions = {"names in configurations denote one function",
                   "programs are compiled by clang 14, with names of values"};
  return pbt::run(argc, argv, P);
}
