// BUILD:
// P32: IR is mapped back to its source, printed and exported faithfully.
#include "clangrun.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Utils/LLVMIRToSrc.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

#include <algorithm>
#include <map>
#include <set>
#include <sstream>

using namespace psr;
using llvm::Function;
using llvm::Instruction;

namespace {
template <typename... T> std::string cat(const T &...X) {
  std::ostringstream OS;
  (OS << ... << X);
  return OS.str();
}

// ---------------------------------------------------------------------------
// source: C++ text that remembers where everything is
struct Where {
  int File;
  unsigned Line, Col;
};
struct Var {
  std::string Fn, Name;
  Where At;
  int Arg = -1;
};
struct Text {
  std::string S;
  unsigned Line = 1, Col = 1;
  Text &operator<<(const std::string &X) {
    for (char Ch : X) {
      S += Ch;
      if (Ch == '\n') {
        ++Line;
        Col = 1;
      } else
        ++Col;
    }
    return *this;
  }
};

struct SrcGen {
  pbt::Ctx &C;
  Text T[2]; // a.cpp, h.h
  int Cur = 0;
  std::vector<Var> Vars, Globals;
  std::map<int, std::pair<Where, std::string>> Marks; // id -> place, function
  std::map<std::string, Where> Fns;
  int NMark = 0, NName = 0;
  std::string Fn;
  std::vector<std::string> Scope; // int variables
  explicit SrcGen(pbt::Ctx &C) : C(C) {}
  Text &out() { return T[Cur]; }
  Where here() { return {Cur, out().Line, out().Col}; }
  void ws() { // some layout
    switch (C.draw(6)) {
    case 0:
      out() << "\n";
      break;
    case 1:
      out() << "\n\n    ";
      break;
    case 2:
      out() << "  /* c */ ";
      break;
    case 3:
      out() << "\t";
      break;
    default:
      out() << " ";
    }
  }
  std::string var(bool Global = false) {
    // few names, so that they shadow each other
    return C.flip() && !Global ? std::string(1, char('a' + C.draw(4)))
                               : "v" + std::to_string(NName++);
  }
  std::string expr() {
    if (!Scope.empty() && C.chance(2, 3))
      return C.pick(Scope) + (C.flip() ? " + 1" : "");
    return std::to_string(C.draw(10));
  }
  void mark() {
    int K = NMark++;
    Marks[K] = {here(), Fn};
    out() << "mark(" + std::to_string(K) + ");";
  }
  void stmt(unsigned Depth) {
    ws();
    switch (C.weighted({3, 4, 2, Depth ? 2u : 0u, Depth ? 2u : 0u, Depth ? 1u : 0u, 1})) {
    case 0:
      mark();
      break;
    case 1: { // a variable
      static const char *Ty[] = {"int", "long", "double", "unsigned char"};
      auto N = var();
      // not again in the same scope
      if (std::find(Declared.back().begin(), Declared.back().end(), N) !=
          Declared.back().end()) {
        mark();
        break;
      }
      auto E = expr();
      int K = C.draw(6);
      if (K < 4)
        out() << std::string(Ty[K]) + " ";
      else if (K == 4)
        out() << "int *";
      else
        out() << "S ";
      Vars.push_back({Fn, N, here()});
      if (K == 4)
        out() << N + " = nullptr;";
      else if (K == 5)
        out() << N + ";";
      else {
        out() << N + " = " + E + ";";
      }
      Declared.back().push_back(N);
      if (K == 0)
        Scope.push_back(N);
      else
        Scope.erase(std::remove(Scope.begin(), Scope.end(), N), Scope.end());
      break;
    }
    case 2:
      if (!Scope.empty())
        out() << C.pick(Scope) + " = " + expr() + ";";
      else
        mark();
      break;
    case 3: {
      out() << "if (ext() > " + expr() + ") {";
      block(Depth - 1);
      out() << "}";
      if (C.flip()) {
        out() << " else {";
        block(Depth - 1);
        out() << "}";
      }
      break;
    }
    case 4: {
      auto Sc = Scope;
      auto N = "i" + std::to_string(NName++);
      out() << "for (int ";
      Vars.push_back({Fn, N, here()});
      out() << N + " = 0; " + N + " < ext(); ++" + N + ") {";
      Scope.push_back(N);
      block(Depth - 1);
      Scope = Sc;
      out() << "}";
      break;
    }
    case 5:
      out() << "{";
      block(Depth - 1);
      out() << "}";
      break;
    default: { // a static local
      auto N = "s" + std::to_string(NName++);
      out() << "static int ";
      Globals.push_back({Fn, N, here()});
      out() << N + " = 1; ++" + N + ";";
    }
    }
  }
  std::vector<std::vector<std::string>> Declared;
  void block(unsigned Depth) {
    auto Sc = Scope;
    Declared.emplace_back();
    for (unsigned N = C.range(1, 4); N; --N)
      stmt(Depth);
    Declared.pop_back();
    Scope = Sc;
    ws();
  }
  void function(const std::string &Name, const std::string &Demangled,
                bool Inline) {
    ws();
    Fn = Demangled; // without parameters
    out() << std::string(Inline ? "inline " : "") + "int ";
    if (C.chance(1, 4))
      out() << "\n";
    Fns[Fn] = here();
    out() << Name + "(";
    Scope.clear();
    Declared.emplace_back();
    static const char *Ty[] = {"int ", "long ", "int *", "S &", "double ",
                               "const int "};
    unsigned NP = C.draw(4);
    for (unsigned K = 0; K < NP; ++K) {
      if (K)
        out() << (C.chance(1, 3) ? ",\n  " : ", ");
      int TK = C.draw(6);
      out() << std::string(Ty[TK]);
      std::string N = std::string(1, "pqrs"[K]);
      Vars.push_back({Fn, N, here(), int(K)});
      out() << N;
      Declared.back().push_back(N);
      if (TK == 0)
        Scope.push_back(N);
    }
    out() << ") {";
    block(2);
    ws();
    out() << "return ext();";
    ws();
    out() << "}\n";
    Declared.pop_back();
  }
  void global() {
    ws();
    auto N = "g" + std::to_string(NName++);
    bool NS = C.chance(1, 4), St = C.chance(1, 4);
    out() << std::string(NS ? "namespace ns { " : "") +
                 (C.flip() ? "int " : "extern long w0; long *");
    Globals.push_back({NS ? "ns::" : "", N, here()});
    (void)St;
    out() << N + " = 0;" + (NS ? " }" : "") + "\n";
  }
  void run() {
    bool Header = C.flip();
    std::string Pre = "extern \"C\" void mark(int);\nextern \"C\" int ext();\n"
                      "struct S { int x; long y; };\n";
    if (Header) {
      Cur = 1;
      out() << Pre;
      for (unsigned N = C.range(1, 2); N; --N)
        if (C.flip())
          global();
        else
          function("h" + std::to_string(N), "h" + std::to_string(N), false);
      Cur = 0;
      for (unsigned N = C.draw(3); N; --N)
        out() << "\n";
      out() << "#include \"h.h\"\n";
    } else
      out() << Pre;
    for (unsigned N = C.range(1, 4); N; --N) {
      switch (C.weighted({2, 4, 2, 1})) {
      case 0:
        global();
        break;
      case 1: {
        auto X = "f" + std::to_string(NName++);
        function(X, X, false);
        break;
      }
      case 2: {
        auto X = "n" + std::to_string(NName++);
        ws();
        out() << "namespace ns {";
        function(X, "ns::" + X, false);
        out() << "}\n";
        break;
      }
      default: {
        auto X = "K" + std::to_string(NName++);
        ws();
        out() << "struct " + X + " {";
        function("m", X + "::m", false);
        out() << "};\n";
        // the method must be used to be emitted
        out() << "int (" + X + "::*use" + X + ")(...) = (int (" + X +
                     "::*)(...))&" + X + "::m;\n";
        break;
      }
      }
    }
  }
};

std::string line(const std::string &S, unsigned N) {
  std::istringstream IS(S);
  std::string L;
  while (N-- && std::getline(IS, L))
    ;
  return L;
}
std::string base(const std::string &Demangled) {
  return Demangled.substr(0, Demangled.find('('));
}

void source(pbt::Ctx &C) {
  SrcGen G(C);
  G.run();
  clangrun::Dir D;
  D.write("a.cpp", G.T[0].S);
  D.write("h.h", G.T[1].S);
  bool Relative = C.flip();
  bool Promote = C.chance(1, 3);
  std::string Out = D.Path + "/a.ll";
  std::vector<std::string> Args = {"-std=c++17", "-w", "-O0", "-g", "-Xclang",
                                   "-disable-O0-optnone", "-S", "-emit-llvm",
                                   "-o", Out};
  if (Relative)
    Args.push_back("-working-directory=" + D.Path);
  Args.push_back(Relative ? "a.cpp" : D.Path + "/a.cpp");
  C.describe(G.T[0].S + "\n--- h.h\n" + G.T[1].S);
  if (!clangrun::clang(Args)) {
    C.fail("harness: the program does not compile");
    return;
  }
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseIRFile(Out, Err, Ctx);
  if (!M) {
    C.fail("harness: " + Err.getMessage().str());
    return;
  }
  if (Promote) {
    for (auto &F : *M) {
      if (F.isDeclaration())
        continue;
      llvm::DominatorTree DT(F);
      std::vector<llvm::AllocaInst *> As;
      for (auto &I : F.getEntryBlock())
        if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(&I))
          if (llvm::isAllocaPromotable(A))
            As.push_back(A);
      llvm::PromoteMemToReg(As, DT);
    }
    C.label("promoted");
  }
  C.label(Relative ? "relative" : "absolute");
  auto M0 = M.get();
  LLVMProjectIRDB IRDB(M0);

  auto Path = [&](int File) { return D.Path + (File ? "/h.h" : "/a.cpp"); };
  auto Dir = [&](const std::string &P) {
    return std::filesystem::path(P).lexically_normal().string();
  };
  auto CheckFile = [&](const llvm::Value *V, int File, const std::string &W) {
    auto P = getFilePathFromIR(V);
    PBT_CHECK(C, Dir(P) == Path(File), W + ": file path " + P);
    auto *DIF = getDIFileFromIR(V);
    PBT_CHECK(C, DIF, W + ": no DIFile");
    PBT_CHECK(C, getFilePathFromIR(DIF) == P, W + ": path of the DIFile");
    auto DL = getDebugLocation(V);
    PBT_CHECK(C, DL && DL->File == DIF, W + ": file of the debug location");
    PBT_CHECK(C, getDirectoryFromIR(V) == DIF->getDirectory(),
              W + ": directory");
  };
  auto CheckPlace = [&](const llvm::Value *V, Where At, bool HasCol,
                        const std::string &W) {
    unsigned Col = HasCol ? At.Col : 0;
    PBT_CHECK(C, getLineFromIR(V) == At.Line,
              cat(W, ": line ", getLineFromIR(V), " is not ", At.Line));
    PBT_CHECK(C, getColumnFromIR(V) == Col,
              cat(W, ": column ", getColumnFromIR(V), " is not ", Col));
    PBT_CHECK(C, getLineAndColFromIR(V) == std::make_pair(At.Line, Col),
              W + ": line and column");
    auto DL = getDebugLocation(V);
    PBT_CHECK(C, DL && DL->Line == At.Line && DL->Column == Col,
              W + ": debug location");
    CheckFile(V, At.File, W);
    auto L = line(G.T[At.File].S, At.Line);
    PBT_CHECK(C, getSrcCodeFromIR(V, false) == L,
              W + ": source line '" + getSrcCodeFromIR(V, false) + "'");
    auto Trimmed = llvm::StringRef(L).trim().str();
    PBT_CHECK(C, getSrcCodeFromIR(V) == Trimmed, W + ": trimmed source line");
    auto I = getSrcCodeInfoFromIR(V);
    PBT_CHECK(C,
              I.SourceCodeLine == Trimmed && I.Line == At.Line &&
                  I.Column == Col &&
                  I.SourceCodeFilename == getFilePathFromIR(V) &&
                  I.SourceCodeFunctionName ==
                      llvm::demangle(getFunctionNameFromIR(V)),
              W + ": source code info");
  };

  unsigned Seen = 0;
  std::multiset<std::string> Got, Want;
  auto Key = [](const std::string &Fn, const std::string &N, unsigned L,
                unsigned Col) { return cat(Fn, "/", N, ":", L, ":", Col); };
  for (auto &V : G.Vars)
    Want.insert(Key(V.Fn, V.Name, V.At.Line, V.At.Col));
  for (auto &F : *M) {
    PBT_CHECK(C, getModuleIDFromIR(&F) == M->getModuleIdentifier(),
              "module id");
    PBT_CHECK(C, getFunctionNameFromIR(&F) == F.getName(), "function name");
    auto Dem = base(llvm::demangle(F.getName().str()));
    auto It = G.Fns.find(Dem);
    if (It == G.Fns.end())
      continue;
    // the line of a function is the one of its name
    CheckPlace(&F, It->second, false, "function " + Dem);
    for (auto &Arg : F.args()) {
      PBT_CHECK(C, getFunctionNameFromIR(&Arg) == F.getName(),
                "function of an argument");
      PBT_CHECK(C, getModuleIDFromIR(&Arg) == M->getModuleIdentifier(),
                "module of an argument");
      for (auto &V : G.Vars) {
        int Shift = Dem.find("::m") != std::string::npos && Dem[0] == 'K';
        if (V.Fn != Dem || V.Arg < 0 || V.Arg + Shift != int(Arg.getArgNo()))
          continue;
        PBT_CHECK(C, getVarNameFromIR(&Arg) == V.Name,
                  "argument " + V.Name + " of " + Dem + " is called " +
                      getVarNameFromIR(&Arg));
        if (!Promote)
          CheckPlace(&Arg, V.At, true, "argument " + V.Name + " of " + Dem);
      }
    }
    for (auto &I : llvm::instructions(F)) {
      PBT_CHECK(C, getFunctionNameFromIR(&I) == F.getName(),
                "function of an instruction");
      PBT_CHECK(C, getModuleIDFromIR(&I) == M->getModuleIdentifier(),
                "module of an instruction");
      auto N = getVarNameFromIR(&I);
      if (llvm::isa<llvm::AllocaInst>(I)) {
        if (!N.empty() && N != "this") {
          Got.insert(Key(Dem, N, getLineFromIR(&I), getColumnFromIR(&I)));
          for (auto &V : G.Vars)
            if (V.Fn == Dem && V.Name == N && V.At.Line == getLineFromIR(&I) &&
                V.At.Col == getColumnFromIR(&I))
              CheckPlace(&I, V.At, true, "variable " + N + " in " + Dem);
        }
      } else if (!N.empty()) {
        // a value of this variable
        bool Found = false;
        for (auto &J : llvm::instructions(F))
          if (auto *DVI = llvm::dyn_cast<llvm::DbgValueInst>(&J))
            Found |= DVI->getValue() == &I && DVI->getVariable()->getName() == N;
        PBT_CHECK(C, Found, "the value is no value of variable " + N);
      }
      auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
      if (!CB || !CB->getCalledFunction() ||
          CB->getCalledFunction()->getName() != "mark")
        continue;
      int K = llvm::cast<llvm::ConstantInt>(CB->getArgOperand(0))->getZExtValue();
      auto &[At, Fn] = G.Marks.at(K);
      PBT_CHECK(C, Fn == Dem, "mark in the wrong function");
      CheckPlace(&I, At, true, cat("mark ", K));
      ++Seen;
    }
  }
  if (!Promote)
    PBT_CHECK(C, Got == Want, [&] {
      std::string S = "variables differ:";
      for (auto &X : Want)
        if (!Got.count(X))
          S += " missing " + X;
      for (auto &X : Got)
        if (!Want.count(X))
          S += " unknown " + X;
      return S;
    }());
  std::map<std::string, Where> GV;
  for (auto &V : G.Globals)
    GV[V.Name] = V.At;
  unsigned NG = 0;
  for (auto &V : M->globals()) {
    PBT_CHECK(C, getModuleIDFromIR(&V) == M->getModuleIdentifier(), "module");
    auto N = getVarNameFromIR(&V);
    if (!GV.count(N))
      continue;
    ++NG;
    CheckPlace(&V, GV[N], false, "global " + N);
    PBT_CHECK(C, getFunctionNameFromIR(&V).empty(), "function of a global");
  }
  PBT_CHECK(C, NG == GV.size(), "a global has no name");
  C.nontrivial(Seen >= 2 && G.Vars.size() >= 3);

  // SourceCodeInfo: exchange format and equivalence
  std::vector<SourceCodeInfo> Infos;
  for (auto &F : *M)
    for (auto &I : llvm::instructions(F))
      if (Infos.size() < 6 && C.chance(1, 4))
        Infos.push_back(getSrcCodeInfoFromIR(&I));
  for (auto Moved : std::vector<SourceCodeInfo>(Infos)) {
    // the same source in another place
    static const char *Files[] = {"a.cpp",        "/x/a.cpp", "/y/z/a.cpp",
                                  "/x/ba.cpp",    "xa.cpp",   "y/a.cpp",
                                  "/y/z/h.h",     "",         "b.cpp"};
    Moved.SourceCodeFilename = Files[C.draw(9)];
    Infos.push_back(Moved);
  }
  auto File = [](const SourceCodeInfo &I) {
    return I.SourceCodeFilename.substr(I.SourceCodeFilename.rfind('/') + 1);
  };
  for (auto &A : Infos) {
    nlohmann::json J = A;
    auto B = J.get<SourceCodeInfo>();
    PBT_CHECK(C,
              A == B && A.SourceCodeFunctionName == B.SourceCodeFunctionName,
              "json round trip of " + J.dump());
    PBT_CHECK(C, A.empty() == A.SourceCodeLine.empty(), "empty()");
    for (auto &B : Infos) {
      bool Same = A.Line == B.Line && A.Column == B.Column &&
                  A.SourceCodeLine == B.SourceCodeLine;
      PBT_CHECK(C,
                (A == B) ==
                    (Same && A.SourceCodeFilename == B.SourceCodeFilename),
                "operator==");
      PBT_CHECK(C, (A != B) == !(A == B), "operator!=");
      if (A.SourceCodeFilename.empty() != B.SourceCodeFilename.empty())
        continue;
      PBT_CHECK(C,
                A.equivalentWith(B) ==
                    (Same && File(A) == File(B) &&
                     A.SourceCodeFunctionName == B.SourceCodeFunctionName),
                "equivalentWith of " + nlohmann::json(A).dump() + " and " +
                    nlohmann::json(B).dump());
    }
  }
}

// ---------------------------------------------------------------------------
// strings: printing of values
void strings(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Opts O;
  O.MinFuns = 1;
  O.MaxFuns = 3;
  O.Invokes = O.Dbg = O.Select = O.Structs = O.Arrays = O.FnPtrs = C.flip();
  irgen::Gen G(C, O, Ctx);
  auto M = G.run();
  C.describe(irgen::print(*M));
  auto IRDB = std::make_unique<LLVMProjectIRDB>(M.get());
  bool Extended = C.flip();
  std::unique_ptr<LLVMBasedICFG> ICF;
  if (Extended) {
    // adds functions to the module
    if (C.flip())
      llvmIRToString(&*llvm::inst_begin(M->getFunction("main")));
    ICF = std::make_unique<LLVMBasedICFG>(
        IRDB.get(), CallGraphAnalysisType::CHA,
        std::vector<std::string>{"main"}, nullptr, nullptr, Soundness::Soundy,
        true);
    C.label("with the globals model");
  }
  bool Shuffle = C.flip();
  auto Run = [&] {
    llvm::ModuleSlotTracker MST(M.get());
    auto Check = [&](const llvm::Value *V) {
      std::string Own;
      {
        llvm::raw_string_ostream OS(Own);
        if (llvm::isa<Function>(V))
          V->print(OS); // would spoil MST
        else
          V->print(OS, MST);
      }
      Own = llvm::StringRef(Own).ltrim().str();
      auto Id = " | ID: " + getMetaDataID(V);
      PBT_CHECK(C, llvmIRToString(V) == Own + Id,
                "llvmIRToString: '" + llvmIRToString(V) + "' for " + Own);
      auto Stable = Own.substr(0, Own.find_first_of("!#"));
      while (!Stable.empty() && strchr(" ,\t\n", Stable.back()) &&
             Stable.size() < Own.size())
        Stable.pop_back();
      auto S = llvmIRToStableString(V);
      PBT_CHECK(C, S == Stable + Id,
                "llvmIRToStableString: '" + S + "' for " + Own);
      std::string Short;
      {
        llvm::raw_string_ostream OS(Short);
        if (llvm::isa<Instruction>(V) && !V->getType()->isVoidTy())
          V->printAsOperand(OS, true, MST);
        else if (llvm::isa<Function>(V))
          OS << V->getName();
        else
          V->print(OS, MST);
      }
      PBT_CHECK(C,
                llvmIRToShortString(V) ==
                    llvm::StringRef(Short).ltrim().str() + Id,
                "llvmIRToShortString: '" + llvmIRToShortString(V) + "'");
    };
    unsigned N = 0;
    std::vector<const llvm::Value *> Vs;
    for (auto &F : *M) {
      for (auto &A : F.args())
        Vs.push_back(&A);
      for (auto &I : llvm::instructions(F)) {
        Vs.push_back(&I);
        ++N;
      }
      Vs.push_back(&F);
    }
    for (auto &V : M->globals())
      Vs.push_back(&V);
    if (Shuffle)
      for (size_t K = Vs.size(); K > 1; --K)
        std::swap(Vs[K - 1], Vs[C.draw(K)]);
    for (auto *V : Vs)
      Check(V);
    C.nontrivial(N >= 10);
  };
  Run();
  PBT_CHECK(C, llvmIRToString(nullptr) == "<null>" &&
                   llvmIRToStableString(nullptr) == "<null>" &&
                   llvmIRToShortString(nullptr) == "<null>",
            "null");
  if (C.flip()) { // a second database of the same module
    ICF.reset();
    {
      LLVMProjectIRDB Other(M.get());
      Run();
    }
    if (C.flip())
      IRDB->getModule();
    Run();
  }
}

// ---------------------------------------------------------------------------
// icfg: the exported graphs
void icfg(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Opts O;
  O.MinFuns = 2;
  O.MaxFuns = 5;
  O.Invokes = O.Dbg = O.Unreach = O.MultiRet = O.FnPtrs = true;
  O.Linkage = C.chance(1, 4);
  O.DeadBlocks = C.chance(1, 4);
  irgen::Gen G(C, O, Ctx);
  auto M = G.run();
  C.describe(irgen::print(*M));
  LLVMProjectIRDB IRDB(M.get());
  static const CallGraphAnalysisType Ty[] = {
      CallGraphAnalysisType::CHA, CallGraphAnalysisType::OTF,
      CallGraphAnalysisType::NORESOLVE};
  LLVMBasedICFG ICF(&IRDB, Ty[C.draw(3)], {"main"}, nullptr, nullptr,
                    Soundness::Soundy, false);
  using E = std::pair<const Instruction *, const Instruction *>;
  std::multiset<std::pair<std::string, std::string>> Want, Got;
  std::multiset<E> WantPtr;
  std::multiset<const Instruction *> Nodes;
  std::map<E, std::string> Label;
  auto Next = [&](const Instruction *I) {
    while (llvm::isa<llvm::DbgInfoIntrinsic>(I))
      I = I->getNextNode();
    return I;
  };
  unsigned Inter = 0;
  for (auto *F : ICF.getAllVertexFunctions()) {
    for (auto &I : llvm::instructions(F)) {
      if (llvm::isa<llvm::DbgInfoIntrinsic>(I))
        continue;
      Nodes.insert(&I);
      std::vector<const Instruction *> Succs;
      if (I.isTerminator())
        for (auto *B : llvm::successors(I.getParent()))
          Succs.push_back(Next(&B->front()));
      else
        Succs.push_back(Next(I.getNextNode()));
      for (auto *S : Succs) {
        if (!llvm::isa<llvm::CallBase>(I)) {
          WantPtr.insert({&I, S});
          continue;
        }
        bool Decl = false;
        auto Cs = ICF.getCalleesOfCallAt(&I);
        for (auto *Callee : Cs) {
          if (Callee->isDeclaration()) {
            Decl = true;
            continue;
          }
          ++Inter;
          WantPtr.insert({&I, Next(&Callee->front().front())});
          for (auto &X : llvm::instructions(Callee))
            if (llvm::isa<llvm::ReturnInst>(X) || llvm::isa<llvm::ResumeInst>(X))
              WantPtr.insert({&X, S});
        }
        if (Decl || Cs.empty())
          WantPtr.insert({&I, S});
      }
    }
  }
  for (auto &[A, B] : WantPtr)
    Want.insert({llvmIRToStableString(A), llvmIRToStableString(B)});
  C.nontrivial(Inter >= 1);
  auto Str = [](const std::pair<std::string, std::string> &P) {
    return P.first + " -> " + P.second;
  };
  auto Same = [&](const char *W) {
    for (auto &P : Want)
      PBT_CHECK(C, Got.count(P) == Want.count(P),
                cat(W, ": ", Got.count(P), " instead of ", Want.count(P),
                    " edges ", Str(P)));
    for (auto &P : Got)
      PBT_CHECK(C, Want.count(P), cat(W, ": impossible edge ", Str(P)));
  };
  for (auto &X : ICF.exportICFGAsJson(false))
    Got.insert({X.at("from").get<std::string>(), X.at("to").get<std::string>()});
  Same("json");
  Got.clear();
  std::map<std::string, const Instruction *> ByStr;
  for (auto *I : Nodes)
    ByStr[llvmIRToStableString(I)] = I;
  for (auto &X : ICF.exportICFGAsJson(true)) {
    std::pair<std::string, std::string> P;
    for (int K : {0, 1}) {
      auto &Y = X.at(K ? "to" : "from");
      auto S = Y.at("IR").get<std::string>();
      (K ? P.second : P.first) = S;
      PBT_CHECK(C, ByStr.count(S), "source json: no node " + S);
      nlohmann::json J = getSrcCodeInfoFromIR(ByStr[S]);
      J["IR"] = S;
      // the entry of a function is shown by its first line of code
      if (!K || &ByStr[S]->getFunction()->front() != ByStr[S]->getParent())
        PBT_CHECK(C, J == Y, "source json: " + Y.dump() + " is not " + J.dump());
    }
    Got.insert(P);
  }
  PBT_CHECK(C, Got.size() == Want.size(), "source json: number of edges");

  for (bool Src : {false, true}) {
    std::istringstream IS(ICF.exportICFGAsDot(Src));
    std::string L;
    PBT_CHECK(C, std::getline(IS, L) && L == "digraph ICFG{", "dot: header");
    std::multiset<const Instruction *> GotNodes;
    std::multiset<E> GotPtr;
    bool Closed = false;
    std::string Pending;
    while (std::getline(IS, L)) {
      if (!Pending.empty()) { // a label with several lines
        Pending += "\n" + L;
        if (L.size() >= 3 && L.compare(L.size() - 3, 3, "\"];") == 0) {
          L = Pending;
          Pending.clear();
        } else
          continue;
      }
      PBT_CHECK(C, !Closed, "dot: text after the end");
      if (L == "}") {
        Closed = true;
        continue;
      }
      char *End;
      auto From = (const Instruction *)strtoull(L.c_str(), &End, 10);
      PBT_CHECK(C, Nodes.count(From), "dot: unknown node in " + L);
      std::string R = End;
      if (R.rfind("[label=\"", 0) == 0) {
        if (R.size() < 3 || R.compare(R.size() - 3, 3, "\"];") != 0) {
          Pending = L;
          continue;
        }
        GotNodes.insert(From);
        std::string Esc;
        llvm::raw_string_ostream(Esc).write_escaped(llvmIRToStableString(From));
        PBT_CHECK(C, R.find(Esc) != std::string::npos,
                  "dot: label " + R + " without " + Esc);
        if (Src && getLineFromIR(From))
          PBT_CHECK(C,
                    R.find(cat("\nLine: ", getLineFromIR(From), "\nColumn: ",
                               getColumnFromIR(From), "\"")) !=
                        std::string::npos,
                    "dot: no line in " + R);
        continue;
      }
      PBT_CHECK(C, R.rfind("->", 0) == 0, "dot: cannot read " + L);
      auto To = (const Instruction *)strtoull(R.c_str() + 2, &End, 10);
      GotPtr.insert({From, To});
      R = End;
      if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(From);
          Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
        bool T = Next(&Br->getSuccessor(0)->front()) == To;
        PBT_CHECK(C, R == (T ? "[label=\"true\"];" : "[label=\"false\"];"),
                  "dot: wrong label in " + L);
      }
      if (auto *Inv = llvm::dyn_cast<llvm::InvokeInst>(From);
          Inv && To->getFunction() == Inv->getFunction()) {
        bool N = Next(&Inv->getNormalDest()->front()) == To;
        bool U = Next(&Inv->getUnwindDest()->front()) == To;
        if (N != U)
          PBT_CHECK(C, R == (N ? "[label=\"normal\"];" : "[label=\"unwind\"];") ||
                           R == ";",
                    "dot: wrong label in " + L);
      }
    }
    PBT_CHECK(C, Closed, "dot: not closed");
    PBT_CHECK(C, GotNodes == Nodes, "dot: nodes differ");
    // Note: two edges to the same successor may be drawn once or twice
    PBT_CHECK(C, std::set<E>(GotPtr.begin(), GotPtr.end()) ==
                     std::set<E>(WantPtr.begin(), WantPtr.end()),
              "dot: edges differ");
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P32";
  P.Subs = {
      {"source",
       "random C++ programs compiled by clang -g (absolute and relative paths, "
       "an included file, several statements per line, shadowed names, "
       "promoted or not); names, lines, columns, files and source lines of "
       "functions, variables, arguments, globals and calls are compared with "
       "where the generator put them. Non-trivial: two calls and three "
       "variables",
       source, 4000},
      {"strings",
       "random modules; the three printed forms of every value, in source or "
       "random order, are compared with LLVM's, also after the module was "
       "extended. Non-trivial: ten "
       "instructions",
       strings, 8000},
      {"icfg",
       "random programs; the exported ICFG (JSON with and without source, dot) "
       "is compared with the successors, callees and exits. Non-trivial: a call "
       "to a function with a body",
       icfg, 8000}};
  return pbt::run(argc, argv, P);
}
