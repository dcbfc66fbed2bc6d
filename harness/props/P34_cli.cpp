// BUILD: cli
// P34: the command line tool computes and prints what the library computes for
// the given options, to stdout as well as to the output directory.
#include "clangrun.h"
#include "cppgen.h"
#include "irgen.h"
#include "pbt.h"

#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESolverTest.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSSolverTest.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTypeAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Passes/GeneralStatisticsAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"

#include "llvm/ADT/StringExtras.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "nlohmann/json.hpp"

#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <sstream>

using namespace psr;

namespace {
std::string cli() {
  static std::string P = [] {
    auto Self = std::filesystem::read_symlink("/proc/self/exe");
    return (Self.parent_path() / "phasar-cli").string();
  }();
  return P;
}

struct Out {
  int Status = 0; // as of waitpid
  std::string Text, Err;
  bool exited(int Code) const {
    return WIFEXITED(Status) && WEXITSTATUS(Status) == Code;
  }
};
std::string slurp(const std::string &P) {
  std::ifstream F(P, std::ios::binary);
  std::stringstream S;
  S << F.rdbuf();
  return S.str();
}
Out call(const clangrun::Dir &D, const std::vector<std::string> &Args) {
  std::vector<char *> A{const_cast<char *>("phasar-cli")};
  for (auto &S : Args)
    A.push_back(const_cast<char *>(S.c_str()));
  A.push_back(nullptr);
  std::string O = D.Path + "/stdout", E = D.Path + "/stderr";
  posix_spawn_file_actions_t FA;
  posix_spawn_file_actions_init(&FA);
  posix_spawn_file_actions_addopen(&FA, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&FA, 1, O.c_str(),
                                   O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&FA, 2, E.c_str(),
                                   O_WRONLY | O_CREAT | O_TRUNC, 0600);
  pid_t Pid;
  int R = posix_spawn(&Pid, cli().c_str(), &FA, nullptr, A.data(), environ);
  posix_spawn_file_actions_destroy(&FA);
  if (R != 0)
    abort();
  Out X;
  while (waitpid(Pid, &X.Status, 0) != Pid) {
  }
  X.Text = slurp(O);
  X.Err = slurp(E);
  return X;
}
std::string join(const std::vector<std::string> &A) {
  std::string S = "phasar-cli";
  for (auto &X : A)
    S += " " + X;
  return S;
}

// The order of the results of one instruction is not specified (it follows the
// addresses of the facts), hence: a multiset of lines, the results of the raw
// output together with the headings they stand below.
std::vector<std::string> canon(llvm::StringRef Text) {
  std::vector<std::string> R;
  llvm::SmallVector<llvm::StringRef> Ls;
  Text.split(Ls, '\n');
  std::string Fn, N;
  unsigned Raw = 0;
  for (auto L : Ls) {
    if (L.contains("Raw IDESolver results")) {
      ++Raw;
      Fn = N = "";
    }
    if (L.startswith("============ Results for"))
      Fn = L.str(), N = "";
    if (L.startswith("N: "))
      N = L.str();
    if (L.trim().empty())
      continue;
    if (L.consume_front("Variable(s): ")) {
      llvm::SmallVector<llvm::StringRef> Vs;
      L.split(Vs, ", ");
      std::sort(Vs.begin(), Vs.end());
      R.push_back("Variable(s): " + llvm::join(Vs, ", "));
      continue;
    }
    if (L.startswith("\tD: "))
      R.push_back(std::to_string(Raw) + Fn + " | " + N + " | " + L.str());
    else
      R.push_back(L.str());
  }
  std::sort(R.begin(), R.end());
  return R;
}
std::string diff(const std::vector<std::string> &Want,
                 const std::vector<std::string> &Got) {
  std::vector<std::string> A, B;
  std::set_difference(Want.begin(), Want.end(), Got.begin(), Got.end(),
                      std::back_inserter(A));
  std::set_difference(Got.begin(), Got.end(), Want.begin(), Want.end(),
                      std::back_inserter(B));
  std::string S;
  for (size_t K = 0; K < A.size() && K < 5; ++K)
    S += "\n  missing: " + A[K];
  for (size_t K = 0; K < B.size() && K < 5; ++K)
    S += "\n  extra:   " + B[K];
  return S;
}

template <typename F> std::string str(F &&Fn) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  Fn(OS);
  return OS.str();
}

// ---- options of the helper analyses
struct Cfg {
  std::vector<std::string> Entries{"main"};
  CallGraphAnalysisType CG = CallGraphAnalysisType::OTF;
  AliasAnalysisType AA = AliasAnalysisType::CFLAnders;
  Soundness Snd = Soundness::Soundy;
  bool Globals = true;
  IFDSIDESolverConfig S;
  std::string TaintFile;
};

void option(pbt::Ctx &C, std::vector<std::string> &A, const char *Short,
            const char *Long, const std::string &V) {
  switch (Short ? C.draw(3) : 1) {
  case 0:
    A.push_back(std::string("-") + Short);
    A.push_back(V);
    break;
  case 1:
    A.push_back(std::string("--") + Long + "=" + V);
    break;
  case 2:
    A.push_back(std::string("-") + Short + "=" + V);
    break;
  }
}

Cfg genCfg(pbt::Ctx &C, std::vector<std::vector<std::string>> &As,
           const std::vector<std::string> &Funs) {
  Cfg R;
  auto Add = [&](const char *S, const char *L, const std::string &V) {
    As.emplace_back();
    option(C, As.back(), S, L, V);
  };
  auto Bool = [&](const char *N, bool V) {
    As.push_back({std::string("--") + N + (V && C.flip() ? "" : V ? "=true" : "=false")});
  };
  switch (C.draw(5)) {
  case 1:
    R.Entries = {"__ALL__"};
    Add("E", "entry-points", "__ALL__");
    break;
  case 2:
    R.Entries = {C.pick(Funs)};
    Add("E", "entry-points", R.Entries[0]);
    break;
  case 3:
    R.Entries = {C.pick(Funs), C.pick(Funs)};
    if (R.Entries[0] == R.Entries[1])
      R.Entries.pop_back();
    for (auto &E : R.Entries)
      As.emplace_back();
    As.resize(As.size() - R.Entries.size());
    {
      std::vector<std::string> A; // in this order
      for (auto &E : R.Entries)
        option(C, A, "E", "entry-points", E);
      As.push_back(A);
    }
    break;
  case 4:
    Add("E", "entry-points", "main");
    break;
  }
  static const std::pair<const char *, CallGraphAnalysisType> CGs[] = {
      {"otf", CallGraphAnalysisType::OTF},
      {"cha", CallGraphAnalysisType::CHA},
      {"rta", CallGraphAnalysisType::RTA},
      {"nores", CallGraphAnalysisType::NORESOLVE},
      {"dta", CallGraphAnalysisType::DTA}};
  if (C.flip()) {
    auto &G = CGs[C.draw(5)];
    R.CG = G.second;
    Add("C", "call-graph-analysis", G.first);
  }
  static const std::pair<const char *, AliasAnalysisType> AAs[] = {
      {"cflanders", AliasAnalysisType::CFLAnders},
      {"cflsteens", AliasAnalysisType::CFLSteens},
      {"basic", AliasAnalysisType::Basic}};
  if (C.chance(1, 3)) {
    auto &G = AAs[C.draw(3)];
    R.AA = G.second;
    Add("P", "alias-analysis", G.first);
  }
  static const std::pair<const char *, Soundness> Ss[] = {
      {"soundy", Soundness::Soundy},
      {"sound", Soundness::Sound},
      {"unsound", Soundness::Unsound}};
  if (C.chance(1, 6)) {
    auto &G = Ss[C.draw(3)];
    R.Snd = G.second;
    Add(nullptr, "soundness", G.first);
  }
  if (C.chance(1, 3)) {
    R.Globals = C.flip();
    Bool("auto-globals", R.Globals);
  }
  R.S.setFollowReturnsPastSeeds(true); // the documented defaults of the tool
  R.S.setAutoAddZero(true);
  R.S.setComputeValues(true);
  R.S.setRecordEdges(false);
  R.S.setEmitESG(false);
  // The returns past an entry point that is also called by the analysed code
  // depend on the order in which the solver reaches them.
  bool MainOnly = R.Entries == std::vector<std::string>{"main"};
  if (!MainOnly || C.chance(1, 3)) {
    bool B = MainOnly && C.flip();
    R.S.setFollowReturnsPastSeeds(B);
    Bool("follow-return-past-seeds", B);
  }
  if (C.chance(1, 4)) {
    bool B = C.flip();
    R.S.setComputeValues(B);
    Bool("compute-values", B);
  }
  if (C.chance(1, 8)) {
    bool B = C.flip();
    R.S.setAutoAddZero(B);
    Bool("auto-add-zero", B);
  }
  if (C.chance(1, 8)) {
    bool B = C.flip();
    R.S.setRecordEdges(B);
    Bool("record-edges", B);
  }
  return R;
}

// ---- the analyses, put together by hand
struct Helpers {
  LLVMProjectIRDB IRDB;
  LLVMTypeHierarchy TH;
  std::unique_ptr<LLVMAliasSet> PT;
  std::unique_ptr<LLVMBasedICFG> ICF;
  Helpers(const std::string &File, const Cfg &G, bool Lazy = true)
      : IRDB(File), TH(IRDB),
        PT(std::make_unique<LLVMAliasSet>(&IRDB, Lazy, G.AA)),
        ICF(std::make_unique<LLVMBasedICFG>(
            &IRDB, G.CG, G.Entries, &TH,
            G.CG == CallGraphAnalysisType::OTF ? LLVMAliasInfoRef(PT.get())
                                               : LLVMAliasInfoRef(),
            G.Snd, G.Globals)) {}
};

template <typename SolverTy, typename P>
void run(Helpers &H, const Cfg &G, P Prob, std::string &Rep, std::string &Raw) {
  Prob.setIFDSIDESolverConfig(G.S);
  SolverTy S(Prob, H.ICF.get());
  S.solve();
  Rep += str([&](auto &OS) { S.emitTextReport(OS); });
  Raw += str([&](auto &OS) { S.dumpResults(OS); });
}

const char *const Analyses[] = {"ide-lca",      "ifds-uninit",    "ifds-taint",
                                "ide-stdio-ts", "ifds-solvertest", "ide-solvertest",
                                "ifds-type"};

void reference(Helpers &H, const Cfg &G, const std::string &A, std::string &Rep,
               std::string &Raw) {
  auto *DB = &H.IRDB;
  LLVMAliasInfoRef PT = H.PT.get();
  auto Taint = [&] {
    return G.TaintFile.empty()
               ? LLVMTaintConfig(H.IRDB)
               : LLVMTaintConfig(H.IRDB, parseTaintConfig(G.TaintFile));
  };
  if (A == "ide-lca")
    run<IDESolver_P<IDELinearConstantAnalysis>>(
        H, G, IDELinearConstantAnalysis(DB, H.ICF.get(), G.Entries), Rep, Raw);
  else if (A == "ifds-uninit")
    run<IFDSSolver_P<IFDSUninitializedVariables>>(
        H, G, IFDSUninitializedVariables(DB, G.Entries), Rep, Raw);
  else if (A == "ifds-taint") {
    auto T = Taint();
    run<IFDSSolver_P<IFDSTaintAnalysis>>(
        H, G, IFDSTaintAnalysis(DB, PT, &T, G.Entries), Rep, Raw);
  } else if (A == "ide-xtaint") {
    auto T = Taint();
    run<IDESolver_P<IDEExtendedTaintAnalysis<>>>(
        H, G, IDEExtendedTaintAnalysis<>(DB, H.ICF.get(), PT, T, G.Entries),
        Rep, Raw);
  } else if (A == "ifds-type")
    run<IFDSSolver_P<IFDSTypeAnalysis>>(H, G, IFDSTypeAnalysis(DB, G.Entries),
                                        Rep, Raw);
  else if (A == "ifds-solvertest")
    run<IFDSSolver_P<IFDSSolverTest>>(H, G, IFDSSolverTest(DB, G.Entries), Rep,
                                      Raw);
  else if (A == "ide-solvertest")
    run<IDESolver_P<IDESolverTest>>(H, G, IDESolverTest(DB, G.Entries), Rep,
                                    Raw);
  else if (A == "ide-stdio-ts") {
    CSTDFILEIOTypeStateDescription D;
    run<IDESolver_P<IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription>>>(
        H, G,
        IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription>(DB, PT, &D,
                                                             G.Entries),
        Rep, Raw);
  } else
    abort();
}

// ---- programs
std::unique_ptr<llvm::Module> program(pbt::Ctx &C, llvm::LLVMContext &Ctx,
                                      std::vector<std::string> &Funs) {
  irgen::Opts O;
  O.MaxFuns = 4;
  O.MaxBlocks = 4;
  O.MaxStmts = 5;
  O.FnPtrs = C.chance(1, 3);
  O.Recursion = C.flip();
  O.Dbg = C.chance(1, 4);
  O.UninitLocals = C.flip();
  O.MainArgs = C.flip();
  O.Linkage = C.chance(1, 4);
  O.ExtraWeight = C.draw(2) * 6;
  irgen::Gen G(C, O, Ctx);
  std::vector<llvm::Value *> Files;
  llvm::Function *In = nullptr;
  G.Extra = [&](irgen::Gen &G) {
    auto &B = G.B;
    auto *FileP = G.I8P;
    switch (C.draw(5)) {
    case 0:
      G.useResult(B.CreateCall(G.ext("source", G.I32, {}), {}));
      break;
    case 1:
      B.CreateCall(G.ext("sink", G.Void, {G.I32}), {G.intRV()});
      break;
    default: {
      auto *F = B.GetInsertBlock()->getParent();
      if (F != In)
        Files.clear();
      In = F;
      if (Files.empty() || C.flip()) {
        auto &Entry = F->getEntryBlock();
        auto *A = llvm::IRBuilder<>(&Entry, Entry.begin()).CreateAlloca(FileP);
        auto *N = llvm::ConstantPointerNull::get(
            llvm::cast<llvm::PointerType>(G.I8P));
        B.CreateStore(
            B.CreateCall(G.ext("fopen", FileP, {G.I8P, G.I8P}), {N, N}), A);
        Files.push_back(A);
      } else {
        auto *L = B.CreateLoad(FileP, C.pick(Files));
        if (C.flip())
          B.CreateCall(G.ext("fclose", G.I32, {FileP}), {L});
        else
          G.useResult(B.CreateCall(G.ext("fgetc", G.I32, {FileP}), {L}));
      }
    }
    }
  };
  auto M = G.run();
  for (auto *F : G.Funs)
    Funs.push_back(F->getName().str());
  return M;
}

std::string store(pbt::Ctx &C, const clangrun::Dir &D, const llvm::Module &M) {
  if (C.chance(1, 4)) {
    std::error_code EC;
    llvm::raw_fd_ostream OS(D.Path + "/my.mod.bc", EC);
    llvm::WriteBitcodeToFile(M, OS);
    return D.Path + "/my.mod.bc";
  }
  D.write("prog.ll", irgen::print(const_cast<llvm::Module &>(M)));
  return D.Path + "/prog.ll";
}

std::vector<std::string> flat(pbt::Ctx &C,
                              std::vector<std::vector<std::string>> As) {
  std::vector<std::string> R;
  // options commute
  for (size_t K = As.size(); K > 1; --K)
    if (C.flip())
      std::swap(As[K - 1], As[C.draw(K)]);
  for (auto &A : As)
    R.insert(R.end(), A.begin(), A.end());
  return R;
}

// the only subdirectory of Dir
std::map<std::string, std::string> results(pbt::Ctx &C, const std::string &Dir,
                                           const std::string &Stem,
                                           size_t NRuns = 1) {
  std::set<std::string> Ds;
  for (auto &E : std::filesystem::directory_iterator(Dir)) {
    PBT_CHECK(C, E.is_directory() &&
                     E.path().filename().string().rfind(Stem + "-", 0) == 0,
              "unexpected " + E.path().string() + " in the output directory");
    Ds.insert(E.path().string());
  }
  PBT_CHECK(C, Ds.size() == NRuns, pbt::strf("%zu result directories after %zu runs",
                                             Ds.size(), NRuns));
  std::map<std::string, std::string> R;
  for (auto &E : std::filesystem::directory_iterator(*Ds.begin()))
    R[E.path().filename().string()] = slurp(E.path().string());
  return R;
}

std::string errOf(const Out &O) {
  return " (status " + std::to_string(O.Status) + "): " + O.Err.substr(0, 400);
}

void analyses(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  std::vector<std::string> Funs;
  auto M = program(C, Ctx, Funs);
  clangrun::Dir D;
  std::string File = store(C, D, *M);
  std::string Stem = File.substr(D.Path.size() + 1);
  Stem = Stem.substr(0, Stem.rfind('.'));
  std::vector<std::vector<std::string>> As;
  Cfg G = genCfg(C, As, Funs);
  As.emplace_back();
  option(C, As.back(), "m", "module", File);
  static const char *const Quiet[] = {"-s", "--silent", "--quiet",
                                      "--silent=true"};
  As.push_back({Quiet[C.draw(4)]});
  std::vector<std::string> Which;
  {
    std::vector<std::string> A;
    for (size_t K = 1 + (C.chance(1, 3) ? 1 + C.draw(2) : 0); K; --K) {
      std::string W = Analyses[C.draw(7)];
      if (std::find(Which.begin(), Which.end(), W) != Which.end())
        continue;
      Which.push_back(W);
      option(C, A, "D", "data-flow-analysis", W);
    }
    As.push_back(A);
  }
  bool Raw = !C.chance(1, 6), Rep = !C.chance(1, 4);
  if (Raw)
    As.push_back({"--emit-raw-results"});
  if (!Rep)
    As.push_back({"--emit-text-report=false"});
  if (C.flip()) {
    nlohmann::json J;
    J["name"] = "c";
    J["version"] = 1.0;
    J["functions"] = nlohmann::json::array();
    nlohmann::json S, K;
    S["name"] = "source";
    S["ret"] = "source";
    K["name"] = "sink";
    K["params"]["sink"] = {0};
    J["functions"].push_back(S);
    J["functions"].push_back(K);
    G.TaintFile = D.Path + "/taint.json";
    D.write("taint.json", J.dump());
    As.push_back({"--analysis-config=" + G.TaintFile});
  }
  bool Dir = C.chance(1, 3);
  std::string OutDir = D.Path + "/out";
  if (Dir) {
    std::filesystem::create_directory(OutDir);
    As.emplace_back();
    option(C, As.back(), "O", "out", OutDir);
  }
  auto Args = flat(C, As);
  C.describe(join(Args) + "\n" + irgen::print(*M));
  C.label(Dir ? "output directory" : "stdout");

  std::string WantRep, WantRaw, Want;
  unsigned Facts = 0;
  {
    Helpers H(File, G);
    for (auto &W : Which) {
      C.label(W);
      std::string A, B;
      reference(H, G, W, A, B);
      Facts += llvm::StringRef(B).count("\tD: ");
      WantRep += A;
      WantRaw += B;
      if (Rep)
        Want += A;
      if (Raw)
        Want += B;
    }
  }
  C.nontrivial(Facts >= 10);
  size_t NRuns = Dir && C.chance(1, 6) ? 2 : 1;
  Out O;
  for (size_t K = 0; K < NRuns; ++K) {
    O = call(D, Args);
    PBT_CHECK(C, O.exited(0), "the tool failed" + errOf(O));
  }
  if (!Dir) {
    auto A = canon(Want), B = canon(O.Text);
    PBT_CHECK(C, A == B, "the tool prints other results" + diff(A, B));
    return;
  }
  PBT_CHECK(C, canon(O.Text).empty(),
            "results on stdout although there is an output directory: " +
                O.Text.substr(0, 200));
  auto R = results(C, OutDir, Stem, NRuns);
  auto Cmp = [&](const char *N, bool On, const std::string &W) {
    PBT_CHECK(C, R.count(N) == On, std::string(N) + " missing/unexpected");
    if (!On)
      return;
    auto A = canon(W), B = canon(R[N]);
    PBT_CHECK(C, A == B, std::string(N) + " has other results" + diff(A, B));
    R.erase(N);
  };
  Cmp("psr-report.txt", Rep, WantRep);
  Cmp("psr-raw-results.txt", Raw, WantRaw);
  PBT_CHECK(C, R.empty(), "unexpected file " + R.begin()->first);
}

// ---- information about the program
nlohmann::json sorted(nlohmann::json J) {
  if (J.is_array()) {
    for (auto &X : J)
      X = sorted(X);
    std::sort(J.begin(), J.end());
  } else if (J.is_object())
    for (auto &X : J)
      X = sorted(X);
  return J;
}

void helpers(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  std::vector<std::string> Funs;
  std::unique_ptr<llvm::Module> M;
  if (C.flip()) {
    cppgen::Opts O;
    cppgen::Gen G(C, O, Ctx);
    M = G.run();
    for (auto &F : *M)
      if (!F.isDeclaration() && (F.getName() == "main" || F.arg_empty()))
        Funs.push_back(F.getName().str());
  } else
    M = program(C, Ctx, Funs);
  clangrun::Dir D;
  std::string File = store(C, D, *M);
  std::string Stem = File.substr(D.Path.size() + 1);
  Stem = Stem.substr(0, Stem.rfind('.'));
  std::vector<std::vector<std::string>> As;
  Cfg G = genCfg(C, As, Funs);
  As.emplace_back();
  option(C, As.back(), "m", "module", File);
  struct Emit {
    const char *Opt, *File;
    bool Json;
  };
  static const Emit Es[] = {
      {"emit-th-as-json", "psr-th.json", true},
      {"emit-th-as-text", "psr-th.txt", false},
      {"emit-th-as-dot", "psr-th.dot", false},
      {"emit-cg-as-json", "psr-cg.json", true},
      {"emit-cg-as-dot", "psr-cg.txt", false},
      {"emit-pta-as-json", "psr-pta.json", true},
      {"emit-pta-as-text", "psr-pta.txt", false},
      {"emit-statistics-as-json", "psr-IrStatistics.json", true},
      {"emit-ir", "psr-preprocess-ir.ll", false}};
  std::vector<int> Which;
  bool Dir = C.flip();
  if (Dir) {
    for (int K = 0; K < 9; ++K)
      if (C.flip())
        Which.push_back(K);
  } else
    Which.push_back(C.draw(9));
  bool PTA = false;
  for (int K : Which) {
    As.push_back({std::string("--") + Es[K].Opt});
    PTA |= llvm::StringRef(Es[K].Opt).startswith("emit-pta");
  }
  std::string OutDir = D.Path + "/out";
  if (Dir) {
    std::filesystem::create_directory(OutDir);
    As.emplace_back();
    option(C, As.back(), "O", "out", OutDir);
  }
  bool Silent = C.flip() || !Dir;
  if (Silent)
    As.push_back({"-s"});
  auto Args = flat(C, As);
  C.describe(join(Args) + "\n" + irgen::print(*M));
  C.label(Dir ? "output directory" : "stdout");

  // what the library says; the IR and the statistics are those before the model
  // of the program start is added, as the tool prints them first
  std::map<std::string, std::string> Want;
  {
    LLVMProjectIRDB DB(File);
    Want["psr-preprocess-ir.ll"] =
        str([&](auto &OS) { DB.emitPreprocessedIR(OS); });
  }
  {
    auto Lib = [&](auto Get) {
      Helpers H(File, G, !PTA);
      return str([&](auto &OS) { Get(H, OS); });
    };
    {
      LLVMProjectIRDB DB(File);
      LLVMTypeHierarchy TH(DB);
      Want["psr-th.json"] = str([&](auto &OS) { TH.printAsJson(OS); });
      Want["psr-th.txt"] = str([&](auto &OS) { TH.print(OS); });
      Want["psr-th.dot"] = str([&](auto &OS) { TH.printAsDot(OS); });
      LLVMAliasSet PT(&DB, false, G.AA);
      Want["psr-pta.json"] = str([&](auto &OS) { PT.printAsJson(OS); });
      Want["psr-pta.txt"] = str([&](auto &OS) { PT.print(OS); });
    }
    Want["psr-cg.json"] =
        Lib([](auto &H, auto &OS) { H.ICF->printAsJson(OS); });
    Want["psr-cg.txt"] = Lib([](auto &H, auto &OS) { H.ICF->print(OS); });
  }
  {
    LLVMProjectIRDB DB(File);
    bool Model = false; // the call graph is printed before
    for (int K : Which)
      Model |= llvm::StringRef(Es[K].Opt).startswith("emit-cg");
    std::unique_ptr<Helpers> H;
    auto *Mod = DB.getModule();
    if (Model) {
      H = std::make_unique<Helpers>(File, G, !PTA);
      Mod = H->IRDB.getModule();
    }
    GeneralStatisticsAnalysis GSA;
    auto S = GSA.runOnModule(*Mod);
    Want["psr-IrStatistics.json"] = str([&](auto &OS) { S.printAsJson(OS); });
  }
  C.nontrivial(!Which.empty());
  auto O = call(D, Args);
  PBT_CHECK(C, O.exited(0), "the tool failed" + errOf(O));
  std::map<std::string, std::string> Got;
  if (Dir)
    Got = results(C, OutDir, Stem);
  else
    Got[Es[Which[0]].File] = O.Text;
  PBT_CHECK(C, Got.size() == Which.size(), "number of result files");
  if (Dir && Silent)
    PBT_CHECK(C, O.Text.empty(), "output on stdout: " + O.Text.substr(0, 99));
  for (int K : Which) {
    auto &E = Es[K];
    std::string N = E.File;
    C.label(N);
    PBT_CHECK(C, Got.count(N), N + " is missing");
    if (E.Json) {
      auto J = nlohmann::json::parse(Got[N], nullptr, false);
      PBT_CHECK(C, !J.is_discarded(), N + " is no JSON: " + Got[N].substr(0, 200));
      auto W = nlohmann::json::parse(Want[N]);
      PBT_CHECK(C, sorted(J) == sorted(W), N + " differs");
    } else if (N == "psr-preprocess-ir.ll") {
      PBT_CHECK(C, Got[N] == Want[N], "the preprocessed IR differs");
      llvm::LLVMContext Ctx2;
      llvm::SMDiagnostic Di;
      PBT_CHECK(C, llvm::parseAssemblyString(Got[N], Di, Ctx2),
                "the emitted IR cannot be parsed");
    } else if (N == "psr-cg.txt") {
      // node numbers depend on addresses
      PBT_CHECK(C, canon(Got[N]).size() == canon(Want[N]).size(),
                "the printed call graph differs");
    } else if (N == "psr-th.json" || N == "psr-th.txt" || N == "psr-th.dot" ||
               N == "psr-pta.txt") {
      auto Words = [](llvm::StringRef S) { // orders depend on addresses
        std::vector<std::string> R;
        llvm::SmallVector<llvm::StringRef> Ws;
        S.split(Ws, ' ');
        for (auto W : Ws)
          for (auto &X : canon(W))
            R.push_back(X);
        std::sort(R.begin(), R.end());
        return R;
      };
      if (N == "psr-th.dot") // numbers of nodes
        PBT_CHECK(C, canon(Got[N]).size() == canon(Want[N]).size(), N + " differs");
      else
        PBT_CHECK(C, Words(Got[N]) == Words(Want[N]),
                  N + " differs" + diff(Words(Want[N]), Words(Got[N])));
    }
  }
  // the stored call graph replaces the call-graph analysis
  if (Got.count("psr-cg.json") && !G.Globals) {
    C.label("call graph reloaded");
    D.write("cg.json", Got["psr-cg.json"]);
    std::string W = C.flip() ? "ide-lca" : "ifds-uninit";
    std::vector<std::vector<std::string>> Bs{
        {"-s"}, {"-D", W}, {"-m", File}, {"--emit-raw-results"}};
    {
      std::vector<std::string> E;
      for (auto &X : G.Entries) {
        E.push_back("-E");
        E.push_back(X);
      }
      Bs.push_back(E);
    }
    // whether a result past the seeds is found depends on the order otherwise
    bool Past = G.Entries == std::vector<std::string>{"main"};
    if (!Past)
      Bs.push_back({"--follow-return-past-seeds=false"});
    Bs.push_back({"--load-cg-from-json=" + D.Path + "/cg.json"});
    auto O2 = call(D, flat(C, Bs));
    PBT_CHECK(C, O2.exited(0), "the tool failed with a stored call graph" + errOf(O2));
    G.S.setFollowReturnsPastSeeds(Past);
    G.S.setAutoAddZero(true);
    G.S.setComputeValues(true);
    std::string A, B;
    Helpers H(File, G, !PTA);
    reference(H, G, W, A, B);
    auto X = canon(A + B), Y = canon(O2.Text);
    PBT_CHECK(C, X == Y, "other results with the stored call graph" + diff(X, Y));
  }
}

// ---- invalid invocations are rejected
void invalid(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  std::vector<std::string> Funs;
  auto M = program(C, Ctx, Funs);
  clangrun::Dir D;
  std::string File = store(C, D, *M);
  std::vector<std::vector<std::string>> As{{"-s"}};
  static const char *const Names[] = {"nope", "a b.ll", "dir.ll", "x.txt",
                                      "sub/none.ll", ".ll"};
  auto Bad = [&](bool DirOk) {
    std::string P = D.Path + "/" + Names[C.draw(6)];
    switch (C.draw(DirOk ? 1 : 2)) {
    case 1:
      std::filesystem::create_directories(P);
    }
    return P;
  };
  std::string Mod = File;
  bool NoModule = false;
  unsigned Err = C.draw(9);
  static const char *const What[] = {
      "module",        "output dir",      "call graph file",
      "alias file",    "taint config",    "analysis name",
      "entry points",  "module contents", "no module"};
  switch (Err) {
  case 0:
    Mod = Bad(false);
    break;
  case 1: {
    auto P = Bad(true);
    if (C.flip()) {
      D.write("file", "");
      P = D.Path + "/file";
    }
    As.push_back({"-O", P});
    break;
  }
  case 2:
    As.push_back({"--load-cg-from-json=" + Bad(false)});
    break;
  case 3:
    As.push_back({"--load-pta-from-json=" + Bad(false)});
    break;
  case 4:
    As.push_back({"--analysis-config=" + Bad(false)});
    break;
  case 5:
    As.push_back({"-D", C.flip() ? "ide" : "ifds-uninitx"});
    break;
  case 6:
    As.push_back({"-E", "nosuchfunction"});
    break;
  case 7:
    D.write("broken.ll", C.flip() ? "define i32 @main() { ret i32 %x }"
                                  : "this is no IR\n");
    Mod = D.Path + "/broken.ll";
    break;
  case 8:
    NoModule = true;
    break;
  }
  if (!NoModule)
    As.push_back({"-m", Mod});
  if (C.flip() || Err == 6)
    As.push_back({"-D", Analyses[C.draw(7)]});
  auto Args = flat(C, As);
  C.describe(join(Args));
  C.label(What[Err]);
  C.nontrivial();
  auto O = call(D, Args);
  PBT_CHECK(C, O.exited(1),
            std::string("invalid ") + What[Err] + " is not rejected" + errOf(O));
  PBT_CHECK(C, !llvm::StringRef(O.Err).trim().empty(), "no error message");
  PBT_CHECK(C, O.Text.find("Raw IDESolver") == std::string::npos,
            "results in spite of an error");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P34";
  P.Subs = {
      {"analyses",
       "random programs (as .ll and .bc; uninitialised variables, function "
       "pointers, files, sources and sinks) and random options (entry points, "
       "call-graph and alias analysis, solver options, one to three analyses, "
       "taint configuration, reports and raw results, stdout or output "
       "directory, long and short spelling, any order); the tool's output is "
       "compared with that of the analyses put together by hand. Non-trivial: "
       "at least ten facts",
       analyses, 1600, 0, 20},
      {"helpers",
       "random C-like and C++-like programs; every kind of information the "
       "tool can emit is compared with the library's, and stored call graphs "
       "are fed back. Non-trivial: something is emitted",
       helpers, 1200, 0, 20},
      {"invalid",
       "missing or unsuitable files, directories, names and modules, one per "
       "case; exit status 1 and an error message are expected. Non-trivial: all",
       invalid, 600, 0, 20}};
  P.Assumptions = {"the JSON schema of taint configurations is not checked "
                   "(json-schema-validator is not installed)"};
  return pbt::run(argc, argv, P);
}
