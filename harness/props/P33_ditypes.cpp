// BUILD:
// P33: the type hierarchy built from debug information mirrors the classes.
#include "clangrun.h"
#include "pbt.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h"

#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

#include <map>
#include <set>
#include <sstream>

using namespace psr;
using llvm::DICompositeType;
using llvm::DIType;

namespace {
template <typename... T> std::string cat(const T &...X) {
  std::ostringstream OS;
  (OS << ... << X);
  return OS.str();
}

enum Kind { Plain, Nested, Template, TypedefName, Anon, Local, Union, Fwd };
struct Cls {
  Kind K = Plain;
  std::string Name, Qual; // Qual: how other classes refer to it
  std::vector<int> Bases;
  bool Poly = false, CanBase = true;
};

struct Gen {
  pbt::Ctx &C;
  std::vector<Cls> Cs;
  std::string S;
  int NTd = 0;
  bool Shared = false;
  std::set<std::string> Used; // qualified names
  explicit Gen(pbt::Ctx &C) : C(C) {}

  std::string methods(int I, const std::string &Qual, bool Inline,
                      std::string &After) {
    std::string R;
    auto &K = Cs[I];
    bool Poly = false;
    for (int B : K.Bases)
      Poly |= Cs[B].Poly;
    for (int M = 0; M < 3; ++M) {
      if (!C.chance(2, 5))
        continue;
      K.Poly = true;
      std::string D = cat("m", M, "(int)");
      switch (C.draw(Inline ? 2 : 5)) {
      case 0:
        R += "  virtual int " + D + " { return 1; }\n";
        break;
      case 1:
        R += "  virtual int " + D + " = 0;\n";
        break;
      case 2:
        R += "  virtual int " + D + ";\n"; // elsewhere
        break;
      default:
        R += "  virtual int " + D + ";\n";
        After += "int " + Qual + "::" + D + " { return 2; }\n";
      }
    }
    if (C.chance(1, 6)) {
      K.Poly = true;
      R += Inline ? "  virtual ~" + K.Name + "() {}\n"
                  : "  virtual ~" + K.Name + "();\n";
      if (!Inline && C.flip())
        After += Qual + "::~" + K.Name + "() {}\n";
    }
    K.Poly |= Poly;
    if (C.chance(1, 4))
      R += cat("  int n", I, "();\n"); // not virtual
    return R;
  }
  std::string bases(int I, std::string &Before) {
    auto &K = Cs[I];
    std::vector<int> Cand;
    for (int B = 0; B < I; ++B)
      if (Cs[B].CanBase)
        Cand.push_back(B);
    std::string R;
    unsigned N = Cand.empty() ? 0 : C.weighted({2, 5, 3, 1});
    for (unsigned X = 0; X < N; ++X) {
      int B = C.pick(Cand);
      bool Dup = false;
      for (int Y : K.Bases) // no direct base twice, no ambiguous base
        Dup |= Y == B || isBase(Y, B) || isBase(B, Y);
      if (Dup)
        continue;
      std::string N = Cs[B].Qual;
      if (C.chance(1, 5)) {
        auto T = cat("Td", NTd++);
        Before += "typedef " + N + " " + T + ";\n";
        N = T;
      }
      R += cat(R.empty() ? " : " : ", ", C.chance(1, 4) ? "virtual " : "",
               C.chance(1, 4) ? "" : "public ", N);
      K.Bases.push_back(B);
    }
    return R;
  }
  bool isBase(int D, int B) {
    for (int X : Cs[D].Bases)
      if (X == B || isBase(X, B))
        return true;
    return false;
  }

  void run() {
    unsigned N = C.range(2, 9);
    while (Cs.size() < N) {
      int I = Cs.size();
      Cs.emplace_back();
      static const Kind Ks[] = {Plain, Nested, Template, TypedefName,
                                Anon,  Local,  Union,    Fwd};
      Kind K = Ks[C.weighted({12, 2, 1, 1, 1, 1, 1, 1})];
      std::string Before, After;
      Cs[I].K = K;
      Cs[I].Name = cat("C", C.chance(1, 4) ? C.draw(3) : I + 3);
      std::string Ns =
          C.chance(1, 3) ? cat("n", C.draw(3)) : std::string();
      if (C.chance(1, 10) && K != Local) // unused functions are not emitted
        Ns = "<anon>";
      std::string Open, Close, Q;
      if (Ns == "<anon>") {
        Open = "namespace {\n";
        Close = "}\n";
        Cs[I].Name = cat("C", I + 3);
      } else if (!Ns.empty()) {
        Open = "namespace " + Ns + " {\n";
        Close = "}\n";
        Q = "::" + Ns;
      }
      Cs[I].Qual = Q + "::" + Cs[I].Name;
      while (!Used.insert(Cs[I].Qual).second) {
        Cs[I].Name += "x";
        Cs[I].Qual += "x";
      }
      auto Name = Cs[I].Name;
      std::string Key = C.flip() ? "struct " : "class ";
      std::string Pub = Key == "class " ? "public:\n" : "";
      std::string F = cat("  int f", I, ";\n");
      std::string Use = cat("p", I);
      switch (K) {
      case Plain: {
        auto B = bases(I, Before);
        auto M = methods(I, Cs[I].Qual, Ns == "<anon>", After);
        std::string Mem;
        if (I && C.chance(1, 4)) {
          int X = C.draw(I);
          if (Cs[X].CanBase)
            Mem = cat("  ", Cs[X].Qual, " *q", I, ";\n");
        }
        S += Before + Open + Key + Name + B + " {\n" + Pub + F + Mem + M +
             "};\n" + Close;
        // a definition in the class's own namespace
        if (!After.empty())
          S += After;
        break;
      }
      case Nested: {
        // struct Outer { struct N : bases {...}; int f; }; the outer class is
        // the next one
        if (Cs.size() >= N) { // no room
          S += Open + Key + Name + " {\n" + Pub + F + "};\n" + Close;
          break;
        }
        int O = Cs.size();
        Cs.emplace_back();
        Cs[O].Name = cat("Outer", O);
        Cs[O].Qual = Q + "::" + Cs[O].Name;
        Cs[I].Qual = Cs[O].Qual + "::" + Name;
        auto B = bases(I, Before);
        auto M = methods(I, Cs[I].Qual, true, After);
        S += Before + Open + "struct " + Cs[O].Name + " {\n" + Key + Name + B +
             " {\n" + Pub + F + M + "};\n" + cat("  int f", O, ";\n") + "};\n" +
             Close;
        S += cat(Cs[O].Qual, " *p", O, ";\n");
        break;
      }
      case Template: {
        auto B = bases(I, Before);
        auto M = methods(I, Cs[I].Qual, true, After);
        S += Before + Open + "template <int N> " + Key + Name + B + " {\n" +
             Pub + F + M + "};\ntemplate " + Key + Name + "<3>;\n" + Close;
        Cs[I].Qual += "<3>";
        Cs[I].Name += "<3>";
        break;
      }
      case TypedefName:
        S += Open + "typedef struct {\n" + F + "} " + Name + ";\n" + Close;
        Cs[I].Name = ""; // the identifier has the name of the typedef
        break;
      case Anon: {
        Cs[I].CanBase = false;
        Cs[I].Name = "";
        auto B = bases(I, Before);
        S += Before + Open + "struct" + B + " {\n" + F + "} *" + Use +
             ";\n" + Close;
        S += cat("void *u", I, " = &", Q, "::", Use, ";\n");
        continue;
      }
      case Local: {
        Cs[I].CanBase = false;
        auto B = bases(I, Before);
        auto M = methods(I, Cs[I].Qual, true, After);
        S += Before + Open + cat("void fn", I, "() {\n") + Key + Name + B +
             " {\n" + Pub + F + M + "};\n  " + Name + " *x = 0;\n}\n" + Close;
        continue;
      }
      case Union:
        Cs[I].CanBase = false;
        S += Open + "union " + Name + " {\n" + F + "  long l;\n};\n" + Close;
        break;
      case Fwd:
        Cs[I].CanBase = false;
        Cs[I].Name = cat("Fwd", I);
        Cs[I].Qual = Q + "::" + Cs[I].Name;
        S += Open + Key + Cs[I].Name + ";\n" + Close;
        break;
      }
      S += cat(Cs[I].Qual, " *p", I, ";\n");
      if (Ns == "<anon>")
        S += cat("void *u", I, " = &p", I, ";\n");
      if (C.chance(1, 4)) { // a member of this type keeps the class complete
        S += cat("int ", "k", I, " = sizeof(p", I, ");\n");
      }
    }
    // other types that share the names of the classes
    for (unsigned X = 0, E = C.draw(4); X < E; ++X) {
      auto Name = C.pick(Cs).Name;
      if (Name.empty() || Name.find('<') != std::string::npos)
        continue;
      if (!Used.insert("::o::" + Name).second)
        continue;
      static const char *F[] = {"typedef int ", "typedef long ", "enum ",
                                "enum "};
      int K = C.draw(4);
      S = cat("namespace o {\n", F[K], Name, K >= 2 ? " { e" : "",
              K >= 2 ? Name + "}" : "", ";\n", Name, " v", Name, ";\n}\n") +
          S;
    }
    if (C.flip())
      S += "int arr[4]; enum class En { a, b }; En en;\n";
  }
};

int idOf(const DIType *T) { // the number of the class
  auto *CT = llvm::dyn_cast<DICompositeType>(T);
  if (!CT)
    return -1;
  if (CT->getName().startswith("Fwd"))
    return atoi(CT->getName().substr(3).str().c_str());
  for (auto *E : CT->getElements())
    if (auto *D = llvm::dyn_cast<llvm::DIDerivedType>(E))
      if (D->getTag() == llvm::dwarf::DW_TAG_member &&
          D->getName().startswith("f"))
        return atoi(D->getName().substr(1).str().c_str());
  return -1;
}

void hierarchy(pbt::Ctx &C) {
  Gen G(C);
  G.run();
  clangrun::Dir D;
  D.write("a.cpp", G.S);
  auto Out = D.Path + "/a.ll";
  C.describe(G.S);
  if (!clangrun::clang({"-std=c++17", "-w", "-O0", "-g", "-fstandalone-debug",
                        "-S", "-emit-llvm", "-o", Out, D.Path + "/a.cpp"})) {
    C.discard(); // an ambiguous override or the like
    return;
  }
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseIRFile(Out, Err, Ctx);
  PBT_CHECK(C, M, "harness: " + Err.getMessage().str());
  unsigned N = G.Cs.size();
  // reflexive-transitive closure
  std::vector<std::set<int>> Sub(N);
  unsigned Pairs = 0;
  for (unsigned I = 0; I < N; ++I)
    for (unsigned J = 0; J < N; ++J)
      if (I == J || G.isBase(J, I)) {
        Sub[I].insert(J);
        Pairs += I != J;
      }
  C.nontrivial(Pairs >= 2);

  bool Unique = true;
  auto Check = [&](const llvm::Module &M, const LLVMProjectIRDB &IRDB,
                   const DIBasedTypeHierarchy &TH, const std::string &W) {
    llvm::DebugInfoFinder DIF;
    DIF.processModule(M);
    std::map<int, const DIType *> ById;
    std::map<std::string, int> Count;
    for (auto *T : TH.getAllTypes()) {
      int I = idOf(T);
      PBT_CHECK(C, I >= 0 && I < int(N),
                W + ": unknown type " + T->getName().str());
      PBT_CHECK(C, ById.emplace(I, T).second,
                cat(W, ": type ", I, " occurs twice"));
      ++Count[TH.getTypeName(T).str()];
    }
    PBT_CHECK(C, ById.size() == N,
              cat(W, ": ", ById.size(), " instead of ", N, " types"));
    PBT_CHECK(C, TH.size() == N && TH.empty() == (N == 0), W + ": size");
    for (auto &[I, T] : ById) {
      PBT_CHECK(C, TH.hasType(T), W + ": hasType");
      PBT_CHECK(C, T->getName() == G.Cs[I].Name,
                cat(W, ": name ", T->getName().str()));
      auto Name = TH.getTypeName(T);
      PBT_CHECK(C,
                Name == llvm::cast<DICompositeType>(T)->getIdentifier() ||
                    Name == T->getName(),
                W + ": type name " + Name.str());
      if (!Name.empty() && Count[Name.str()] == 1)
        PBT_CHECK(C, TH.getType(Name) == T, W + ": getType of " + Name.str());
      else
        Unique = false;
      if (auto Id = llvm::cast<DICompositeType>(T)->getIdentifier();
          !Id.empty())
        PBT_CHECK(C, Name == Id && TH.getType(Id) == T,
                  W + ": type of identifier " + Id.str());
      std::set<int> Got;
      auto St = TH.getSubTypes(T);
      for (auto *S : St)
        Got.insert(idOf(S));
      PBT_CHECK(C, Got == Sub[I] && Got.size() == St.size(),
                cat(W, ": subtypes of ", G.Cs[I].Qual));
      std::set<const DIType *> R;
      for (auto *S : TH.subTypesOf(T))
        R.insert(S);
      PBT_CHECK(C, R == St, W + ": subTypesOf");
      for (auto &[J, U] : ById)
        PBT_CHECK(C, TH.isSubType(T, U) == (Sub[I].count(J) != 0),
                  cat(W, ": isSubType of ", G.Cs[I].Qual, " and ",
                      G.Cs[J].Qual));
    }
    for (auto *T : DIF.types()) {
      if (idOf(T) >= 0)
        continue;
      PBT_CHECK(C, !TH.hasType(T), W + ": has type " + T->getName().str());
      PBT_CHECK(C, TH.getSubTypes(T).empty() &&
                       !TH.isSubType(T, ById.begin()->second) &&
                       !TH.isSubType(ById.begin()->second, T),
                W + ": subtypes of " + T->getName().str());
    }
    PBT_CHECK(C, !TH.getType("no such type"), W + ": unknown name");

    // virtual tables, in the order of getAllTypes
    auto Types = TH.getAllTypes();
    auto &VTs = TH.getAllVTables();
    PBT_CHECK(C, VTs.size() == Types.size(), W + ": number of vtables");
    for (unsigned I = 0; I < Types.size(); ++I) {
      std::map<unsigned, const llvm::Function *> Want;
      for (auto *E : llvm::cast<DICompositeType>(Types[I])->getElements())
        if (auto *SP = llvm::dyn_cast<llvm::DISubprogram>(E))
          if (SP->getVirtuality())
            if (auto *F = M.getFunction(SP->getLinkageName()))
              Want[SP->getVirtualIndex()] = F;
      auto VT = VTs[I].getAllFunctions();
      PBT_CHECK(C, VT.size() == VTs[I].size() && VTs[I].empty() == VT.empty(),
                W + ": size of a vtable");
      for (unsigned J = 0; J < VT.size(); ++J) {
        auto It = Want.find(J);
        PBT_CHECK(C, VT[J] == (It == Want.end() ? nullptr : It->second),
                  cat(W, ": entry ", J, " of the vtable of ",
                      Types[I]->getName().str(), " is ",
                      VT[J] ? VT[J]->getName().str() : "<null>"));
        PBT_CHECK(C, VTs[I].getFunction(J) == VT[J], W + ": getFunction");
        if (VT[J])
          PBT_CHECK(C, VTs[I].getIndex(VT[J]) == int(J), W + ": getIndex");
      }
      PBT_CHECK(C, Want.empty() || Want.rbegin()->first + 1 == VT.size(),
                cat(W, ": the vtable of ", Types[I]->getName().str(), " has ",
                    VT.size(), " entries"));
      PBT_CHECK(C, !VTs[I].getFunction(VT.size()), W + ": past the end");
    }

    // printed forms
    std::string S;
    llvm::raw_string_ostream OS(S);
    TH.printAsDot(OS);
    std::istringstream IS(S);
    std::string L;
    std::map<unsigned, std::string> Label;
    std::set<std::pair<unsigned, unsigned>> Edges;
    while (std::getline(IS, L)) {
      unsigned A, B;
      if (sscanf(L.c_str(), "%u -> %u", &A, &B) == 2)
        Edges.insert({A, B});
      else if (sscanf(L.c_str(), "%u[", &A) == 1)
        PBT_CHECK(C, Label.emplace(A, L).second, W + ": dot node twice");
    }
    PBT_CHECK(C, Label.size() == N, W + ": dot nodes");
    std::multiset<std::pair<std::string, std::string>> WantE, GotE;
    for (auto &[A, B] : Edges) {
      auto Lab = [&](unsigned X) {
        auto &Y = Label.at(X);
        auto P = Y.find('"'), Q = Y.rfind('"');
        return Y.substr(P + 1, Q - P - 1);
      };
      PBT_CHECK(C, Label.count(A) && Label.count(B), W + ": dot edge");
      GotE.insert({Lab(A), Lab(B)});
    }
    for (unsigned I = 0; I < N; ++I)
      for (int J : Sub[I])
        WantE.insert({G.Cs[I].Name, G.Cs[J].Name});
    PBT_CHECK(C, GotE == WantE, W + ": dot edges");

    std::string S3;
    {
      llvm::raw_string_ostream OS(S3);
      TH.print(OS);
    }
    std::istringstream IS3(S3);
    std::multiset<std::pair<std::string, std::multiset<std::string>>> GotT,
        WantT;
    std::vector<std::vector<std::string>> GotV;
    while (std::getline(IS3, L)) {
      if (auto P = L.find(" --> "); P != std::string::npos) {
        std::istringstream LS(L.substr(P + 5));
        std::multiset<std::string> Subs;
        for (std::string X; LS >> X;)
          Subs.insert(X);
        GotT.insert({L.substr(0, P), Subs});
      } else if (L.rfind("Virtual function table for: ", 0) == 0)
        GotV.push_back({L.substr(28)});
      else if (L.rfind("\t-", 0) == 0 && !GotV.empty())
        GotV.back().push_back(L.substr(2));
    }
    for (unsigned I = 0; I < N; ++I) {
      // once per inheritance path
      std::multiset<std::string> Subs;
      unsigned Skip = 1;
      for (auto *S : TH.subTypesOf(ById[I]))
        if (Skip)
          --Skip;
        else {
          std::istringstream LS(S->getName().str());
          for (std::string X; LS >> X;)
            Subs.insert(X);
        }
      WantT.insert({G.Cs[I].Name, Subs});
    }
    PBT_CHECK(C, GotT == WantT, W + ": printed types\n" + S3);
    PBT_CHECK(C, GotV.size() == N, W + ": printed vtables");
    for (unsigned I = 0; I < N; ++I) {
      std::vector<std::string> WantV{Types[I]->getName().str()};
      for (auto *F : VTs[I].getAllFunctions())
        WantV.push_back(F ? F->getName().str() : "<null>");
      PBT_CHECK(C, GotV[I] == WantV, W + ": printed vtable\n" + S3);
    }
  };

  LLVMProjectIRDB IRDB(M.get());
  DIBasedTypeHierarchy TH(IRDB);
  Check(*M, IRDB, TH, "built");
  if (!Unique) {
    C.label("ambiguous names");
    return;
  }
  std::string S;
  {
    llvm::raw_string_ostream OS(S);
    TH.printAsJson(OS);
  }
  DIBasedTypeHierarchyData Data;
  if (C.flip()) {
    D.write("th.json", S);
    Data = DIBasedTypeHierarchyData::deserializeJson(D.Path + "/th.json");
  } else
    Data = DIBasedTypeHierarchyData::loadJsonString(S);
  llvm::LLVMContext Ctx2;
  std::unique_ptr<llvm::Module> M2;
  std::unique_ptr<LLVMProjectIRDB> DB2;
  bool Fresh = C.flip();
  if (Fresh) {
    M2 = llvm::parseIRFile(Out, Err, Ctx2);
    DB2 = std::make_unique<LLVMProjectIRDB>(M2.get());
  }
  DIBasedTypeHierarchy TH2(Fresh ? DB2.get() : &IRDB, Data);
  Check(Fresh ? *M2 : *M, Fresh ? *DB2 : IRDB, TH2, "reloaded");
  std::string S2;
  {
    llvm::raw_string_ostream OS(S2);
    TH2.printAsJson(OS);
  }
  PBT_CHECK(C, S2 == S, "the reloaded hierarchy is stored as\n" + S2 +
                            " instead of\n" + S);
  C.label("reloaded");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P33";
  P.Subs = {
      {"hierarchy",
       "random class graphs in C++ (virtual, private and typedef bases, "
       "namespaces, nested, local, anonymous, template classes, unions, forward "
       "declarations, other types of the same name) compiled by clang -g; "
       "types, subtypes, vtables and printed forms are compared with the "
       "generator's graph and the class members, also after storing and "
       "reloading. Non-trivial: two subtype pairs",
       hierarchy, 4000}};
  return pbt::run(argc, argv, P);
}
