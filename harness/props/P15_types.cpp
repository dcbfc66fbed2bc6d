// BUILD:
// P15: type hierarchy and vtables
#include "../common/cppgen.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMVFTableData.h"
using namespace psr;

static std::string nm(const llvm::Function *F) {
  return F ? F->getName().str() : "<null>";
}

static void hierarchy(pbt::Ctx &C, const cppgen::Gen &G,
                      const LLVMTypeHierarchy &TH, const llvm::Module &M,
                      const char *Which) {
  std::string W = std::string(Which) + ": ";
  std::set<const llvm::StructType *> All, Got;
  for (auto *T : M.getIdentifiedStructTypes())
    All.insert(T);
  for (auto *T : TH.getAllTypes())
    Got.insert(T);
  PBT_CHECK(C, All == Got && TH.size() == All.size(), W + "set of types");
  PBT_CHECK(C, TH.empty() == All.empty(), W + "empty()");
  for (size_t K = 0; K < G.Cs.size(); ++K) {
    auto *T = G.Cs[K].Ty;
    if (!All.count(T))
      continue;
    PBT_CHECK(C, TH.hasType(T), W + "hasType " + T->getName().str());
    PBT_CHECK(C, TH.getType(T->getName()) == T, W + "getType");
    PBT_CHECK(C, TH.getTypeName(T) == T->getName(), W + "getTypeName");
    std::set<const llvm::StructType *> Want;
    if (G.Cs[K].Poly) {
      for (int S : G.subs(K))
        if (All.count(G.Cs[S].Ty))
          Want.insert(G.Cs[S].Ty);
    } else {
      Want.insert(T); // no type info
    }
    auto Sub = TH.getSubTypes(T);
    std::string L;
    for (auto *X : Sub)
      L += " " + X->getName().str();
    PBT_CHECK(C, Sub == Want, W + "subtypes of " + T->getName().str() + " are" + L);
    for (auto &X : G.Cs)
      if (All.count(X.Ty))
        PBT_CHECK(C, TH.isSubType(T, X.Ty) == bool(Want.count(X.Ty)),
                  W + "isSubType");
  }
  PBT_CHECK(C, !TH.getType("no such type"), W + "unknown type");
}

// The printed form has the edges of the hierarchy (perhaps only those to direct
// subtypes) and the vtables.
static void printed(pbt::Ctx &C, const LLVMTypeHierarchy &TH,
                    const LLVMVFTableProvider &VTP, const char *Which) {
  std::string W = std::string(Which) + ", printed: ", PS, L;
  {
    llvm::raw_string_ostream PO(PS);
    TH.print(PO);
  }
  using Edges = std::map<std::string, std::set<std::string>>;
  auto Close = [](Edges &E) {
    for (bool Ch = true; Ch;) {
      Ch = false;
      for (auto &[A, Bs] : E) {
        auto N = Bs;
        N.insert(A);
        for (auto &B : Bs)
          if (auto It = E.find(B); It != E.end())
            N.insert(It->second.begin(), It->second.end());
        if (N.size() != Bs.size()) {
          Bs = N;
          Ch = true;
        }
      }
    }
  };
  Edges Got, Want, Dot;
  std::map<std::string, std::vector<std::string>> VT;
  std::vector<std::string> *Cur = nullptr;
  std::istringstream IS(PS);
  while (std::getline(IS, L)) {
    if (auto P = L.find(" --> "); P != std::string::npos) {
      std::istringstream LS(L.substr(P + 5));
      auto &E = Got[L.substr(0, P)];
      for (std::string X; LS >> X;)
        E.insert(X);
    } else if (L.rfind("Virtual function table for: ", 0) == 0)
      Cur = &VT[L.substr(28)];
    else if (L.rfind("\t-", 0) == 0 && Cur)
      Cur->push_back(L.substr(2));
  }
  for (auto *T : TH.getAllTypes()) {
    auto &E = Want[T->getName().str()];
    for (auto *S : TH.getSubTypes(T))
      E.insert(S->getName().str());
    if (auto *V = VTP.getVFTableOrNull(T)) {
      std::vector<std::string> Fs;
      for (auto *F : V->getAllFunctions())
        Fs.push_back(F ? F->getName().str()
                       : std::string(LLVMVFTable::NullFunName));
      PBT_CHECK(C, VT[T->getName().str()] == Fs,
                W + "vtable of " + T->getName().str());
    } else
      PBT_CHECK(C, VT[T->getName().str()].empty(),
                W + "vtable of " + T->getName().str());
  }
  Close(Got);
  PBT_CHECK(C, Got == Want, W + "edges\n" + PS);
  std::string DS;
  {
    llvm::raw_string_ostream PO(DS);
    TH.printAsDot(PO);
  }
  std::istringstream DI(DS);
  std::map<unsigned, std::string> Label;
  std::vector<std::pair<unsigned, unsigned>> DE;
  while (std::getline(DI, L)) {
    unsigned A, B;
    if (sscanf(L.c_str(), "%u -> %u", &A, &B) == 2 ||
        sscanf(L.c_str(), "%u->%u", &A, &B) == 2)
      DE.push_back({A, B});
    else if (sscanf(L.c_str(), "%u[", &A) == 1) {
      auto P = L.find("label=");
      auto Q = L.rfind(']');
      auto N = L.substr(P + 6, Q - P - 6);
      if (N.size() >= 2 && N[0] == '"')
        N = N.substr(1, N.size() - 2);
      Label[A] = N;
      Dot[N];
    }
  }
  for (auto &[A, B] : DE) {
    PBT_CHECK(C, Label.count(A) && Label.count(B), W + "dot node");
    Dot[Label[A]].insert(Label[B]);
  }
  Close(Dot);
  PBT_CHECK(C, Dot == Want, W + "dot edges\n" + DS);
}

static void check(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  cppgen::Opts O;
  O.MultiInh = true;
  O.Members = true;
  cppgen::Gen G(C, O, Ctx);
  auto M = G.run();
  std::string S;
  llvm::raw_string_ostream(S) << *M;
  C.describe(S);
  LLVMProjectIRDB IRDB(M.get());
  LLVMTypeHierarchy TH(IRDB);
  hierarchy(C, G, TH, *M, "built");
  // vtables
  LLVMVFTableProvider VTP(IRDB);
  std::set<const llvm::StructType *> All;
  for (auto *T : M->getIdentifiedStructTypes())
    All.insert(T);
  unsigned Multi = 0;
  for (auto &K : G.Cs) {
    if (!All.count(K.Ty))
      continue;
    std::string N = K.Ty->getName().str();
    bool Has = K.Poly && !K.External &&
               (!K.VT.empty() || !K.Sec.empty());
    // whether a polymorphic class whose vtable lives elsewhere "has" one is
    // left open
    PBT_CHECK(C, VTP.hasVFTable(K.Ty) == Has || (K.Poly && K.External),
              "hasVFTable(" + N + ") want " + std::to_string(Has));
    auto *VT = VTP.getVFTableOrNull(K.Ty);
    if (!Has) {
      PBT_CHECK(C, !VT || VT->empty(), "vtable of " + N);
      continue;
    }
    PBT_CHECK(C, VT, "no vtable for " + N);
    for (size_t J = 0; J < K.VT.size(); ++J) {
      auto *Want = K.VT[J].Pure ? G.PureFn : K.VT[J].Fn;
      PBT_CHECK(C, VT->getFunction(J) == Want,
                "vtable of " + N + "[" + std::to_string(J) + "] is " +
                    nm(VT->getFunction(J)) + " want " + nm(Want));
    }
    size_t Entries = K.VT.size();
    for (auto &V : K.Sec) {
      ++Multi;
      for (auto &S : V)
        if (!S.Pure)
          PBT_CHECK(C, VT->getIndex(S.Fn) >= 0,
                    "secondary entry " + nm(S.Fn) + " lost");
      Entries += V.size();
    }
    PBT_CHECK(C, VT->size() == Entries, "vtable size of " + N);
    PBT_CHECK(C, VT->getFunction(VT->size()) == nullptr, "out of range entry");
    for (size_t J = 0; J < K.VT.size(); ++J)
      if (!K.VT[J].Pure) {
        int Idx = VT->getIndex(K.VT[J].Fn);
        PBT_CHECK(C, Idx >= 0 && VT->getFunction(Idx) == K.VT[J].Fn,
                  "getIndex of " + nm(K.VT[J].Fn));
      }
    PBT_CHECK(C, VT->getIndex(M->getFunction("main")) == -1, "index of main");
    // its serialised form names the same entries
    std::string J;
    llvm::raw_string_ostream JO(J);
    VT->printAsJson(JO);
    JO.flush();
    auto D = LLVMVFTableData::loadJsonString(J);
    PBT_CHECK(C, D.VFT.size() == VT->size(), "serialised vtable");
    for (size_t I = 0; I < D.VFT.size(); ++I)
      if (auto *F = VT->getFunction(I))
        PBT_CHECK(C, D.VFT[I] == F->getName(), "serialised vtable entry");
    std::string PS;
    llvm::raw_string_ostream PO(PS);
    VT->print(PO);
  }
  printed(C, TH, VTP, "built");
  // serialise
  std::string J;
  llvm::raw_string_ostream JO(J);
  TH.printAsJson(JO);
  JO.flush();
  LLVMTypeHierarchy TH2(IRDB, LLVMTypeHierarchyData::loadJsonString(J));
  hierarchy(C, G, TH2, *M, "deserialised");
  printed(C, TH2, VTP, "deserialised");
  {
    // data that also mentions a type this module does not have
    auto D = LLVMTypeHierarchyData::loadJsonString(J);
    for (auto &E : D.TypeGraph)
      if (C.chance(1, 3))
        E.getValue().push_back("struct.Gone");
    D.TypeGraph["struct.Gone"].push_back("struct.Gone");
    LLVMTypeHierarchy TH3(IRDB, D);
    hierarchy(C, G, TH3, *M, "deserialised with unknown types");
  }
  std::string J2;
  llvm::raw_string_ostream JO2(J2);
  TH2.printAsJson(JO2);
  JO2.flush();
  auto D1 = LLVMTypeHierarchyData::loadJsonString(J),
       D2 = LLVMTypeHierarchyData::loadJsonString(J2);
  for (auto &E : D1.TypeGraph) {
    auto It = D2.TypeGraph.find(E.getKey());
    PBT_CHECK(C, It != D2.TypeGraph.end(), "type lost by serialisation");
    std::multiset<std::string> X(E.getValue().begin(), E.getValue().end()),
        Y(It->getValue().begin(), It->getValue().end());
    PBT_CHECK(C, X == Y, "serialised form changed");
  }
  // virtual calls are recognised, others are not
  for (auto &F : *M)
    for (auto &I : llvm::instructions(F)) {
      auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
      bool Want = false;
      if (CB && CB->isIndirectCall()) {
        auto *T = llvm::cast<llvm::StructType>(
            CB->getArgOperand(0)->getType()->getNonOpaquePointerElementType());
        for (auto &K : G.Cs)
          Want |= K.Ty == T && !K.External;
        if (!Want)
          continue; // vtable unknown: either answer is defensible
      }
      PBT_CHECK(C, isVirtualCall(&I, VTP) == Want,
                "isVirtualCall of " + [&] {
                  std::string S;
                  llvm::raw_string_ostream OS(S);
                  OS << I;
                  return OS.str();
                }());
    }
  if (Multi)
    C.label("several bases");
  C.nontrivial(G.Cs.size() >= 3);
}

// the helpers on names
static void names(pbt::Ctx &C) {
  static const char *Ids[] = {"A", "Foo", "_ZTV", "struct", "class", "x"};
  std::string N = Ids[C.draw(6)];
  std::string Pre[] = {"struct.", "class.", ""};
  unsigned K = C.draw(3);
  C.describe(Pre[K] + N);
  PBT_CHECK(C, LLVMTypeHierarchy::removeStructOrClassPrefix(Pre[K] + N) == N,
            "removeStructOrClassPrefix");
  PBT_CHECK(C, LLVMTypeHierarchy::isStruct(Pre[K] + N) == (K == 0), "isStruct");
  std::string Mg = std::to_string(N.size()) + N;
  bool TI = C.flip();
  std::string G = (TI ? "_ZTI" : "_ZTV") + Mg;
  std::string D = (TI ? "typeinfo for " : "vtable for ") + N;
  PBT_CHECK(C, LLVMTypeHierarchy::isTypeInfo(G) == TI, "isTypeInfo");
  PBT_CHECK(C, LLVMTypeHierarchy::isVTable(G) == !TI, "isVTable");
  PBT_CHECK(C,
            (TI ? LLVMTypeHierarchy::removeTypeInfoPrefix(D)
                : LLVMTypeHierarchy::removeVTablePrefix(D)) == N,
            "remove prefix of " + D);
  PBT_CHECK(C,
            (TI ? LLVMTypeHierarchy::removeTypeInfoPrefix(G)
                : LLVMTypeHierarchy::removeVTablePrefix(G)) == Mg,
            "remove prefix of " + G);
  C.nontrivial();
}

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P15";
  P.Subs = {
      {"hierarchy",
       "random class hierarchies (1-6 classes, several bases, overriding, pure "
       "and inherited functions, namespaces, classes defined elsewhere) as "
       "Itanium IR; subtypes, vtables, serialisation and virtual-call "
       "recognition are compared with the generator's class model. "
       "Non-trivial: at least three classes",
       check, 12000},
      {"names", "type, type-info and vtable names. All non-trivial", names, 2000},
  };
  return pbt::run(argc, argv, P);
}
