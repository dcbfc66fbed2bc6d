// BUILD:
// P17: instruction numbering of the IRDB
#include "../common/irgen.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/MemoryBuffer.h"

#include <map>
#include <set>
using namespace psr;

static std::string str(const llvm::Value *V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  return OS.str();
}

// all queries of one IRDB against the module it manages; Late = functions
// inserted later, in order of insertion
static void audit(pbt::Ctx &C, LLVMProjectIRDB &DB, const llvm::Module &M,
                  const std::vector<const llvm::Function *> &Late, bool MD,
                  const char *When) {
  std::string W = std::string(When) + ": ";
  std::vector<const llvm::Value *> Order;
  std::set<const llvm::Function *> L(Late.begin(), Late.end());
  for (auto &G : M.globals())
    Order.push_back(&G);
  size_t NG = Order.size();
  for (auto &F : M)
    if (!L.count(&F))
      for (auto &I : llvm::instructions(F))
        Order.push_back(&I);
  for (auto *F : Late)
    for (auto &I : llvm::instructions(F))
      Order.push_back(&I);
  PBT_CHECK(C, DB.isValid() && bool(DB), W + "not valid");
  PBT_CHECK(C, DB.getModule() == &M, W + "module");
  PBT_CHECK(C, DB.getNumInstructions() == Order.size() - NG,
            W + "getNumInstructions");
  PBT_CHECK(C, DB.getNumFunctions() == M.size(), W + "getNumFunctions");
  PBT_CHECK(C, DB.getNumGlobals() == M.global_size(), W + "getNumGlobals");
  size_t K = NG;
  for (auto *I : DB.getAllInstructions()) {
    PBT_CHECK(C, K < Order.size() && I == Order[K], W + "getAllInstructions");
    ++K;
  }
  PBT_CHECK(C, K == Order.size(), W + "getAllInstructions too short");
  for (size_t Id = 0; Id < Order.size() + 3; ++Id) {
    const llvm::Value *V = Id < Order.size() ? Order[Id] : nullptr;
    PBT_CHECK(C, DB.getValueFromId(Id) == V,
              W + "getValueFromId(" + std::to_string(Id) + ")");
    auto *I = llvm::dyn_cast_or_null<llvm::Instruction>(V);
    PBT_CHECK(C, DB.getInstruction(Id) == I,
              W + "getInstruction(" + std::to_string(Id) + ")");
    if (I) {
      PBT_CHECK(C, DB.getInstructionId(I) == Id,
                W + "getInstructionId of " + str(I));
      if (MD)
        PBT_CHECK(C, getMetaDataID(I) == std::to_string(Id),
                  W + "metadata id of " + str(I) + " is " + getMetaDataID(I) +
                      ", want " + std::to_string(Id));
    } else if (V && MD) {
      PBT_CHECK(C, getMetaDataID(V) == std::to_string(Id),
                W + "metadata id of a global");
    }
    if (V)
      PBT_CHECK(C, fromMetaDataId(DB, std::to_string(Id)) == V,
                W + "fromMetaDataId(" + std::to_string(Id) + ")");
    else
      PBT_CHECK(C, !fromMetaDataId(DB, std::to_string(Id)),
                W + "fromMetaDataId out of range");
  }
  PBT_CHECK(C, !DB.getInstruction(~size_t(0)) && !DB.getValueFromId(~size_t(0)),
            W + "huge id");
  for (auto &F : M) {
    for (auto &A : F.args()) {
      auto Id = getMetaDataID(&A);
      PBT_CHECK(C, Id == F.getName().str() + "." + std::to_string(A.getArgNo()),
                W + "argument id " + Id);
      PBT_CHECK(C, fromMetaDataId(DB, Id) == &A, W + "fromMetaDataId " + Id);
    }
    PBT_CHECK(C, !fromMetaDataId(DB, F.getName().str() + "." +
                                         std::to_string(F.arg_size())),
              W + "argument out of range");
    PBT_CHECK(C, DB.getFunction(F.getName()) == &F, W + "getFunction");
    PBT_CHECK(C, DB.hasFunction(F.getName()), W + "hasFunction");
    PBT_CHECK(C,
              DB.getFunctionDefinition(F.getName()) ==
                  (F.isDeclaration() ? nullptr : &F),
              W + "getFunctionDefinition");
  }
  PBT_CHECK(C, !DB.getFunction("no such") && !DB.hasFunction("no such") &&
                   !DB.getFunctionDefinition("no such"),
            W + "unknown function");
  std::set<const llvm::Function *> Fs;
  size_t NF = 0;
  for (auto *F : DB.getAllFunctions())
    Fs.insert(F), ++NF;
  PBT_CHECK(C, NF == M.size() && Fs.size() == M.size(), W + "getAllFunctions");
  for (auto &G : M.globals())
    PBT_CHECK(C,
              DB.getGlobalVariableDefinition(G.getName()) ==
                  (G.isDeclaration() || G.hasInternalLinkage()
                       ? DB.getGlobalVariableDefinition(G.getName())
                       : &G),
              W + "getGlobalVariableDefinition");
}

static std::vector<std::string> listing(const LLVMProjectIRDB &DB) {
  std::vector<std::string> R;
  for (size_t Id = 0;; ++Id) {
    auto *V = DB.getValueFromId(Id);
    if (!V)
      break;
    std::string S;
    if (auto *I = llvm::dyn_cast<llvm::Instruction>(V))
      S = I->getFunction()->getName().str() + "|" + I->getOpcodeName() + "|";
    else
      S = V->getName().str() + "|g|";
    R.push_back(S);
  }
  return R;
}

static void check(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Opts O;
  O.Invokes = O.Dbg = O.Unreach = O.MultiRet = O.Structs = O.Arrays = O.FnPtrs =
      O.Linkage = true;
  irgen::Gen G(C, O, Ctx);
  auto Own = G.run();
  C.describe(irgen::print(*Own));
  if (C.chance(1, 4)) // a declared global
    new llvm::GlobalVariable(*Own, llvm::Type::getInt32Ty(Ctx), false,
                             llvm::GlobalValue::ExternalLinkage, nullptr, "ext");
  auto *M = Own.get();
  std::string Text = irgen::print(*M);
  unsigned Mode = C.draw(3);
  bool Pre = Mode == 2 || C.flip();
  std::unique_ptr<LLVMProjectIRDB> DB;
  if (Mode == 0)
    DB = std::make_unique<LLVMProjectIRDB>(M, Pre);
  else if (Mode == 1)
    DB = std::make_unique<LLVMProjectIRDB>(std::move(Own), Pre);
  else {
    auto Buf = llvm::MemoryBuffer::getMemBuffer(Text, "x");
    DB = std::make_unique<LLVMProjectIRDB>(Buf->getMemBufferRef());
    M = DB->getModule();
    PBT_CHECK(C, M, "module does not load");
  }
  audit(C, *DB, *M, {}, Pre, "fresh");
  // insert functions
  std::vector<const llvm::Function *> Late;
  unsigned N = C.draw(4);
  for (unsigned K = 0; K < N; ++K) {
    auto &LC = M->getContext();
    auto *F = llvm::Function::Create(
        llvm::FunctionType::get(llvm::Type::getInt32Ty(LC),
                                {llvm::Type::getInt32Ty(LC)}, false),
        llvm::Function::ExternalLinkage, "late" + std::to_string(K), *M);
    if (C.flip()) // somewhere else in the function list
      F->removeFromParent(), M->getFunctionList().push_front(F);
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(LC, "", F));
    llvm::Value *V = F->getArg(0);
    unsigned NI = C.draw(4);
    for (unsigned J = 0; J < NI; ++J)
      V = B.CreateAdd(V, F->getArg(0));
    B.CreateRet(V);
    DB->insertFunction(F, Pre);
    Late.push_back(F);
    audit(C, *DB, *M, Late, Pre, "after insertFunction");
  }
  if (N == 0 && C.flip()) {
    // the numbering only depends on the program: print, load, same numbers
    std::string Out;
    llvm::raw_string_ostream OS(Out);
    DB->emitPreprocessedIR(OS);
    OS.flush();
    auto Buf = llvm::MemoryBuffer::getMemBuffer(Out, "y");
    LLVMProjectIRDB DB2(Buf->getMemBufferRef());
    PBT_CHECK(C, DB2.isValid(), "emitted IR does not load:\n" + Out);
    audit(C, DB2, *DB2.getModule(), {}, true, "reloaded");
    auto A = listing(*DB), B = listing(DB2);
    PBT_CHECK(C, A == B, "numbering changed by print and load");
    // the annotations in the text are the ids
    for (auto *I : DB->getAllInstructions()) {
      std::string Tag = "ID: " + std::to_string(DB->getInstructionId(I));
      auto P = Out.find(Tag + "\n");
      PBT_CHECK(C, P != std::string::npos, "no annotation '" + Tag + "'");
    }
    C.label("print and reload");
  }
  if (N)
    C.label("functions inserted");
  C.nontrivial(DB->getNumInstructions() > 8);
}

// malformed text is rejected, not half-loaded
static void garbage(pbt::Ctx &C) {
  llvm::LLVMContext Ctx;
  irgen::Opts O;
  O.MaxFuns = 2;
  irgen::Gen G(C, O, Ctx);
  auto M = G.run();
  // without the data layout, of which LLVM aborts on errors
  M->setDataLayout("");
  std::string T = irgen::print(*M);
  unsigned N = 1 + C.draw(4);
  for (unsigned K = 0; K < N && !T.empty(); ++K) {
    size_t P = C.draw(T.size());
    switch (C.draw(4)) {
    case 0:
      T.erase(P, 1 + C.draw(20));
      break;
    case 1:
      T[P] = " %@!,i*{}0"[C.draw(10)];
      break;
    case 2:
      T.insert(P, T.substr(C.draw(T.size()), C.draw(30)));
      break;
    default:
      T.resize(P);
    }
  }
  C.describe(T);
  // LLVM itself as the oracle
  bool Ok = false;
  std::string Canon;
  {
    llvm::LLVMContext C2;
    llvm::SMDiagnostic D;
    auto M2 = llvm::parseIR(llvm::MemoryBufferRef(T, "x"), D, C2);
    bool BDI = false;
    Ok = M2 && !llvm::verifyModule(*M2, nullptr, &BDI);
    if (Ok)
      Canon = irgen::print(*M2);
  }
  auto Buf = llvm::MemoryBuffer::getMemBufferCopy(T, "x");
  LLVMProjectIRDB DB(Buf->getMemBufferRef());
  PBT_CHECK(C, DB.isValid() == Ok,
            std::string("isValid() is ") + (Ok ? "false" : "true"));
  if (Ok) {
    audit(C, DB, *DB.getModule(), {}, true, "mutated text");
    C.label("still valid");
  }
  C.nontrivial();
}

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P17";
  P.Subs = {
      {"ids",
       "a random module, owned or not, preprocessed or not, loaded from text "
       "or not, then up to three insertFunction calls; every id query in both "
       "directions is checked after each step against the order of the module; "
       "print+reload keeps the ids. Non-trivial: more than eight instructions",
       check, 12000},
      {"malformed", "random edits of the text of a module; LLVM's own parser and "
                    "verifier decide whether it has to load. All non-trivial",
       garbage, 12000},
  };
  return pbt::run(argc, argv, P);
}
