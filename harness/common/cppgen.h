// Random C++-like modules following the Itanium ABI: class hierarchies with
// type infos, vtables (with thunks for secondary bases), constructors, objects
// of all storage kinds, and virtual calls.
#pragma once
#include "pbt.h"

#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace cppgen {
using namespace llvm;

struct Opts {
  unsigned MaxClasses = 6;
  bool MultiInh = false; // more than one base
  bool Globals = true, Heap = true, Arrays = true, Members = false;
  bool DeclaredOnly = true; // a class whose key function is elsewhere
  unsigned MaxFuns = 3, MaxStmts = 6;
  bool NonPoly = true; // classes without virtual functions
  bool SecondaryCalls = false;
};

struct Slot {
  std::string M;         // method name
  Function *Fn = nullptr; // null: pure
  bool Pure = false;
};
struct Cls {
  std::string Name, Ns, Mangled; // Mangled: as in _ZTV<Mangled>
  std::vector<int> Bases;
  StructType *Ty = nullptr;
  bool Poly = false, External = false;
  std::vector<Slot> VT; // primary
  std::vector<std::vector<Slot>> Sec; // secondary vtables, one per further base
  std::vector<unsigned> SecSlots;     // index of the first entry in the array
  GlobalVariable *TI = nullptr, *VTab = nullptr;
  Function *Ctor = nullptr;
  std::vector<std::string> Pures() const {
    std::vector<std::string> R;
    for (auto &S : VT)
      if (S.Pure)
        R.push_back(S.M);
    return R;
  }
  bool abstract() const {
    for (auto &S : VT)
      if (S.Pure)
        return true;
    for (auto &V : Sec)
      for (auto &S : V)
        if (S.Pure)
          return true;
    return false;
  }
};

struct Gen {
  pbt::Ctx &C;
  Opts O;
  LLVMContext &Ctx;
  std::unique_ptr<Module> M;
  IRBuilder<> B;
  Type *I32, *I8P, *I64;
  Type *VPtr;  // i32 (...)**
  std::vector<Cls> Cs;
  std::vector<Function *> Helpers;
  std::vector<std::pair<int, GlobalVariable *>> GObjs;
  std::set<int> Instantiated;
  unsigned VCalls = 0;
  Function *PureFn = nullptr;

  Gen(pbt::Ctx &C, const Opts &O, LLVMContext &Ctx)
      : C(C), O(O), Ctx(Ctx), M(std::make_unique<Module>("cpp", Ctx)), B(Ctx) {
    M->setDataLayout(
        "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128");
    M->setTargetTriple("x86_64-unknown-linux-gnu");
    I32 = B.getInt32Ty();
    I64 = B.getInt64Ty();
    I8P = B.getInt8PtrTy();
    VPtr = FunctionType::get(I32, true)->getPointerTo()->getPointerTo();
  }
  std::string mname(const Cls &K, const std::string &F) {
    std::string S = "_ZN";
    if (!K.Ns.empty())
      S += std::to_string(K.Ns.size()) + K.Ns;
    S += std::to_string(K.Name.size()) + K.Name + F;
    return S;
  }
  FunctionType *methodTy(const Cls &K) {
    return FunctionType::get(I32, {K.Ty->getPointerTo(), I32}, false);
  }
  // all classes below (and including) K
  std::set<int> subs(int K) const {
    std::set<int> R{K};
    bool Ch = true;
    while (Ch) {
      Ch = false;
      for (size_t I = 0; I < Cs.size(); ++I)
        for (int Bs : Cs[I].Bases)
          if (R.count(Bs) && R.insert(I).second)
            Ch = true;
    }
    return R;
  }
  bool isDup(int K) { // some base occurs twice
    std::multiset<int> S;
    std::function<void(int)> Go = [&](int X) {
      S.insert(X);
      for (int Y : Cs[X].Bases)
        Go(Y);
    };
    Go(K);
    for (int X : S)
      if (S.count(X) > 1)
        return true;
    return false;
  }
  Constant *i8(Constant *K) { return ConstantExpr::getBitCast(K, I8P); }

  void classes() {
    static const char *Names[] = {"A", "Bee", "C1", "Dd", "E", "Foo", "G"};
    unsigned N = 1 + C.draw(O.MaxClasses);
    auto *VTI1 = M->getOrInsertGlobal("_ZTVN10__cxxabiv117__class_type_infoE", I8P);
    auto *VTI2 =
        M->getOrInsertGlobal("_ZTVN10__cxxabiv120__si_class_type_infoE", I8P);
    auto *VTI3 =
        M->getOrInsertGlobal("_ZTVN10__cxxabiv121__vmi_class_type_infoE", I8P);
    for (unsigned K = 0; K < N; ++K) {
      Cls X;
      X.Name = Names[K];
      if (C.chance(1, 4))
        X.Ns = "ns";
      if (K && C.chance(4, 5)) {
        X.Bases.push_back(C.draw(K));
        if (O.MultiInh && K > 1 && C.flip()) {
          int Y = C.draw(K);
          if (Y != X.Bases[0])
            X.Bases.push_back(Y);
        }
      }
      Cs.push_back(X);
      auto &Z = Cs.back();
      if (isDup(K))
        Z.Bases.resize(1); // no repeated bases
      bool BasePoly = false;
      for (int Y : Z.Bases)
        BasePoly |= Cs[Y].Poly;
      if (!Z.Bases.empty() && Z.Bases.size() > 1 &&
          !(Cs[Z.Bases[0]].Poly && Cs[Z.Bases[1]].Poly))
        Z.Bases.resize(1);
      BasePoly = !Z.Bases.empty() && Cs[Z.Bases[0]].Poly;
      bool BaseNonPoly = !Z.Bases.empty() && !BasePoly;
      Z.Poly = BasePoly || (!BaseNonPoly && !(O.NonPoly && C.chance(1, 6)));
      Z.Mangled = Z.Ns.empty()
                      ? std::to_string(Z.Name.size()) + Z.Name
                      : "N" + std::to_string(Z.Ns.size()) + Z.Ns +
                            std::to_string(Z.Name.size()) + Z.Name + "E";
      std::string TN = (C.flip() ? "class." : "struct.") +
                       (Z.Ns.empty() ? "" : Z.Ns + "::") + Z.Name;
      std::vector<Type *> El;
      for (int Y : Z.Bases)
        El.push_back(Cs[Y].Ty);
      if (Z.Bases.empty() && Z.Poly)
        El.push_back(VPtr);
      El.push_back(I32);
      Z.Ty = StructType::create(Ctx, El, TN);
      if (!Z.Poly)
        continue;
      Z.External = O.DeclaredOnly && C.chance(1, 10);
      // virtual functions
      if (!Z.Bases.empty())
        Z.VT = Cs[Z.Bases[0]].VT;
      auto Thunked = [&](int Base) { return Cs[Base].VT; };
      for (size_t J = 1; J < Z.Bases.size(); ++J)
        Z.Sec.push_back(Thunked(Z.Bases[J]));
      for (size_t J = 0; !Z.Bases.empty() && J < Cs[Z.Bases[0]].Sec.size(); ++J)
        Z.Sec.push_back(Cs[Z.Bases[0]].Sec[J]);
      auto Define = [&](const std::string &Mn) -> Function * {
        return Function::Create(methodTy(Z),
                                C.chance(1, 3) && !Z.External ? Function::LinkOnceODRLinkage
                                               : Function::ExternalLinkage,
                                mname(Z, std::to_string(Mn.size()) + Mn + "Ei"),
                                *M);
      };
      std::set<std::string> Overridden;
      auto Override = [&](Slot &S) {
        if (!C.flip())
          return;
        if (auto *F = M->getFunction(
                mname(Z, std::to_string(S.M.size()) + S.M + "Ei"))) {
          S.Fn = F;
          S.Pure = false;
          return;
        }
        S.Pure = C.chance(1, 8);
        S.Fn = S.Pure ? nullptr : Define(S.M);
      };
      for (auto &S : Z.VT)
        Override(S);
      for (auto &V : Z.Sec)
        for (auto &S : V) {
          // thunk to the class' own function
          if (!C.flip())
            continue;
          auto *Tgt = M->getFunction(
              mname(Z, std::to_string(S.M.size()) + S.M + "Ei"));
          if (!Tgt)
            Tgt = Define(S.M);
          auto Nm = "_ZThn16_" + Tgt->getName().drop_front(2).str();
          auto *Th = M->getFunction(Nm);
          if (!Th)
            Th = Function::Create(methodTy(Z), Function::ExternalLinkage, Nm, *M);
          S.Fn = Th;
          S.Pure = false;
        }
      unsigned NV = Z.Bases.empty() ? 1 + C.draw(3) : C.draw(2);
      for (unsigned J = 0; J < NV; ++J) {
        Slot S;
        S.M = std::string("f") + char('a' + K) + std::to_string(J);
        S.Pure = C.chance(1, 8);
        S.Fn = S.Pure ? nullptr : Define(S.M);
        Z.VT.push_back(S);
      }
      // type info
      auto *Nm = new GlobalVariable(
          *M, ArrayType::get(B.getInt8Ty(), Z.Mangled.size() + 1), true,
          GlobalValue::LinkOnceODRLinkage,
          ConstantDataArray::getString(Ctx, Z.Mangled), "_ZTS" + Z.Mangled);
      auto Vt = [&](Constant *T) {
        return i8(ConstantExpr::getInBoundsGetElementPtr(I8P, T, B.getInt64(2)));
      };
      std::vector<Constant *> TI;
      TI.push_back(Vt(Z.Bases.empty() ? VTI1 : Z.Bases.size() == 1 ? VTI2 : VTI3));
      TI.push_back(ConstantExpr::getInBoundsGetElementPtr(
          Nm->getValueType(), Nm,
          ArrayRef<Constant *>{B.getInt64(0), B.getInt64(0)}));
      if (Z.Bases.size() > 1) {
        TI.push_back(B.getInt32(0));
        TI.push_back(B.getInt32(Z.Bases.size()));
      }
      for (int Y : Z.Bases) {
        TI.push_back(i8(Cs[Y].TI));
        if (Z.Bases.size() > 1)
          TI.push_back(B.getInt64(2));
      }
      auto *TC = ConstantStruct::getAnon(Ctx, TI);
      Z.TI = new GlobalVariable(*M, TC->getType(), true,
                                GlobalValue::LinkOnceODRLinkage, TC,
                                "_ZTI" + Z.Mangled);
      // vtable
      std::vector<Constant *> Parts;
      auto Arr = [&](const std::vector<Slot> &V, int64_t Off) {
        std::vector<Constant *> E;
        Constant *O = Off ? ConstantExpr::getIntToPtr(B.getInt64(-Off), I8P)
                          : ConstantPointerNull::get(cast<PointerType>(I8P));
        E.push_back(O);
        E.push_back(i8(Z.TI));
        for (auto &S : V) {
          if (S.Pure) {
            if (!PureFn)
              PureFn = Function::Create(FunctionType::get(B.getVoidTy(), false),
                                        Function::ExternalLinkage,
                                        "__cxa_pure_virtual", *M);
            E.push_back(i8(PureFn));
          } else {
            E.push_back(i8(S.Fn));
          }
        }
        Parts.push_back(ConstantArray::get(ArrayType::get(I8P, E.size()), E));
      };
      Arr(Z.VT, 0);
      for (auto &V : Z.Sec)
        Arr(V, 16);
      auto *VC = ConstantStruct::getAnon(Ctx, Parts);
      Z.VTab = new GlobalVariable(*M, VC->getType(), true,
                                  Z.External ? GlobalValue::ExternalLinkage
                                             : GlobalValue::LinkOnceODRLinkage,
                                  Z.External ? nullptr : VC,
                                  "_ZTV" + Z.Mangled);
    }
    // bodies
    for (auto &Z : Cs) {
      Z.Ctor = Function::Create(
          FunctionType::get(B.getVoidTy(), {Z.Ty->getPointerTo()}, false),
          Function::LinkOnceODRLinkage, mname(Z, "C2Ev"), *M);
      B.SetInsertPoint(BasicBlock::Create(Ctx, "entry", Z.Ctor));
      Value *Th = Z.Ctor->getArg(0);
      for (size_t J = 0; J < Z.Bases.size(); ++J)
        B.CreateCall(Cs[Z.Bases[J]].Ctor, {B.CreateStructGEP(Z.Ty, Th, J)});
      if (Z.Poly) {
        B.CreateStore(vtAddr(Z, 0),
                      B.CreateBitCast(Th, VPtr->getPointerTo()));
        for (size_t J = 1; J < Z.Bases.size(); ++J)
          B.CreateStore(vtAddr(Z, J),
                        B.CreateBitCast(B.CreateStructGEP(Z.Ty, Th, J),
                                        VPtr->getPointerTo()));
      }
      B.CreateStore(B.getInt32(1),
                    B.CreateStructGEP(Z.Ty, Th, Z.Ty->getNumElements() - 1));
      B.CreateRetVoid();
    }
  }
  Constant *vtAddr(Cls &Z, unsigned Part) {
    if (Z.External && Part == 0) {
    }
    auto *G = ConstantExpr::getInBoundsGetElementPtr(
        Z.VTab->getValueType(), Z.VTab,
        ArrayRef<Constant *>{B.getInt32(0), B.getInt32(Part), B.getInt32(2)});
    return ConstantExpr::getBitCast(G, VPtr);
  }
  // upcast along primary bases; Secondary allowed if SecondaryCalls
  Value *upcast(Value *P, int From, int To) {
    if (From == To)
      return P;
    for (size_t J = 0; J < Cs[From].Bases.size(); ++J) {
      int Y = Cs[From].Bases[J];
      if (subs(To).count(Y)) {
        if (J == 0 && C.flip())
          return upcast(B.CreateBitCast(P, Cs[Y].Ty->getPointerTo()), Y, To);
        return upcast(B.CreateStructGEP(Cs[From].Ty, P, J), Y, To);
      }
    }
    return nullptr;
  }
  bool primary(int From, int To) {
    while (From != To) {
      if (Cs[From].Bases.empty())
        return false;
      From = Cs[From].Bases[0];
    }
    return true;
  }
  CallInst *vcall(Value *P, int Static, unsigned Slot, Value *X) {
    auto *FT = methodTy(Cs[Static]);
    auto *FP = FT->getPointerTo();
    auto *VT = B.CreateLoad(
        FP->getPointerTo(),
        B.CreateBitCast(P, FP->getPointerTo()->getPointerTo()));
    auto *E = B.CreateConstInBoundsGEP1_64(FP, VT, Slot);
    auto *F = B.CreateLoad(FP, E);
    ++VCalls;
    return B.CreateCall(FT, F, {P, X});
  }
  // an object of class K; what is known to the current function
  Value *object(int K) {
    Instantiated.insert(K);
    auto *Ty = Cs[K].Ty;
    std::vector<int> Kind{0, 0};
    if (O.Heap)
      Kind.push_back(1), Kind.push_back(1);
    if (O.Arrays)
      Kind.push_back(2);
    if (O.Globals)
      Kind.push_back(3);
    if (O.Members)
      Kind.push_back(4);
    Value *P;
    switch (C.pick(Kind)) {
    case 0:
      P = B.CreateAlloca(Ty);
      C.label("object: local");
      break;
    case 1: {
      auto *New = M->getOrInsertFunction("_Znwm", I8P, I64).getCallee();
      auto *R = B.CreateCall(
          FunctionType::get(I8P, {I64}, false), New,
          {B.getInt64(M->getDataLayout().getTypeAllocSize(Ty))});
      P = B.CreateBitCast(R, Ty->getPointerTo());
      C.label("object: heap");
      break;
    }
    case 2: {
      auto *AT = ArrayType::get(Ty, 2);
      auto *A = B.CreateAlloca(AT);
      P = B.CreateInBoundsGEP(AT, A, {B.getInt64(0), B.getInt64(C.draw(2))});
      C.label("object: array element");
      break;
    }
    case 3: {
      auto *G = new GlobalVariable(*M, Ty, false, GlobalValue::InternalLinkage,
                                   Constant::getNullValue(Ty), "obj");
      P = G;
      C.label("object: global");
      break;
    }
    default: {
      auto *W = StructType::create(Ctx, {I32, Ty}, "struct.W");
      auto *A = B.CreateAlloca(W);
      P = B.CreateStructGEP(W, A, 1);
      C.label("object: member");
      break;
    }
    }
    B.CreateCall(Cs[K].Ctor, {P});
    return P;
  }
  // a pointer of static type K to an object created here or passed in
  struct Ptr {
    Value *V;
    int Static;
  };
  std::vector<int> polys() {
    std::vector<int> R;
    for (size_t K = 0; K < Cs.size(); ++K)
      if (Cs[K].Poly && !Cs[K].VT.empty())
        R.push_back(K);
    return R;
  }
  void body(Function *F, std::vector<Ptr> Ps) {
    B.SetInsertPoint(BasicBlock::Create(Ctx, "entry", F));
    auto Po = polys();
    Value *Acc = B.getInt32(1);
    std::map<int, AllocaInst *> Vars;
    unsigned N = 1 + C.draw(O.MaxStmts);
    for (unsigned J = 0; J < N; ++J) {
      switch (C.draw(5)) {
      case 0:
      case 1: { // object, possibly upcast
        std::vector<int> Conc;
        for (size_t K = 0; K < Cs.size(); ++K)
          if (!Cs[K].abstract())
            Conc.push_back(K);
        if (Conc.empty())
          break;
        int K = C.pick(Conc);
        auto *P = object(K);
        int T = K;
        std::vector<int> Ups;
        for (size_t Y = 0; Y < Cs.size(); ++Y)
          if (primary(K, Y) || (O.SecondaryCalls && subs(Y).count(K)))
            Ups.push_back(Y);
        T = C.pick(Ups);
        auto *Q = upcast(P, K, T);
        if (C.chance(1, 3)) { // through a variable
          auto *V = B.CreateAlloca(Cs[T].Ty->getPointerTo());
          B.CreateStore(Q, V);
          Q = B.CreateLoad(Cs[T].Ty->getPointerTo(), V);
        }
        Ps.push_back({Q, T});
        break;
      }
      case 2:
      case 3: { // virtual call
        std::vector<Ptr> Cand;
        for (auto &P : Ps)
          if (Cs[P.Static].Poly && !Cs[P.Static].VT.empty())
            Cand.push_back(P);
        if (Cand.empty())
          break;
        auto P = C.pick(Cand);
        Acc = vcall(P.V, P.Static, C.draw(Cs[P.Static].VT.size()), Acc);
        break;
      }
      default: { // helper
        std::vector<std::pair<Function *, Ptr>> Cand;
        for (auto *H : Helpers)
          for (auto &P : Ps)
            if (H != F && H->getArg(0)->getType() == P.V->getType())
              Cand.push_back({H, P});
        if (Cand.empty())
          break;
        auto &X = C.pick(Cand);
        Acc = B.CreateCall(X.first, {X.second.V});
      }
      }
    }
    B.CreateRet(Acc);
  }
  std::unique_ptr<Module> run() {
    classes();
    auto Po = polys();
    unsigned NH = Po.empty() ? 0 : C.draw(O.MaxFuns + 1);
    std::vector<int> HT;
    for (unsigned J = 0; J < NH; ++J) {
      HT.push_back(C.pick(Po));
      Helpers.push_back(Function::Create(
          FunctionType::get(I32, {Cs[HT.back()].Ty->getPointerTo()}, false),
          Function::ExternalLinkage, "h" + std::to_string(J), *M));
    }
    for (unsigned J = 0; J < NH; ++J)
      body(Helpers[J], {{Helpers[J]->getArg(0), HT[J]}});
    auto *Main = Function::Create(FunctionType::get(I32, false),
                                  Function::ExternalLinkage, "main", *M);
    body(Main, {});
    // methods: return something, sometimes call another virtual on this
    for (auto &F : *M) {
      if (!F.isDeclaration() || F.getName() == "__cxa_pure_virtual" ||
          F.getName() == "_Znwm")
        continue;
      auto *T = dyn_cast<StructType>(
          F.arg_size() && F.getArg(0)->getType()->isPointerTy()
              ? F.getArg(0)->getType()->getNonOpaquePointerElementType()
              : I32);
      int K = -1;
      for (size_t J = 0; J < Cs.size(); ++J)
        if (Cs[J].Ty == T)
          K = J;
      if (K < 0)
        continue;
      if (Cs[K].External && C.flip())
        continue; // stays a declaration
      B.SetInsertPoint(BasicBlock::Create(Ctx, "entry", &F));
      if (F.getName().startswith("_ZThn16_")) {
        auto *Tgt = M->getFunction("_Z" + F.getName().drop_front(8).str());
        auto *Adj = B.CreateBitCast(
            B.CreateConstInBoundsGEP1_64(
                B.getInt8Ty(), B.CreateBitCast(F.getArg(0), I8P), -16),
            F.getArg(0)->getType());
        B.CreateRet(B.CreateCall(Tgt, {Adj, F.getArg(1)}));
        continue;
      }
      Value *R = F.getArg(1);
      if (C.chance(1, 4) && !Cs[K].VT.empty())
        R = vcall(F.getArg(0), K, C.draw(Cs[K].VT.size()), R);
      B.CreateRet(B.CreateAdd(R, B.getInt32(C.draw(5))));
    }
    std::string Err;
    raw_string_ostream OS(Err);
    if (verifyModule(*M, &OS)) {
      OS << "\n" << *M;
      C.fail("harness: generated module does not verify: " + OS.str());
    }
    return std::move(M);
  }
};
} // namespace cppgen
