// BUILD:
// P28: the taint analysis knows the data flows of libc functions.
#include "pbt.h"

#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"

#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"

#include <map>
#include <set>
#include <sstream>

using namespace psr;
using library_summary::DataFlowFact;
using library_summary::Parameter;
using library_summary::ReturnValue;

namespace {
template <typename... T> std::string cat(const T &...X) {
  std::ostringstream OS;
  (OS << ... << X);
  return OS.str();
}
// ---------------------------------------------------------------------------
// The data flows of the C standard and POSIX, independently of the code.
// types: p pointer, i int, l long, d double, f float, D long double, v void
struct LibFn {
  std::string Name;
  char Ret;
  std::string Args; // may end with '.' (variadic)
  // argument -> parameter or -1 (the result)
  std::vector<std::pair<int, int>> Flows;
  int PointsInto = -1;  // the result points into what this argument points to
  std::set<int> Written; // output parameters
};

const std::vector<LibFn> &table() {
  static const std::vector<LibFn> T = [] {
    std::vector<LibFn> T;
    auto Words = [](const char *S) {
      std::istringstream IS(S);
      std::vector<std::string> R;
      for (std::string W; IS >> W;)
        R.push_back(W);
      return R;
    };
    // "name ret args flows [=k] ; ..."
    auto Add = [&](std::string N, char R, std::string A, const char *Flows) {
      LibFn F{std::move(N), R, std::move(A), {}, -1, {}};
      for (auto &W : Words(Flows)) {
        if (W[0] == '=') {
          F.PointsInto = W[1] - '0';
          continue;
        }
        int To = W[2] == 'R' ? -1 : W[2] - '0';
        F.Flows.emplace_back(W[0] - '0', To);
        if (To >= 0)
          F.Written.insert(To);
      }
      T.push_back(std::move(F));
    };
    const std::pair<const char *, char> Sfx[] = {{"", 'd'}, {"f", 'f'}, {"l", 'D'}};
    for (auto [S, X] : Sfx) {
      std::string Y(1, X);
      for (auto &W : Words(
               "acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp "
               "exp10 exp2 expm1 fabs floor gamma j0 j1 log log10 log1p log2 logb "
               "nearbyint rint round roundeven sin sinh sqrt tan tanh tgamma "
               "trunc y0 y1 significand nextup nextdown pow10"))
        Add(W + S, X, Y, "0>R");
      for (auto &W : Words("atan2 copysign drem fmax fmin fmaxmag fminmag fmod "
                           "hypot pow remainder scalb"))
        Add(W + S, X, Y + Y, "0>R 1>R");
      for (auto &W : Words("fdim nextafter nexttoward"))
        Add(W + S, X, Y + Y, "0>R");
      for (auto &W : Words("ldexp scalbn"))
        Add(W + S, X, Y + "i", "0>R 1>R");
      Add(std::string("scalbln") + S, X, Y + "l", "0>R 1>R");
      for (auto &W : Words("jn yn"))
        Add(W + S, X, "i" + Y, "0>R 1>R");
      Add(std::string("fma") + S, X, Y + Y + Y, "0>R 1>R 2>R");
      for (auto &W : Words("modf frexp"))
        Add(W + S, X, Y + "p", "0>R 0>1");
      Add(std::string("sincos") + S, 'v', Y + "pp", "0>1 0>2");
      for (auto &W : Words("lrint lround llrint llround llogb"))
        Add(W + S, 'l', Y, "0>R");
      Add(std::string("ilogb") + S, 'i', Y, "0>R");
    }
    for (auto &W : Words("abs toascii tolower toupper towlower towupper btowc "
                         "wctob htonl htons ntohl ntohs"))
      Add(W, 'i', "i", "0>R");
    for (auto &W : Words("labs llabs imaxabs"))
      Add(W, 'l', "l", "0>R");
    for (auto &W : Words("div ldiv lldiv"))
      Add(W, 'l', "ll", "0>R 1>R");
    Add("difftime", 'd', "ll", "0>R 1>R");

    // copies
    for (auto &W : Words("memcpy memmove mempcpy strncpy stpncpy wmemcpy "
                         "wmemmove wmempcpy wcsncpy wcpncpy"))
      Add(W, 'p', "ppl", "1>0 1>R =0");
    for (auto &W : Words("strcpy stpcpy wcscpy wcpcpy"))
      Add(W, 'p', "pp", "1>0 1>R =0");
    for (auto &W : Words("strcat wcscat"))
      Add(W, 'p', "pp", "1>0 0>0 1>R 0>R =0");
    for (auto &W : Words("strncat wcsncat"))
      Add(W, 'p', "ppl", "1>0 0>0 1>R 0>R =0");
    Add("memccpy", 'p', "ppil", "1>0 1>R =0");
    for (auto &W : Words("memset wmemset"))
      Add(W, 'p', "pil", "1>0 1>R =0");
    Add("bcopy", 'v', "ppl", "0>1");
    for (auto &W : Words("strdup wcsdup strdupa strfry basename dirname"))
      Add(W, 'p', "p", W == "strfry" || W == "basename" || W == "dirname"
                           ? "0>R =0"
                           : "0>R");
    for (auto &W : Words("strndup strndupa"))
      Add(W, 'p', "pl", "0>R");
    Add("realloc", 'p', "pl", "0>R =0");
    // searches
    for (auto &W : Words("index rindex strchrnul strrchr wcschr wcsrchr"))
      Add(W, 'p', "pi", "0>R =0");
    Add("rawmemchr", 'p', "pi", "0>R =0");
    for (auto &W : Words("memchr memrchr wmemchr"))
      Add(W, 'p', "pil", "0>R =0");
    for (auto &W : Words("strstr strpbrk wcsstr wcspbrk strtok"))
      Add(W, 'p', "pp", "0>R =0");
    Add("memmem", 'p', "plpl", "0>R =0");
    Add("strtok_r", 'p', "ppp", "0>R =0");
    Add("wcstok", 'p', "ppp", "0>R =0");
    Add("bsearch", 'p', "ppllp", "1>R =1");
    for (auto &W : Words("lfind"))
      Add(W, 'p', "ppplp", "1>R =1");
    Add("tfind", 'p', "ppp", "1>R");
    // conversions
    for (auto &W : Words("strtol strtoll strtoul strtoull strtoimax strtoumax "
                         "wcstol wcstoll wcstoul wcstoull wcstoimax wcstoumax"))
      Add(W, 'l', "ppi", "0>R 0>1");
    for (auto &W : Words("strtod wcstod"))
      Add(W, 'd', "pp", "0>R 0>1");
    for (auto &W : Words("strtof wcstof"))
      Add(W, 'f', "pp", "0>R 0>1");
    for (auto &W : Words("strtold wcstold"))
      Add(W, 'D', "pp", "0>R 0>1");
    for (auto &W : Words("mbstowcs wcstombs wcsxfrm"))
      Add(W, 'l', "ppl", "1>0");
    Add("mbsrtowcs", 'l', "pplp", "1>0");
    Add("wcsrtombs", 'l', "pplp", "1>0");
    Add("mbsnrtowcs", 'l', "ppllp", "1>0");
    Add("mbrtowc", 'l', "pplp", "1>0");
    Add("wcrtomb", 'l', "pip", "1>0");
    Add("wctomb", 'i', "pi", "1>0");
    Add("gcvt", 'p', "dip", "0>2");
    Add("strfromd", 'i', "plpd", "2>0 3>0");
    Add("strfromf", 'i', "plpf", "2>0 3>0");
    Add("strfroml", 'i', "plpD", "2>0 3>0");
    Add("inet_ntop", 'p', "ippi", "1>2");
    Add("inet_pton", 'i', "ipp", "1>2");
    Add("inet_network", 'i', "p", "0>R");
    Add("inet_ntoa", 'p', "i", "0>R");
    Add("l64a", 'p', "l", "0>R");
    Add("iconv", 'l', "ppppp", "1>3");
    // time
    for (auto &W : Words("ctime localtime gmtime"))
      Add(W, 'p', "p", "0>R");
    for (auto &W : Words("ctime_r localtime_r gmtime_r"))
      Add(W, 'p', "pp", "0>1");
    for (auto &W : Words("mktime timegm timelocal"))
      Add(W, 'l', "p", "0>R");
    Add("strftime", 'l', "plpp", "3>0");
    Add("strptime", 'p', "ppp", "0>2");
    // formatted and unformatted input and output
    for (auto &W : Words("fgetc getc getc_unlocked fgetwc getwc getwc_unlocked getw"))
      Add(W, 'i', "p", "0>R");
    for (auto &W : Words("fputc putc putc_unlocked fputwc putwc putwc_unlocked "
                         "ungetc ungetwc"))
      Add(W, 'i', "ip", "0>1");
    for (auto &W : Words("fputs fputws"))
      Add(W, 'i', "pp", "0>1");
    for (auto &W : Words("fgets fgetws"))
      Add(W, 'p', "pip", "2>0");
    Add("fread", 'l', "pllp", "3>0");
    Add("fwrite", 'l', "pllp", "0>3");
    Add("getline", 'l', "ppp", "2>0");
    Add("getdelim", 'l', "ppip", "3>0");
    Add("read", 'l', "ipl", "0>1");
    for (auto &W : Words("pread pread64"))
      Add(W, 'l', "ipll", "0>1");
    for (auto &W : Words("fstat fstat64"))
      Add(W, 'i', "ip", "0>1");
    for (auto &W : Words("stat lstat lstat64"))
      Add(W, 'i', "pp", "0>1");
    Add("getpeername", 'i', "ipp", "0>1");
    Add("readlink", 'l', "ppl", "0>1");
    Add("realpath", 'p', "pp", "0>1 0>R");
    Add("sem_getvalue", 'i', "pp", "0>1");
    Add("scandir", 'i', "pppp", "0>1");
    Add("readdir", 'p', "p", "0>R");
    Add("tcgetattr", 'i', "ip", "0>1");
    Add("dup", 'i', "i", "0>R");
    Add("dup2", 'i', "ii", "0>R");
    Add("fprintf", 'i', "pp.", "1>0 2>0 3>0");
    Add("fwprintf", 'i', "pp.", "1>0 2>0 3>0");
    Add("snprintf", 'i', "plp.", "2>0 3>0");
    Add("swprintf", 'i', "plp.", "2>0 3>0");
    Add("asprintf", 'i', "pp.", "1>0 2>0 3>0 4>0 5>0");
    for (auto &W : Words("vfprintf vfwprintf"))
      Add(W, 'i', "ppp", "1>0 2>0");
    Add("vasprintf", 'i', "ppp", "1>0 2>0");
    Add("vsprintf", 'i', "ppp", "1>0 2>0");
    Add("vsnprintf", 'i', "plpp", "2>0 3>0");
    for (auto &W : Words("sscanf swscanf fscanf fwscanf"))
      Add(W, 'i', "pp.", "0>2");
    for (auto &W : Words("vsscanf vswscanf vfscanf vfwscanf"))
      Add(W, 'i', "ppp", "0>2");
    // vectors of strings
    Add("argz_create", 'i', "ppp", "0>1");
    Add("argz_create_sep", 'i', "pipp", "0>2");
    Add("argz_add", 'i', "ppp", "2>0");
    Add("argz_add_sep", 'i', "pppi", "2>0");
    Add("argz_insert", 'i', "pppp", "3>0");
    Add("argz_next", 'p', "plp", "0>R =0");
    Add("envz_add", 'i', "pppp", "2>0 3>0");
    Add("envz_entry", 'p', "plp", "0>R =0");
    Add("envz_get", 'p', "plp", "0>R =0");
    Add("getutmp", 'v', "pp", "0>1");
    Add("getutmpx", 'v', "pp", "0>1");
    Add("getutid_r", 'i', "ppp", "0>1 1>2");
    Add("getutline_r", 'i', "ppp", "0>1 1>2");
    Add("readdir_r", 'i', "ppp", "0>1 1>2");
    return T;
  }();
  return T;
}

const char *ty(char C) {
  switch (C) {
  case 'p':
    return "i8*";
  case 'i':
    return "i32";
  case 'l':
    return "i64";
  case 'd':
    return "double";
  case 'f':
    return "float";
  case 'D':
    return "x86_fp80";
  default:
    return "void";
  }
}
const char *constant(char C) {
  switch (C) {
  case 'p':
    return "null";
  case 'i':
  case 'l':
    return "7";
  case 'D':
    return "0xK3FFF8000000000000000";
  default:
    return "1.0";
  }
}

struct Val {
  char Ty;
  std::string Name; // of a scalar or of a returned pointer
  int Buf = -1;     // a buffer, the name is computed at each use
  int Obj = -1;     // what a returned pointer points into, a buffer or < -1
};

void libc(pbt::Ctx &C) {
  // Exact: no result is a pointer, so that the alias analysis is precise
  bool Exact = C.chance(1, 3);
  std::ostringstream Decl, Body, Helpers;
  std::set<std::string> Declared;
  for (char T : {'i', 'l', 'd', 'f', 'D'})
    Decl << "declare " << ty(T) << " @src_" << T << "()\ndeclare void @snk_" << T
         << "(" << ty(T) << ")\n";
  Decl << "declare void @src_p(i8*)\ndeclare void @snk_p(i8*)\n";

  unsigned NBufs = C.range(2, 5);
  std::vector<bool> Global(NBufs);
  std::ostringstream Entry;
  for (unsigned B = 0; B < NBufs; ++B) {
    Global[B] = !Exact && C.chance(1, 6);
    if (Global[B])
      Decl << "@b" << B << " = global [16 x i8] zeroinitializer\n";
    else
      Entry << "  %b" << B << " = alloca [16 x i8]\n";
  }
  std::vector<std::string> Fixed(NBufs);
  unsigned Tmp = 0;
  for (unsigned B = 0; B < NBufs; ++B)
    if (C.flip()) {
      Fixed[B] = "%f" + std::to_string(B);
      Entry << "  " << Fixed[B] << " = getelementptr [16 x i8], [16 x i8]* "
            << (Global[B] ? "@b" : "%b") << B << ", i64 0, i64 0\n";
    }

  // what must be tainted; what may be
  std::vector<bool> Must(NBufs), May(NBufs);
  std::vector<Val> Vals;              // scalars and returned pointers
  std::map<std::string, bool> VMust, VMay;
  auto Use = [&](const Val &V) -> std::string {
    if (V.Buf < 0)
      return V.Name;
    if (!Fixed[V.Buf].empty() && C.chance(2, 3))
      return Fixed[V.Buf];
    std::string N = "%t" + std::to_string(Tmp++);
    Body << "  " << N
         << (C.flip() ? " = getelementptr [16 x i8], [16 x i8]* "
                      : " = getelementptr inbounds [16 x i8], [16 x i8]* ")
         << (Global[V.Buf] ? "@b" : "%b") << V.Buf << ", i64 0, i64 0\n";
    return N;
  };
  auto PickVal = [&](char T) -> Val {
    std::vector<Val> Cand;
    for (auto &V : Vals)
      if (V.Ty == T)
        Cand.push_back(V);
    if (T == 'p' && (Cand.empty() || C.chance(3, 4)))
      return Val{'p', "", int(C.draw(NBufs)), -1};
    if (Cand.empty() || C.chance(1, 8))
      return Val{T, constant(T), -1, -1};
    return C.pick(Cand);
  };
  auto IsMust = [&](const Val &V) -> bool {
    return V.Buf >= 0 ? Must[V.Buf] : VMust[V.Name];
  };
  auto IsMay = [&](const Val &V) -> bool {
    return V.Buf >= 0 ? May[V.Buf] : VMay[V.Name];
  };

  struct Sink {
    unsigned Id;
    bool Must, May;
    std::string What;
  };
  std::vector<Sink> Sinks;
  unsigned NextObj = 2;
  std::set<std::string> Flowed;
  unsigned Steps = C.range(3, 16);
  unsigned CallId = 0;
  // focus on a few functions, so that they compose
  std::vector<const LibFn *> Pool;
  for (unsigned N = C.range(1, 6); N;) {
    auto &F = table()[C.draw(table().size())];
    if (Exact && F.Ret == 'p')
      continue;
    Pool.push_back(&F);
    --N;
  }
  for (unsigned I = 0; I < Steps; ++I) {
    switch (C.weighted({2, 5, 2})) {
    case 0: { // a source
      char T = C.pick(std::string("ppppildfD"));
      if (C.chance(2, 3)) {
        auto *F = C.pick(Pool);
        for (auto &[From, To] : F->Flows)
          if (unsigned(From) < F->Args.size() && F->Args[From] != '.')
            T = F->Args[From];
      }
      if (T == 'p') {
        Val V = PickVal('p');
        if (V.Buf < 0)
          break;
        auto N = Use(V);
        Body << "  call void @src_p(i8* " << N << ")\n";
        Must[V.Buf] = May[V.Buf] = true;
      } else {
        std::string N = "%s" + std::to_string(Tmp++);
        Body << "  " << N << " = call " << ty(T) << " @src_" << T << "()\n";
        Vals.push_back({T, N, -1, -1});
        VMust[N] = VMay[N] = true;
      }
      break;
    }
    case 1: { // a library function
      auto &F = *C.pick(Pool);
      bool Var = F.Args.back() == '.';
      std::string As = Var ? F.Args.substr(0, F.Args.size() - 1) : F.Args;
      std::string Params;
      for (char A : As)
        Params += (Params.empty() ? "" : ", ") + std::string(ty(A));
      if (Var)
        Params += ", ...";
      if (Declared.insert(F.Name).second)
        Decl << "declare " << ty(F.Ret) << " @" << F.Name << "(" << Params
             << ")\n";
      if (Var) {
        bool Scan = F.Name.find("scanf") != std::string::npos;
        for (unsigned N = C.draw(4); N; --N)
          As += Scan ? 'p' : C.pick(std::string("ppild"));
      }
      std::vector<Val> Actuals;
      std::vector<std::string> Names;
      for (char A : As)
        Actuals.push_back(PickVal(A));
      for (auto &V : Actuals)
        Names.push_back(Use(V));
      std::string Args;
      for (size_t K = 0; K < As.size(); ++K)
        Args += (K ? ", " : "") + std::string(ty(As[K])) + " " + Names[K];
      std::string R = "%r" + std::to_string(Tmp++);
      std::string Callee = "@" + F.Name;
      if (!Var && !Exact && C.chance(1, 8)) { // via a wrapper
        std::string W = "w" + std::to_string(CallId);
        Helpers << "define internal " << ty(F.Ret) << " @" << W << "(";
        for (size_t K = 0; K < As.size(); ++K)
          Helpers << (K ? ", " : "") << ty(As[K]) << " %p" << K;
        Helpers << ") {\n  " << (F.Ret == 'v' ? "" : "%r = ") << "call "
                << ty(F.Ret) << " @" << F.Name << "(";
        for (size_t K = 0; K < As.size(); ++K)
          Helpers << (K ? ", " : "") << ty(As[K]) << " %p" << K;
        Helpers << ")\n  ret " << ty(F.Ret) << (F.Ret == 'v' ? "" : " %r")
                << "\n}\n";
        Callee = "@" + W;
        C.label("wrapper");
      }
      ++CallId;
      bool NeedsRes = F.Ret != 'v';
      Body << "  " << (NeedsRes ? R + " = " : "") << "call " << ty(F.Ret) << " "
           << (Var ? "(" + Params + ") " : "") << Callee << "(" << Args
           << ")\n";
      // effects
      std::vector<bool> MustIn, MayIn;
      for (auto &V : Actuals) {
        MustIn.push_back(IsMust(V));
        MayIn.push_back(IsMay(V));
      }
      // an output parameter is overwritten
      for (int W : F.Written) {
        if (unsigned(W) >= Actuals.size())
          continue;
        auto &V = Actuals[W];
        int Obj = V.Buf >= 0 ? V.Buf : V.Obj;
        if (V.Buf >= 0)
          Must[V.Buf] = false;
        else if (Obj >= 0)
          Must[Obj] = false;
        for (auto &O : Vals)
          if (O.Ty == 'p' && O.Obj == Obj)
            VMust[O.Name] = false;
        if (V.Buf < 0)
          VMust[V.Name] = false;
      }
      bool RMust = false, RMay = false;
      for (auto &[From, To] : F.Flows) {
        if (unsigned(From) >= Actuals.size() ||
            (To >= 0 && unsigned(To) >= Actuals.size()))
          continue;
        if (MustIn[From])
          Flowed.insert(F.Name);
        if (To < 0) {
          RMust |= MustIn[From];
          continue;
        }
        auto &V = Actuals[To];
        if (!MustIn[From])
          continue;
        if (V.Buf >= 0)
          Must[V.Buf] = true;
        else if (V.Name != "null")
          VMust[V.Name] = true;
      }
      // whatever flows into an output parameter or the result
      bool Any = false;
      for (size_t K = 0; K < Actuals.size(); ++K)
        Any |= MayIn[K];
      if (Any) {
        for (int W : F.Written)
          if (unsigned(W) < Actuals.size() && Actuals[W].Buf >= 0)
            May[Actuals[W].Buf] = true;
        RMay = true;
      }
      if (NeedsRes) {
        int Obj = -int(NextObj++);
        if (F.PointsInto >= 0) {
          auto &V = Actuals[F.PointsInto];
          Obj = V.Buf >= 0 ? V.Buf : V.Obj;
        }
        Vals.push_back({F.Ret, R, -1, Obj});
        VMust[R] = RMust;
        VMay[R] = RMay;
      }
      break;
    }
    default: { // a sink
      char T = !Vals.empty() && C.flip() ? C.pick(Vals).Ty : 'p';
      Val V = PickVal(T);
      auto N = Use(V);
      Body << "  call void @snk_" << T << "(" << ty(T) << " " << N << ")"
           << ", !id !{i32 " << Sinks.size() << "}\n";
      Sinks.push_back({unsigned(Sinks.size()), IsMust(V), IsMay(V),
                       "snk_" + std::string(1, T) + "(" + N + ")"});
      break;
    }
    }
  }
  // every buffer and result reaches a sink in the end
  for (unsigned K = 0; K < NBufs + Vals.size(); ++K) {
    Val V = K < NBufs ? Val{'p', "", int(K), -1} : Vals[K - NBufs];
    auto N = Use(V);
    Body << "  call void @snk_" << V.Ty << "(" << ty(V.Ty) << " " << N << ")"
         << ", !id !{i32 " << Sinks.size() << "}\n";
    Sinks.push_back({unsigned(Sinks.size()), IsMust(V), IsMay(V),
                     "snk_" + std::string(1, V.Ty) + "(" + N + ")"});
  }
  std::string IR = Decl.str() + Helpers.str() + "define i32 @main() {\n" +
                   Entry.str() + Body.str() + "  ret i32 0\n}\n";
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(IR, Err, Ctx);
  if (!M) {
    C.fail("harness: " + Err.getMessage().str() + "\n" + IR);
    return;
  }
  unsigned NMust = 0;
  for (auto &S : Sinks)
    NMust += S.Must;
  C.nontrivial(!Flowed.empty() && NMust);
  for (auto &N : Flowed)
    C.label(N);
  C.label(Exact ? "exact" : "sound");
  C.describe(IR);

  LLVMProjectIRDB IRDB(M.get());
  LLVMAliasSet PT(&IRDB, false,
                  Exact || C.flip() ? AliasAnalysisType::CFLAnders
                                    : AliasAnalysisType::CFLSteens);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, nullptr, &PT,
                    Soundness::Soundy, false);
  TaintConfigData D;
  for (char T : {'i', 'l', 'd', 'f', 'D', 'p'}) {
    D.Functions.emplace_back();
    auto &Src = D.Functions.back();
    Src.Name = std::string("src_") + T;
    Src.ReturnCat = T == 'p' ? TaintCategory::None : TaintCategory::Source;
    if (T == 'p')
      Src.SourceValues = {0};
    D.Functions.emplace_back();
    auto &Snk = D.Functions.back();
    Snk.Name = std::string("snk_") + T;
    Snk.ReturnCat = TaintCategory::None;
    Snk.SinkValues = {0};
  }
  LLVMTaintConfig Cfg(IRDB, D);
  IFDSTaintAnalysis P(&IRDB, &PT, &Cfg, {"main"}, false);
  IFDSSolver S(P, &ICF);
  S.solve();

  std::set<unsigned> Rep;
  for (auto &[I, Vs] : P.Leaks)
    if (!Vs.empty())
      if (auto *MD = I->getMetadata("id"))
        Rep.insert(llvm::mdconst::extract<llvm::ConstantInt>(MD->getOperand(0))
                       ->getZExtValue());
  for (auto &K : Sinks) {
    PBT_CHECK(C, !K.Must || Rep.count(K.Id),
              cat("the leak at ", K.What, " (sink ", K.Id,
                        ") is not reported"));
    if (Exact)
      PBT_CHECK(C, K.May || !Rep.count(K.Id),
                cat("the leak reported at ", K.What, " (sink ", K.Id,
                          ") is impossible"));
  }
}

// ---------------------------------------------------------------------------
using Flow = int; // parameter index, -1: the return value
std::vector<Flow> flows(const std::vector<DataFlowFact> &V) {
  std::vector<Flow> R;
  for (auto &F : V)
    R.push_back(std::holds_alternative<ReturnValue>(F.Fact)
                    ? -1
                    : std::get<Parameter>(F.Fact).Index);
  return R;
}

void facts(pbt::Ctx &C) {
  // a module with some of the functions
  const unsigned NFns = 5;
  std::string IR;
  std::vector<bool> InModule(NFns);
  for (unsigned F = 0; F < NFns; ++F) {
    InModule[F] = C.chance(2, 3);
    if (InModule[F])
      IR += C.flip() ? cat("declare i32 @f", F, "(i32, i8*, i32)\n")
                     : cat("define i32 @f", F,
                                 "(i32, i8*, i32) { ret i32 0 }\n");
  }
  IR += "define void @other() { ret void }\n";
  llvm::LLVMContext Ctx;
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(IR, Err, Ctx);
  if (!M) {
    C.fail("harness: " + Err.getMessage().str());
    return;
  }
  LLVMProjectIRDB IRDB(M.get());
  using Model = std::map<unsigned, std::map<uint32_t, std::vector<Flow>>>;
  Model N, L; // by name; by function
  library_summary::FunctionDataFlowFacts Fd;
  library_summary::LLVMFunctionDataFlowFacts Ld;
  std::string Desc = IR;
  auto Name = [](unsigned F) { return "f" + std::to_string(F); };
  auto RndFact = [&]() -> Flow { return int(C.draw(4)) - 1; };
  auto ToFact = [](Flow F) -> DataFlowFact {
    if (F < 0)
      return ReturnValue{};
    return Parameter{uint16_t(F)};
  };
  auto CheckL = [&](const char *When) {
    for (unsigned F = 0; F < NFns; ++F) {
      if (!InModule[F])
        continue;
      auto *Fn = IRDB.getFunction(Name(F));
      // Note: getFacts may add an empty entry for the parameter
      bool Has = L.count(F);
      PBT_CHECK(C, Ld.contains(Fn) == Has,
                cat(When, ": contains(f", F, ") is not ", Has));
      auto &Map = Ld.getFactsForFunction(Fn);
      std::map<uint32_t, std::vector<Flow>> Got;
      for (auto &[I, V] : Map)
        if (!V.empty())
          Got[I] = flows(V);
      std::map<uint32_t, std::vector<Flow>> Want;
      if (Has)
        for (auto &[I, V] : L[F])
          if (!V.empty())
            Want[I] = V;
      PBT_CHECK(C, Got == Want,
                cat(When, ": wrong facts for f", F));
      for (uint32_t I = 0; I < 3; ++I) {
        auto W = Want.count(I) ? Want[I] : std::vector<Flow>{};
        PBT_CHECK(C, flows(Ld.getFacts(Fn, I)) == W,
                  cat(When, ": wrong facts for f", F, " parameter ", I));
        PBT_CHECK(C, flows(Ld.getFacts(Fn, Fn->getArg(I))) == W,
                  cat(When, ": wrong facts for f", F, " argument ", I));
      }
    }
    auto *O = IRDB.getFunction("other");
    PBT_CHECK(C, !Ld.contains(O), "contains(other)");
    PBT_CHECK(C, Ld.getFacts(O, 0U).empty() &&
                     Ld.getFactsForFunction(O).empty(),
              "facts for a function without facts");
  };
  auto CheckN = [&] {
    PBT_CHECK(C, Fd.size() == N.size() && Fd.empty() == N.empty(), "wrong size");
    std::map<std::string, std::map<uint32_t, std::vector<Flow>>> Got, Want;
    for (auto &E : Fd)
      for (auto &[I, V] : E.second)
        Got[E.first().str()][I] = flows(V);
    for (auto &[F, Map] : N)
      Want[Name(F)] = Map;
    PBT_CHECK(C, Got == Want, "the iteration gives other facts");
    for (unsigned F = 0; F < NFns; ++F)
      for (uint32_t I = 0; I < 4; ++I) {
        std::vector<Flow> W;
        if (N.count(F) && N[F].count(I))
          W = N[F][I];
        PBT_CHECK(C, flows(Fd.getDataFlowFacts(Name(F), I)) == W,
                  cat("wrong facts for the name f", F, " parameter ", I));
      }
  };
  unsigned Adds = 0;
  for (unsigned Step = C.range(1, 25); Step; --Step) {
    unsigned F = C.draw(NFns);
    uint32_t I = C.draw(3);
    auto *Fn = InModule[F] ? IRDB.getFunction(Name(F)) : nullptr;
    switch (C.weighted({3, 2, 3, 2, 1, 1})) {
    case 0: {
      auto X = RndFact();
      Fd.addElement(Name(F), I, ToFact(X));
      N[F][I].push_back(X);
      ++Adds;
      Desc += cat("add f", F, " ", I, ">", X, "\n");
      break;
    }
    case 1: {
      std::vector<Flow> X;
      std::vector<DataFlowFact> Y;
      for (unsigned K = C.draw(4); K; --K) {
        X.push_back(RndFact());
        Y.push_back(ToFact(X.back()));
      }
      Fd.insertSet(Name(F), I, Y);
      N[F].try_emplace(I, X); // the first one wins
      Desc += cat("insert f", F, " ", I, "\n");
      break;
    }
    case 2: {
      if (!Fn)
        break;
      auto X = RndFact();
      if (C.flip())
        Ld.addElement(Fn, I, ToFact(X));
      else
        Ld.addElement(Fn, Fn->getArg(I), ToFact(X));
      L[F][I].push_back(X);
      ++Adds;
      Desc += cat("ladd f", F, " ", I, ">", X, "\n");
      break;
    }
    case 3: {
      if (!Fn || (L.count(F) && L[F].count(I)))
        break;
      std::vector<Flow> X;
      std::vector<DataFlowFact> Y;
      for (unsigned K = C.range(1, 3); K; --K) {
        X.push_back(RndFact());
        Y.push_back(ToFact(X.back()));
      }
      // only if the lookups have not yet made an entry
      if (Ld.getFactsForFunction(Fn).count(I))
        break;
      if (C.flip())
        Ld.insertSet(Fn, I, Y);
      else
        Ld.insertSet(Fn, Fn->getArg(I), Y);
      L[F][I] = X;
      Desc += cat("linsert f", F, " ", I, "\n");
      break;
    }
    case 4: // for the functions of the module
      Ld = readFromFDFF(Fd, IRDB);
      L.clear();
      for (auto &[G, Map] : N)
        if (InModule[G])
          L[G] = Map;
      Desc += "read\n";
      break;
    default:
      CheckN();
      CheckL("in between");
    }
  }
  CheckN();
  CheckL("before");
  Ld = readFromFDFF(Fd, IRDB);
  L.clear();
  for (auto &[G, Map] : N)
    if (InModule[G])
      L[G] = Map;
  CheckL("after");
  C.nontrivial(Adds >= 3 && !L.empty());
  C.describe(Desc);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P28";
  P.Subs = {
      {"libc",
       "at least one library function passes on a taint that must reach a sink",
       libc, 60000},
      {"facts", "at least three flows were added, and functions of the module have some", facts, 20000},
  };
  return pbt::run(argc, argv, P);
}
