#include "pbt.h"

#include "nlohmann/json.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::string strf(const char *Fmt, ...) {
  va_list A, B;
  va_start(A, Fmt);
  va_copy(B, A);
  int N = vsnprintf(nullptr, 0, Fmt, A);
  va_end(A);
  std::string S(N, 0);
  vsnprintf(S.data(), N + 1, Fmt, B);
  va_end(B);
  return S;
}

static uint64_t splitmix(uint64_t &X) {
  uint64_t Z = (X += 0x9e3779b97f4a7c15ull);
  Z = (Z ^ (Z >> 30)) * 0xbf58476d1ce4e5b9ull;
  Z = (Z ^ (Z >> 27)) * 0x94d049bb133111ebull;
  return Z ^ (Z >> 31);
}
static uint64_t rotl(uint64_t X, int K) { return (X << K) | (X >> (64 - K)); }
static uint64_t nextRng(uint64_t *S) { // xoroshiro128+
  uint64_t S0 = S[0], S1 = S[1], R = S0 + S1;
  S1 ^= S0;
  S[0] = rotl(S0, 24) ^ S1 ^ (S1 << 16);
  S[1] = rotl(S1, 37);
  return R;
}
static uint64_t hashStr(const std::string &S, uint64_t H) {
  for (unsigned char C : S) {
    H = (H ^ C) * 0x100000001b3ull;
  }
  return H;
}

uint64_t Ctx::draw(uint64_t N) {
  if (N <= 1)
    return 0;
  uint64_t Pos = *TapeLen;
  if (Pos >= TapeCap)
    return 0;
  uint64_t V;
  if (Replay) {
    V = Pos < Replay->size() ? (*Replay)[Pos] : 0;
    if (V >= N)
      V = N - 1;
  } else {
    uint64_t R = nextRng(Rng);
    V = (uint64_t)(((unsigned __int128)R * N) >> 64);
  }
  Tape[Pos] = V;
  *TapeLen = Pos + 1;
  return V;
}

void Ctx::describe(const std::string &S) {
  if (!Verbose)
    return;
  Desc += S;
  if (Sink) { // survives a crash of the case
    size_t N = std::min<size_t>(S.size(), SinkCap - *SinkLen);
    memcpy(Sink + *SinkLen, S.data(), N);
    *SinkLen = *SinkLen + N;
  }
}

size_t Ctx::weighted(std::initializer_list<unsigned> W) {
  uint64_t Sum = 0;
  for (auto X : W)
    Sum += X;
  uint64_t R = draw(Sum);
  size_t I = 0;
  for (auto X : W) {
    if (R < X)
      return I;
    R -= X;
    ++I;
  }
  return W.size() - 1;
}

int64_t Ctx::interesting64() {
  switch (weighted({6, 3, 2, 1})) {
  case 0:
    return range(0, 20) - 5;
  case 1: {
    static const int64_t V[] = {0,
                                1,
                                -1,
                                2,
                                -2,
                                INT32_MAX,
                                INT32_MIN,
                                (int64_t)INT32_MAX + 1,
                                (int64_t)UINT32_MAX,
                                INT64_MAX,
                                INT64_MIN,
                                INT64_MIN + 1,
                                INT64_MAX - 1,
                                255,
                                256,
                                -128,
                                32767,
                                65536};
    return V[draw(sizeof(V) / sizeof(*V))];
  }
  case 2:
    return (int64_t)1 << draw(64);
  default:
    return (int64_t)(draw(1ull << 32) << 32 | draw(1ull << 32));
  }
}

namespace {
constexpr uint64_t TapeCap = 1 << 16;
constexpr size_t MsgCap = 1 << 14;
constexpr size_t OutCap = 1 << 20;

struct Shared {
  volatile uint64_t Case; // index currently running
  volatile uint64_t TapeLen;
  volatile uint64_t Done;    // cases completed
  volatile uint64_t Failed;  // explicit failure
  volatile uint64_t OutLen;  // result blob
  uint64_t Tape[TapeCap];
  char Msg[MsgCap];
  char Out[OutCap];
};

Shared *newShared() {
  void *P = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (P == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return (Shared *)P;
}

double nowS() {
  timespec T;
  clock_gettime(CLOCK_MONOTONIC, &T);
  return (double)T.tv_sec + (double)T.tv_nsec * 1e-9;
}

std::string TmpDir;

struct Outcome {
  bool Failed = false;
  std::string Msg;
  std::string Kind; // assert | crash:SIG | hang
  std::vector<uint64_t> Tape;
  std::string Desc;
  std::string Blob;
  uint64_t Case = 0;
};

uint64_t Seed = 1;

void seedCtx(Ctx &C, const std::string &Prop, const Sub &S, uint64_t Idx) {
  uint64_t H = hashStr(Prop + "/" + S.Name, 0xcbf29ce484222325ull);
  uint64_t X = H ^ (Seed * 0x9e3779b97f4a7c15ull) ^ (Idx * 0xd1342543de82ef95ull);
  splitmix(X);
  C.Rng[0] = splitmix(X);
  C.Rng[1] = splitmix(X) | 1;
}

void setMsg(Shared *Sh, const std::string &M) {
  size_t N = std::min(M.size(), MsgCap - 1);
  memcpy(Sh->Msg, M.data(), N);
  Sh->Msg[N] = 0;
}

void armTimers(const Sub &S) {
  itimerval T{};
  T.it_value.tv_sec = S.CpuLimitS;
  setitimer(ITIMER_PROF, &T, nullptr);
  itimerval W{};
  W.it_value.tv_sec = S.WallLimitS;
  setitimer(ITIMER_REAL, &W, nullptr);
}

void childSetup(const std::string &ErrFile) {
  int N = open("/dev/null", O_RDWR);
  dup2(N, 0);
  dup2(N, 1);
  int E = open(ErrFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(E, 2);
  rlimit R{0, 0};
  setrlimit(RLIMIT_CORE, &R);
  rlimit F{64u << 20, 64u << 20};
  setrlimit(RLIMIT_FSIZE, &F);
  signal(SIGXFSZ, SIG_IGN);
  signal(SIGPROF, SIG_DFL);
  signal(SIGALRM, SIG_DFL);
}

// runs one case in this process; false = property failed
bool runCase(Ctx &C, const Sub &S, Shared *Sh) {
  C.Tape = Sh->Tape;
  C.TapeCap = TapeCap;
  C.TapeLen = &Sh->TapeLen;
  Sh->TapeLen = 0;
  armTimers(S);
  try {
    S.Fn(C);
  } catch (Failure &F) {
    setMsg(Sh, F.Msg);
    Sh->Failed = 1;
    return false;
  } catch (Discard &) {
    C.label("discarded");
    C.NonTrivial = false;
  } catch (std::exception &E) {
    setMsg(Sh, std::string("uncaught exception: ") + E.what());
    Sh->Failed = 1;
    return false;
  }
  return true;
}

std::string tailOf(const std::string &File, size_t N) {
  std::ifstream I(File, std::ios::binary);
  std::stringstream SS;
  SS << I.rdbuf();
  std::string S = SS.str();
  // for sanitizer reports the head is the useful part
  auto P = S.find("ERROR: AddressSanitizer");
  if (P == std::string::npos)
    P = S.find("runtime error:");
  if (P != std::string::npos) {
    size_t B = S.rfind('\n', P);
    B = B == std::string::npos ? 0 : B + 1;
    return S.substr(B, N);
  }
  P = S.find("Assertion `");
  if (P != std::string::npos) {
    size_t B = S.rfind('\n', P);
    B = B == std::string::npos ? 0 : B + 1;
    return S.substr(B, N);
  }
  return S.size() > N ? S.substr(S.size() - N) : S;
}

Outcome collect(Shared *Sh, int St, const std::string &ErrFile) {
  Outcome O;
  O.Case = Sh->Case;
  bool Bad = false;
  if (WIFSIGNALED(St)) {
    Bad = true;
    int Sg = WTERMSIG(St);
    if (Sg == SIGPROF || Sg == SIGALRM || Sg == SIGXCPU) {
      O.Kind = "hang";
      O.Msg = "did not terminate within the limit";
    } else {
      O.Kind = std::string("crash:") + strsignal(Sg);
      O.Msg = O.Kind + ": " + tailOf(ErrFile, 1500);
    }
  } else if (WEXITSTATUS(St) == 1 && Sh->Failed) {
    Bad = true;
    O.Kind = "assert";
    O.Msg = Sh->Msg;
  } else if (WEXITSTATUS(St) != 0) {
    Bad = true;
    O.Kind = strf("exit:%d", WEXITSTATUS(St));
    O.Msg = O.Kind + ": " + tailOf(ErrFile, 1500);
  }
  O.Failed = Bad;
  if (Bad)
    O.Tape.assign(Sh->Tape, Sh->Tape + Sh->TapeLen);
  else
    O.Blob.assign(Sh->Out, Sh->OutLen);
  return O;
}

void emit(Shared *Sh, const std::string &S) {
  size_t N = std::min(S.size(), OutCap);
  memcpy(Sh->Out, S.data(), N);
  Sh->OutLen = N;
}

/// runs tapes / indices one after the other in one child
Outcome runSequence(const Property &P, const Sub &S, Shared *Sh,
                    const std::vector<uint64_t> &Indices,
                    const std::vector<uint64_t> *Tape, bool Verbose) {
  static uint64_t Ctr = 0;
  std::string Err = TmpDir + "/seq" + std::to_string(Ctr++ % 8) + ".err";
  Sh->Failed = 0;
  Sh->OutLen = 0;
  Sh->TapeLen = 0;
  Sh->Msg[0] = 0;
  pid_t Pid = fork();
  if (Pid == 0) {
    childSetup(Err);
    for (auto I : Indices) {
      Ctx C;
      Sh->Case = I;
      seedCtx(C, P.Id, S, I);
      if (!runCase(C, S, Sh))
        _exit(1);
    }
    if (Tape) {
      Ctx C;
      C.Replay = Tape;
      C.Verbose = Verbose;
      C.Sink = Sh->Out;
      C.SinkCap = OutCap;
      C.SinkLen = &Sh->OutLen;
      bool Ok = runCase(C, S, Sh);
      if (!Ok)
        _exit(1);
    }
    _exit(0);
  }
  int St = 0;
  while (waitpid(Pid, &St, 0) < 0 && errno == EINTR)
    ;
  Outcome O = collect(Sh, St, Err);
  O.Desc.assign(Sh->Out, Sh->OutLen);
  return O;
}

struct SubStats {
  uint64_t Evals = 0, Discarded = 0, Unreproduced = 0;
  std::unordered_set<uint64_t> NonTriv;
  std::map<std::string, uint64_t> Labels;
  std::vector<std::string> Samples;
};

struct Violation {
  bool Found = false;
  Outcome O;
  std::string Kind;              // tape | sequence
  std::vector<uint64_t> Indices; // sequence
  uint64_t ShrinkRuns = 0;
};

void runChunk(const Property &P, const Sub &S, Shared *Sh, uint64_t Lo,
              uint64_t Hi) {
  nlohmann::json J;
  std::vector<uint64_t> NT;
  std::map<std::string, uint64_t> Labels;
  std::vector<std::string> Samples;
  for (uint64_t I = Lo; I < Hi; ++I) {
    Ctx C;
    Sh->Case = I;
    C.Verbose = Lo == 0 && Samples.size() < 2;
    seedCtx(C, P.Id, S, I);
    if (!runCase(C, S, Sh))
      _exit(1);
    for (auto &[L, N] : C.Labels)
      Labels[L] += N ? 1 : 0;
    if (C.NonTrivial) {
      uint64_t H = 0x1234567;
      for (uint64_t K = 0; K < Sh->TapeLen; ++K)
        H = (H ^ Sh->Tape[K]) * 0x9fb21c651e98df25ull, H ^= H >> 29;
      NT.push_back(H);
      if (C.Verbose && !C.Desc.empty())
        Samples.push_back(C.Desc.substr(0, 3000));
    }
    Sh->Done++;
  }
  J["nt"] = NT;
  J["labels"] = Labels;
  J["samples"] = Samples;
  emit(Sh, J.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace));
  _exit(0);
}

bool shrink(const Property &P, const Sub &S, Shared *Sh, Violation &V,
            double Budget) {
  auto &Best = V.O;
  double T0 = nowS();
  uint64_t MaxRuns = 4000;
  auto Try = [&](const std::vector<uint64_t> &T) {
    if (nowS() - T0 > Budget || V.ShrinkRuns > MaxRuns)
      return false;
    V.ShrinkRuns++;
    Outcome O = runSequence(P, S, Sh, {}, &T, false);
    if (!O.Failed)
      return false;
    if ((O.Kind == "hang") != (Best.Kind == "hang"))
      return false;
    auto Less = [](const std::vector<uint64_t> &A,
                   const std::vector<uint64_t> &B) {
      if (A.size() != B.size())
        return A.size() < B.size();
      return A < B;
    };
    if (!Less(O.Tape, Best.Tape))
      return false;
    Best = O;
    return true;
  };
  bool Progress = true;
  while (Progress && nowS() - T0 < Budget && V.ShrinkRuns < MaxRuns) {
    Progress = false;
    for (size_t B = std::max<size_t>(1, Best.Tape.size() / 2); B >= 1; B /= 2) {
      for (size_t I = Best.Tape.size(); I-- > 0;) {
        if (I + B > Best.Tape.size())
          continue;
        auto T = Best.Tape;
        T.erase(T.begin() + I, T.begin() + I + B);
        if (Try(T)) {
          Progress = true;
          if (I > Best.Tape.size())
            I = Best.Tape.size();
        } else if (B > 4) {
          I -= std::min(I, B / 2); // coarse stride for big blocks
        }
        if (nowS() - T0 > Budget)
          return true;
      }
      if (B == 1)
        break;
    }
    for (size_t B = 8; B >= 1; B /= 2) {
      for (size_t I = 0; I + B <= Best.Tape.size(); I += B) {
        auto T = Best.Tape;
        bool Any = false;
        for (size_t K = I; K < I + B; ++K)
          Any |= T[K] != 0, T[K] = 0;
        if (Any && Try(T))
          Progress = true;
        if (nowS() - T0 > Budget)
          return true;
      }
      if (B == 1)
        break;
    }
    for (size_t I = 0; I < Best.Tape.size(); ++I) {
      if (I < Best.Tape.size() && Best.Tape[I] > 0) {
        uint64_t Lo = 0, Hi = Best.Tape[I];
        while (Lo < Hi && I < Best.Tape.size()) {
          uint64_t M = Lo + (Hi - Lo) / 2;
          auto T = Best.Tape;
          T[I] = M;
          if (Try(T)) {
            Progress = true;
            if (I >= Best.Tape.size())
              break;
            Hi = std::min(M, Best.Tape[I]);
          } else {
            Lo = M + 1;
          }
        }
      }
      if (nowS() - T0 > Budget)
        return true;
    }
  }
  return true;
}

/// decides whether a failure seen in a chunk is real
bool confirm(const Property &P, const Sub &S, Shared *Sh, const Outcome &O,
             uint64_t ChunkLo, Violation &V) {
  // 1. the case alone
  unsigned Ok = 0;
  Outcome Last;
  for (unsigned I = 0; I < 3; ++I) {
    Last = runSequence(P, S, Sh, {}, &O.Tape, false);
    if (!Last.Failed)
      break;
    Ok++;
  }
  if (Ok == 3) {
    V.Found = true;
    V.Kind = "tape";
    V.O = Last;
    shrink(P, S, Sh, V, S.CpuLimitS > 60 ? 60 : 90);
    return true;
  }
  // 2. after the cases that ran before it in the same process
  std::vector<uint64_t> Seq;
  for (uint64_t I = ChunkLo; I <= O.Case; ++I)
    Seq.push_back(I);
  auto Fails = [&](const std::vector<uint64_t> &Q) {
    Outcome R = runSequence(P, S, Sh, Q, nullptr, false);
    if (R.Failed)
      Last = R;
    return R.Failed;
  };
  for (unsigned I = 0; I < 3; ++I)
    if (!Fails(Seq))
      return false;
  double T0 = nowS();
  for (size_t I = 0; I + 1 < Seq.size() && nowS() - T0 < 60;) {
    auto Q = Seq;
    Q.erase(Q.begin() + I);
    if (Fails(Q))
      Seq = Q;
    else
      ++I;
  }
  for (unsigned I = 0; I < 3; ++I)
    if (!Fails(Seq))
      return false;
  V.Found = true;
  V.Kind = "sequence";
  V.Indices = Seq;
  V.O = Last;
  return true;
}

Violation runSub(const Property &P, const Sub &S, uint64_t N, unsigned Workers,
                 double Deadline, SubStats &Stats, std::string &Stopped) {
  struct Slot {
    pid_t Pid = 0;
    Shared *Sh = nullptr;
    uint64_t Lo = 0, Hi = 0;
    std::string Err;
  };
  static std::vector<Slot> Slots;
  while (Slots.size() < Workers) {
    Slot X;
    X.Sh = newShared();
    X.Err = TmpDir + "/w" + std::to_string(Slots.size()) + ".err";
    Slots.push_back(X);
  }
  static Shared *SeqSh = newShared();
  uint64_t Next = 0;
  unsigned Running = 0, Flaky = 0;
  std::vector<std::pair<Outcome, uint64_t>> Fails;
  Violation V;
  uint64_t Chunk = S.Chunk;
  // use all the workers
  if (N / Workers < Chunk)
    Chunk = std::max<uint64_t>(1, N / Workers);
  while (true) {
    while (Running < Workers && Next < N && Fails.empty()) {
      if (nowS() > Deadline) {
        Stopped = strf("time budget reached after %llu of %llu cases",
                       (unsigned long long)Next, (unsigned long long)N);
        N = Next;
        break;
      }
      for (auto &Sl : Slots) {
        if (Sl.Pid)
          continue;
        Sl.Lo = Next;
        Sl.Hi = std::min(N, Next + Chunk);
        Next = Sl.Hi;
        Sl.Sh->Done = Sl.Sh->Failed = Sl.Sh->OutLen = Sl.Sh->TapeLen = 0;
        pid_t Pid = fork();
        if (Pid < 0) {
          perror("fork");
          exit(3);
        }
        if (Pid == 0) {
          childSetup(Sl.Err);
          runChunk(P, S, Sl.Sh, Sl.Lo, Sl.Hi);
          _exit(0);
        }
        Sl.Pid = Pid;
        Running++;
        break;
      }
    }
    if (!Running) {
      if (Fails.empty())
        break;
      std::sort(Fails.begin(), Fails.end(), [](auto &A, auto &B) {
        return A.first.Case < B.first.Case;
      });
      for (auto &[O, Lo] : Fails) {
        if (confirm(P, S, SeqSh, O, Lo, V))
          return V;
        Stats.Unreproduced++;
        std::cerr << "note: failure of case " << O.Case << " in " << S.Name
                  << " did not reproduce: " << O.Msg.substr(0, 400) << "\n";
        ++Flaky;
      }
      Fails.clear();
      if (Flaky > 50)
        break;
      continue;
    }
    int St = 0;
    pid_t Pid = waitpid(-1, &St, 0);
    if (Pid < 0)
      continue;
    for (auto &Sl : Slots) {
      if (Sl.Pid != Pid)
        continue;
      Sl.Pid = 0;
      Running--;
      Stats.Evals += Sl.Sh->Done;
      Outcome O = collect(Sl.Sh, St, Sl.Err);
      if (O.Failed) {
        Stats.Evals++;
        Fails.push_back({O, Sl.Lo});
      } else {
        auto J = nlohmann::json::parse(O.Blob, nullptr, false);
        if (J.is_discarded()) {
          Stats.Labels["(chunk statistics too large)"]++;
          break;
        }
        for (auto &H : J["nt"])
          Stats.NonTriv.insert(H.get<uint64_t>());
        for (auto &[K, X] : J["labels"].items())
          Stats.Labels[K] += X.get<uint64_t>();
        for (auto &X : J["samples"])
          if (Stats.Samples.size() < 2)
            Stats.Samples.push_back(X.get<std::string>());
      }
      break;
    }
  }
  return V;
}

std::string env(const char *N, const std::string &D) {
  const char *E = getenv(N);
  return E && *E ? E : D;
}

const Sub *findSub(const Property &P, const std::string &N) {
  for (auto &S : P.Subs)
    if (S.Name == N)
      return &S;
  return nullptr;
}

int replayInline(const Property &P, const std::string &File) {
  std::ifstream I(File);
  auto J = nlohmann::json::parse(I);
  const Sub *S = findSub(P, J["sub"]);
  Seed = J.value("seed", 1);
  Shared *Sh = newShared();
  auto T = J["tape"].get<std::vector<uint64_t>>();
  Ctx C;
  C.Replay = &T;
  C.Verbose = true;
  bool Ok = runCase(C, *S, Sh);
  std::cout << C.Desc << "\n" << (Ok ? "ok" : Sh->Msg) << "\n";
  return !Ok;
}

int replayFile(const Property &P, const std::string &File) {
  std::ifstream I(File);
  auto J = nlohmann::json::parse(I);
  const Sub *S = findSub(P, J["sub"]);
  if (!S) {
    std::cerr << "no such sub-property\n";
    return 3;
  }
  Seed = J.value("seed", 1);
  Shared *Sh = newShared();
  Outcome O;
  if (J["kind"] == "tape") {
    auto T = J["tape"].get<std::vector<uint64_t>>();
    O = runSequence(P, *S, Sh, {}, &T, true);
  } else {
    auto T = J["indices"].get<std::vector<uint64_t>>();
    O = runSequence(P, *S, Sh, T, nullptr, true);
  }
  std::cout << O.Desc << "\n";
  if (O.Failed) {
    std::cout << "FAILED: " << O.Msg << "\n";
    std::cout << "VIOLATION property=" << P.Id << " replay=" << File << "\n";
    return 1;
  }
  std::cout << "passed\n";
  return 0;
}

} // namespace

int run(int argc, char **argv, const Property &P) {
  int Pers = personality(0xffffffff);
  if (Pers >= 0 && !(Pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
    setenv("PBT_REEXEC", "1", 1);
    if (personality(Pers | ADDR_NO_RANDOMIZE) >= 0)
      execv("/proc/self/exe", argv);
  }
  setenv("ASAN_OPTIONS",
         "detect_leaks=0:detect_container_overflow=0:abort_on_error=1:handle_abort=0:"
         "allocator_may_return_null=1:symbolize=0",
         0);
  double T0 = nowS();
  Seed = std::strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
  std::string Tier = env("VERIF_TIER", "quick");
  if (Tier != "thorough")
    Tier = "quick";
  std::string Out = "evidence/" + P.Id + ".json", Only, Replay;
  std::string ReplayDir = "replays";
  std::string KnownFile = "known_findings.json";
  double Mult = 1;
  long Workers = sysconf(_SC_NPROCESSORS_ONLN);
  if (Workers < 1)
    Workers = 1;
  if (Workers > 16)
    Workers = 16;
  double MaxWall = Tier == "quick" ? 540 : 3400;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    auto Val = [&]() -> std::string { return I + 1 < argc ? argv[++I] : ""; };
    if (A == "--evidence")
      Out = Val();
    else if (A == "--sub")
      Only = Val();
    else if (A == "--replay")
      Replay = Val();
    else if (A == "--mult")
      Mult = atof(Val().c_str());
    else if (A == "--workers")
      Workers = atol(Val().c_str());
    else if (A == "--known")
      KnownFile = Val();
    else if (A == "--replay-dir")
      ReplayDir = Val();
    else if (A == "--max-wall")
      MaxWall = atof(Val().c_str());
  }
  char Tmpl[] = "/tmp/pbtXXXXXX";
  TmpDir = mkdtemp(Tmpl);
  struct Cleanup {
    ~Cleanup() {
      std::string C = "rm -rf " + TmpDir;
      (void)!system(C.c_str());
    }
  } Cl;
  if (!Replay.empty() && getenv("PBT_INLINE"))
    return replayInline(P, Replay);
  if (!Replay.empty())
    return replayFile(P, Replay);

  // known findings
  std::set<std::string> Listed;
  {
    std::ifstream I(KnownFile);
    if (I) {
      auto J = nlohmann::json::parse(I, nullptr, false);
      if (J.is_object() && J.contains("findings"))
        for (auto &F : J["findings"])
          if (F.value("property", "") == P.Id && F.value("status", "") == "open")
            Listed.insert(F.value("id", ""));
    }
  }
  nlohmann::json KJ = nlohmann::json::array();
  for (auto &K : P.Knowns) {
    pid_t Pid = fork();
    if (Pid == 0) {
      childSetup(TmpDir + "/known.err");
      Sub Dummy{"", "", nullptr, 0};
      armTimers(Dummy);
      bool B = true;
      try {
        B = K.StillFails();
      } catch (...) {
        B = true;
      }
      _exit(B ? 1 : 0);
    }
    int St = 0;
    waitpid(Pid, &St, 0);
    bool Fails = !WIFEXITED(St) || WEXITSTATUS(St) != 0;
    if (Fails && Listed.count(K.Id))
      std::cout << "KNOWN-FINDING: property=" << P.Id << " " << K.Id << ": "
                << K.What << std::endl;
    KJ.push_back({{"id", K.Id}, {"still_fails", Fails}, {"listed", (bool)Listed.count(K.Id)}});
  }

  nlohmann::json Subs = nlohmann::json::array();
  uint64_t Evals = 0, NT = 0;
  nlohmann::json Samples = nlohmann::json::array();
  std::string Rule;
  int Violations = 0;
  std::string VLine;
  double Deadline = T0 + MaxWall;
  for (auto &S : P.Subs) {
    if (!Only.empty() && S.Name != Only)
      continue;
    uint64_t N = Tier == "quick" ? S.Quick : (S.Thorough ? S.Thorough : S.Quick * 20);
    N = std::max<uint64_t>(1, (uint64_t)((double)N * Mult));
    SubStats St;
    std::string Stopped;
    double TS = nowS();
    Violation V = runSub(P, S, N, (unsigned)Workers, Deadline, St, Stopped);
    double TE = nowS();
    Evals += St.Evals;
    NT += St.NonTriv.size();
    nlohmann::json J;
    J["name"] = S.Name;
    J["evaluations"] = St.Evals;
    J["distinct_nontrivial"] = St.NonTriv.size();
    J["rule"] = S.Rule;
    J["labels"] = St.Labels;
    J["wall_s"] = TE - TS;
    if (St.Unreproduced)
      J["unreproduced_failures"] = St.Unreproduced;
    if (!Stopped.empty())
      J["stopped"] = Stopped;
    Rule += (Rule.empty() ? "" : " || ") + S.Name + ": " + S.Rule;
    for (auto &X : St.Samples)
      Samples.push_back(S.Name + ":\n" + X);
    std::cout << P.Id << "/" << S.Name << ": " << St.Evals << " cases, "
              << St.NonTriv.size() << " distinct non-trivial, "
              << strf("%.1f s", TE - TS) << (Stopped.empty() ? "" : " (" + Stopped + ")")
              << std::endl;
    if (getenv("PBT_LABELS"))
      for (auto &[L, N] : St.Labels)
        std::cout << "    " << L << ": " << N << "\n";
    if (V.Found) {
      Violations++;
      mkdir(ReplayDir.c_str(), 0777);
      Shared *Sh = newShared();
      if (V.Kind == "tape") {
        Outcome D = runSequence(P, S, Sh, {}, &V.O.Tape, true);
        if (D.Failed) {
          V.O.Desc = D.Desc;
          V.O.Msg = D.Msg;
        }
      }
      nlohmann::json R;
      R["property"] = P.Id;
      R["sub"] = S.Name;
      R["kind"] = V.Kind;
      R["seed"] = Seed;
      R["tape"] = V.O.Tape;
      R["indices"] = V.Indices;
      R["failure_kind"] = V.O.Kind;
      R["message"] = V.O.Msg;
      R["description"] = V.O.Desc;
      R["shrink_runs"] = V.ShrinkRuns;
      std::string F = ReplayDir + "/" + P.Id + "-" + S.Name + ".json";
      std::ofstream(F) << R.dump(1, ' ', false, nlohmann::json::error_handler_t::replace) << "\n";
      std::cout << "---- failing case (" << V.Kind << ", " << V.ShrinkRuns
                << " shrink runs)\n"
                << V.O.Desc << "\n"
                << V.O.Msg << "\n----\n";
      VLine = "VIOLATION property=" + P.Id + " replay=" + F;
      std::cout << VLine << std::endl;
      J["violation"] = V.O.Msg;
      Subs.push_back(J);
      break;
    }
    Subs.push_back(J);
  }
  nlohmann::json E;
  E["property"] = P.Id;
  E["tier"] = Tier;
  E["seed"] = Seed;
  E["level"] = "exploration";
  E["coverage"] = {{"evaluations", Evals},
                   {"distinct_nontrivial", NT},
                   {"rule", Rule},
                   {"samples", Samples},
                   {"subproperties", Subs},
                   {"known_findings", KJ}};
  E["assumptions"] = P.Assumptions;
  E["wall_s"] = nowS() - T0;
  E["violations"] = Violations;
  std::ofstream(Out) << E.dump(1, ' ', false, nlohmann::json::error_handler_t::replace) << "\n";
  return Violations ? 1 : 0;
}

} // namespace pbt
