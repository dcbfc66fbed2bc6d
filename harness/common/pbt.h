// A small property-based-testing engine (Hypothesis style: every random choice
// is recorded on a tape of integers; shrinking edits the tape; replaying a tape
// regenerates the case). Cases run in forked children, so crashes, failed
// assertions and hangs in the code under test are ordinary, shrinkable failures.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string Msg;
};
struct Discard {};

class Ctx {
public:
  // ---- choices
  /// uniform in [0, N); N >= 1. Zero is the simplest choice.
  uint64_t draw(uint64_t N);
  int64_t range(int64_t Lo, int64_t Hi) {
    return Lo + (int64_t)draw((uint64_t)(Hi - Lo) + 1);
  }
  /// true with probability Num/Den; shrinks to false
  bool chance(unsigned Num, unsigned Den) { return draw(Den) >= Den - Num; }
  bool flip() { return draw(2) == 1; }
  /// index chosen with the given weights; shrinks to index 0
  size_t weighted(std::initializer_list<unsigned> W);
  template <typename C> auto &pick(C &&Cont) { return Cont[draw(Cont.size())]; }
  /// 64 bit value biased to the interesting ones
  int64_t interesting64();

  // ---- reporting
  void nontrivial(bool B = true) { NonTrivial |= B; }
  void label(const std::string &L) { Labels[L]++; }
  bool verbose() const { return Verbose; }
  void describe(const std::string &S);
  [[noreturn]] void fail(const std::string &Msg) { throw Failure{Msg}; }
  [[noreturn]] void discard() { throw Discard{}; }

  // engine
  bool Verbose = false;
  bool NonTrivial = false;
  std::map<std::string, uint64_t> Labels;
  std::string Desc;
  const std::vector<uint64_t> *Replay = nullptr; // else random
  uint64_t Rng[2] = {1, 2};
  uint64_t *Tape = nullptr; // shared
  uint64_t TapeCap = 0;
  volatile uint64_t *TapeLen = nullptr;
  char *Sink = nullptr;
  uint64_t SinkCap = 0;
  volatile uint64_t *SinkLen = nullptr;
};

struct Sub {
  std::string Name;
  std::string Rule; // how cases are made; what is non-trivial
  void (*Fn)(Ctx &);
  uint64_t Quick;
  uint64_t Thorough = 0; // 0: 20 x Quick
  unsigned Chunk = 50;
  unsigned CpuLimitS = 40;
  unsigned WallLimitS = 300;
};

/// A confirmed defect of the code under test that is not repaired. The engine
/// runs StillFails (forked); as long as it fails *and* the finding is listed in
/// known_findings.json a KNOWN-FINDING line is printed. The generators avoid
/// exactly these inputs.
struct Known {
  std::string Id;
  std::string What;
  bool (*StillFails)();
};

struct Property {
  std::string Id;
  std::vector<Sub> Subs;
  std::vector<std::string> Assumptions;
  std::vector<Known> Knowns;
};

int run(int argc, char **argv, const Property &P);

std::string strf(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));

} // namespace pbt

#define PBT_CHECK(Ctx, Cond, Msg)                                              \
  do {                                                                         \
    if (!(Cond))                                                               \
      (Ctx).fail(std::string(__FILE__).substr(                                 \
                     std::string(__FILE__).rfind('/') + 1) +                   \
                 ":" + std::to_string(__LINE__) + ": " + (Msg));               \
  } while (0)
