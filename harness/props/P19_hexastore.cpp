// BUILD:
// The Hexastore is a set of string triples: every query pattern returns exactly
// the matching triples, for every content and insertion history.
#include "pbt.h"
#include "phasar/DB/Hexastore.h"
#include <set>
#include <unistd.h>
using pbt::Ctx;
using pbt::strf;
namespace {
using Triple = std::array<std::string, 3>;

std::string show(const Triple &T) { return "(" + T[0] + " | " + T[1] + " | " + T[2] + ")"; }

void check(Ctx &C, psr::Hexastore &H, const std::set<Triple> &M, const Triple &Q) {
  auto R = H.get(Q, C.draw(3));
  std::multiset<Triple> Got;
  for (auto &X : R)
    Got.insert({X.Subject, X.Predicate, X.Object});
  std::multiset<Triple> Exp;
  for (auto &T : M) {
    bool Match = true;
    for (unsigned I = 0; I < 3; ++I)
      Match &= Q[I] == "?" || Q[I] == T[I];
    if (Match)
      Exp.insert(T);
  }
  if (Got != Exp) {
    std::string S = "query " + show(Q) + " returned";
    for (auto &T : Got)
      S += " " + show(T);
    S += " expected";
    for (auto &T : Exp)
      S += " " + show(T);
    C.fail(S);
  }
}

void history(Ctx &C, const std::vector<std::string> &Names) {
  bool File = C.chance(1, 10);
  std::string Path = ":memory:";
  char Tmpl[] = "/tmp/pbt-hexXXXXXX";
  struct Rm {
    std::string P;
    ~Rm() {
      if (!P.empty())
        unlink(P.c_str());
    }
  } Rm;
  if (File) {
    int Fd = mkstemp(Tmpl);
    close(Fd);
    Path = Rm.P = Tmpl;
  }
  auto H = std::make_unique<psr::Hexastore>(Path);
  std::set<Triple> M;
  unsigned N = (unsigned)C.range(1, 14);
  bool Dup = false, Shared = false;
  auto Name = [&] { return Names[C.draw(Names.size())]; };
  for (unsigned I = 0; I < N; ++I) {
    Triple T{Name(), Name(), Name()};
    C.describe("put" + show(T) + " ");
    Dup |= M.count(T) != 0;
    for (auto &X : M)
      Shared |= X[0] == T[0] || X[2] == T[2];
    H->put(T);
    M.insert(T);
    if (File && C.chance(1, 5)) {
      H.reset();
      H = std::make_unique<psr::Hexastore>(Path);
      C.describe("reopen ");
      C.label("reopened");
    }
    if (C.chance(1, 4)) {
      Triple Q{Name(), Name(), Name()};
      for (auto &S : Q)
        if (C.flip())
          S = "?";
      check(C, *H, M, Q);
    }
  }
  for (unsigned Mask = 0; Mask < 8; ++Mask) {
    for (unsigned K = 0; K < 3; ++K) {
      Triple Q{Name(), Name(), Name()};
      if (C.flip()) { // a triple of the store
        auto It = M.begin();
        std::advance(It, C.draw(M.size()));
        Q = *It;
      }
      for (unsigned I = 0; I < 3; ++I)
        if (Mask & (1u << I))
          Q[I] = "?";
      check(C, *H, M, Q);
    }
  }
  C.nontrivial(M.size() >= 3 && Shared);
  if (Dup)
    C.label("duplicate put");
}
void plain(Ctx &C) {
  std::vector<std::string> Names;
  unsigned N = (unsigned)C.range(1, 5);
  for (unsigned I = 0; I < N; ++I)
    Names.push_back(strf("n%u", I));
  if (C.flip())
    Names.push_back("");
  history(C, Names);
}
void weird(Ctx &C) {
  static const char *W[] = {"name", "id",      "sid",  "a\"b",  "it's", "\"",    "%1%",        "100%",
                            "oid",  "rowid",   "NULL", "_ZN1AC2Ev", ";--",   "a b",  "spo_subject", "x\\y",
                            "null", "\xc3\xa4", "''",   "\"\"",  "Name", "NAME", "1",          "01"};
  std::vector<std::string> Names;
  unsigned N = (unsigned)C.range(1, 5);
  for (unsigned I = 0; I < N; ++I)
    Names.push_back(W[C.draw(sizeof(W) / sizeof(*W))]);
  Names.push_back("n");
  history(C, Names);
}
} // namespace
int main(int argc, char **argv) {
  pbt::Property P;
  P.Id = "P19";
  P.Subs = {
      {"plain", "random put/query/reopen histories over few names, all eight query patterns against a set of triples; non-trivial: at least three triples of which two share a subject or object", plain, 2500},
      {"special-names", "the same with names that are SQL keywords, column names or contain quotes and format directives", weird, 2500},
  };
  P.Assumptions = {"no component of a stored triple is \"?\" (it is the wildcard of the query language) or contains a NUL byte"};
  return pbt::run(argc, argv, P);
}
