From 31ec656b322828a3c8e976dd87aac83452fad2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 001/101] fix: BitVectorSet: hash equal sets equally

An empty set that once had elements compares equal to a default-constructed
set, but hash_value() differed between the two.
---
 include/phasar/Utils/BitVectorSet.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..783d03b 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -10,6 +10,7 @@
 #ifndef PHASAR_UTILS_BITVECTORSET_H_
 #define PHASAR_UTILS_BITVECTORSET_H_
 
+#include "llvm/ADT/ArrayRef.h"
 #include "llvm/ADT/BitVector.h"
 #include "llvm/ADT/Hashing.h"
 #include "llvm/Support/Compiler.h"
@@ -304,10 +305,10 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
-      return {};
+    llvm::ArrayRef<uintptr_t> Words;
+    if (!BV.Bits.empty()) {
+      Words = BV.Bits.getData();
     }
-    auto Words = BV.Bits.getData();
     size_t Idx = Words.size();
     while (Idx && Words[Idx - 1] == 0) {
       --Idx;
-- 
2.43.0


From 9346e77944e87f87ad2f1beadba043fcac2bf99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 002/101] fix: StableVector: do not keep dangling pointers in
 shrink_to_fit

On an empty vector that owns several blocks, shrink_to_fit() frees the first
block, but the next emplace_back() still wrote into it.
---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From e02f1679e53a2793c70fecc9b41bb71bad3646b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 003/101] fix: computePowerSet: the power set of the empty set
 is {{}}

---
 include/phasar/Utils/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/Utilities.h b/include/phasar/Utils/Utilities.h
index 6be3445..19e005f 100644
--- a/include/phasar/Utils/Utilities.h
+++ b/include/phasar/Utils/Utilities.h
@@ -77,8 +77,8 @@ std::set<std::set<T>> computePowerSet(const std::set<T> &S) {
         advance(It, J);
         Subset.insert(*It);
       }
-      Powerset.insert(Subset);
     }
+    Powerset.insert(std::move(Subset));
   }
   return Powerset;
 }
-- 
2.43.0


From 274fcf981e9833637245a6e9ca5869e0efdfe31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 004/101] fix: remove_by_index: honor all indices on
 non-random-access ranges

The iterator over the indices was advanced for every retained element instead
of for every removed one.
---
 include/phasar/Utils/Utilities.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/phasar/Utils/Utilities.h b/include/phasar/Utils/Utilities.h
index 19e005f..ee9cc62 100644
--- a/include/phasar/Utils/Utilities.h
+++ b/include/phasar/Utils/Utilities.h
@@ -237,9 +237,8 @@ It remove_by_index(It First, EndIt Last, IdxIt FirstIndex, IdxEndIt LastIndex) {
     for (auto I = First; I != Last; ++CurrIdx, ++I) {
       if (CurrIdx != *FirstIndex) {
         *First++ = std::move(*I);
-        if (++FirstIndex == LastIndex) {
-          return std::move(std::next(I), Last, First);
-        }
+      } else if (++FirstIndex == LastIndex) {
+        return std::move(std::next(I), Last, First);
       }
     }
     return First;
-- 
2.43.0


From cae46f1b5e6b2688d4e842dd1f52acf18654d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 005/101] fix: Hexastore: join SXO queries on the id of the
 object

(s, ?, o) queries compared the primary keys of two unrelated tables.
---
 lib/DB/Queries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DB/Queries.cpp b/lib/DB/Queries.cpp
index 671a9db..d80c10b 100644
--- a/lib/DB/Queries.cpp
+++ b/lib/DB/Queries.cpp
@@ -110,7 +110,7 @@ const string SearchSXO =
     "select sop_subject.name, sop_predicate.name, sop_object.name from "
     "sop_subject "
     "inner join sop_object on sop_subject.id=sop_object.sid "
-    "inner join sop_predicate on sop_object.id=sop_predicate.id and "
+    "inner join sop_predicate on sop_object.id=sop_predicate.oid and "
     "sop_subject.id=sop_predicate.sid "
     "where sop_subject.name=\"%1%\" and sop_object.name=\"%3%\";";
 
-- 
2.43.0


From d434faa4a2fd5ca9582838ffa7748ec7b642c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 006/101] fix: Hexastore: quote names as SQL string literals

Names were put into double quotes, i.e. SQLite treated them as identifiers
first: names equal to a column name matched every row, and names with a double
quote broke the statement.
---
 lib/DB/Hexastore.cpp | 21 ++++++++++--
 lib/DB/Queries.cpp   | 80 ++++++++++++++++++++++----------------------
 2 files changed, 58 insertions(+), 43 deletions(-)

diff --git a/lib/DB/Hexastore.cpp b/lib/DB/Hexastore.cpp
index a912b46..369c6ea 100644
--- a/lib/DB/Hexastore.cpp
+++ b/lib/DB/Hexastore.cpp
@@ -16,6 +16,19 @@
 
 namespace psr {
 
+/// Escapes Str for the use within a single-quoted SQL string literal
+static std::string escapeSQL(const std::string &Str) {
+  std::string Ret;
+  Ret.reserve(Str.size());
+  for (char Chr : Str) {
+    if (Chr == '\'') {
+      Ret += '\'';
+    }
+    Ret += Chr;
+  }
+  return Ret;
+}
+
 Hexastore::Hexastore(const std::string &Filename) {
   sqlite3_open(Filename.c_str(), &HSInternalDB);
   const std::string &Query = INIT;
@@ -49,7 +62,8 @@ void Hexastore::put(const std::array<std::string, 3> &Edge) {
 void Hexastore::doPut(const std::string &Query,
                       std::array<std::string, 3> Edge) {
   std::string CompiledQuery =
-      str(boost::format(Query) % Edge[0] % Edge[1] % Edge[2]);
+      str(boost::format(Query) % escapeSQL(Edge[0]) % escapeSQL(Edge[1]) %
+          escapeSQL(Edge[2]));
   char *Err;
   sqlite3_exec(HSInternalDB, CompiledQuery.c_str(), callback, nullptr, &Err);
   if (Err != nullptr) {
@@ -91,8 +105,9 @@ std::vector<HSResult> Hexastore::get(std::array<std::string, 3> EdgeQuery,
       }
     }
   }
-  std::string CompiledQuery = str(boost::format(QueryString) % EdgeQuery[0] %
-                                  EdgeQuery[1] % EdgeQuery[2]);
+  std::string CompiledQuery = str(
+      boost::format(QueryString) % escapeSQL(EdgeQuery[0]) %
+      escapeSQL(EdgeQuery[1]) % escapeSQL(EdgeQuery[2]));
   // this lambda will collect all of our results, since it is called on every
   // row of the result set
   auto SqliteCBResultCollector = [](void *CB, int /*Argc*/, char **Argv,
diff --git a/lib/DB/Queries.cpp b/lib/DB/Queries.cpp
index d80c10b..01147a2 100644
--- a/lib/DB/Queries.cpp
+++ b/lib/DB/Queries.cpp
@@ -16,86 +16,86 @@ namespace psr {
 
 const string SPOInsert =
     "insert or ignore into spo_subject (name) "
-    "values (\"%1%\");"
+    "values ('%1%');"
 
     "insert or ignore into spo_predicate (name, sid) "
-    "values (\"%2%\", (select id from spo_subject where name=\"%1%\"));"
+    "values ('%2%', (select id from spo_subject where name='%1%'));"
 
     "insert or ignore into spo_object (name, sid, pid) "
-    "values (\"%3%\", (select id from spo_subject where name=\"%1%\"), "
-    "(select id from spo_predicate where name=\"%2%\" and sid=(select id from "
-    "spo_subject where name=\"%1%\")));";
+    "values ('%3%', (select id from spo_subject where name='%1%'), "
+    "(select id from spo_predicate where name='%2%' and sid=(select id from "
+    "spo_subject where name='%1%')));";
 
 const string SOPInsert =
     "insert or ignore into sop_subject (name) "
-    "values (\"%1%\");"
+    "values ('%1%');"
 
     "insert or ignore into sop_object (name, sid) "
-    "values (\"%3%\", (select id from sop_subject where name=\"%1%\"));"
+    "values ('%3%', (select id from sop_subject where name='%1%'));"
 
     "insert or ignore into sop_predicate (name, sid, oid) "
-    "values (\"%2%\", (select id from sop_subject where name=\"%1%\"), "
-    "(select id from sop_object where name=\"%3%\" and sid=(select id from "
-    "sop_subject where name=\"%1%\")));";
+    "values ('%2%', (select id from sop_subject where name='%1%'), "
+    "(select id from sop_object where name='%3%' and sid=(select id from "
+    "sop_subject where name='%1%')));";
 
 const string PSOInsert =
     "insert or ignore into pso_predicate (name) "
-    "values (\"%2%\");"
+    "values ('%2%');"
 
     "insert or ignore into pso_subject (name, pid) "
-    "values (\"%1%\", (select id from pso_predicate where name=\"%2%\"));"
+    "values ('%1%', (select id from pso_predicate where name='%2%'));"
 
     "insert or ignore into pso_object (name, pid, sid) "
-    "values (\"%3%\", (select id from pso_predicate where name=\"%2%\"), "
-    "(select id from pso_subject where name=\"%1%\" and pid=(select id from "
-    "pso_predicate where name=\"%2%\")));";
+    "values ('%3%', (select id from pso_predicate where name='%2%'), "
+    "(select id from pso_subject where name='%1%' and pid=(select id from "
+    "pso_predicate where name='%2%')));";
 
 const string POSInsert =
     "insert or ignore into pos_predicate (name) "
-    "values (\"%2%\");"
+    "values ('%2%');"
 
     "insert or ignore into pos_object (name, pid) "
-    "values (\"%3%\", (select id from pos_predicate where name=\"%2%\"));"
+    "values ('%3%', (select id from pos_predicate where name='%2%'));"
 
     "insert or ignore into pos_subject (name, oid, pid) "
-    "values (\"%1%\", (select id from pos_object where pos_object.name=\"%3%\" "
+    "values ('%1%', (select id from pos_object where pos_object.name='%3%' "
     "and "
-    "pos_object.pid=(select id from pos_predicate where name=\"%2%\")), "
-    "(select pid from pos_object where name=\"%3%\" and pid=(select id from "
-    "pos_predicate where name=\"%2%\")));";
+    "pos_object.pid=(select id from pos_predicate where name='%2%')), "
+    "(select pid from pos_object where name='%3%' and pid=(select id from "
+    "pos_predicate where name='%2%')));";
 
 const string OSPInsert =
     "insert or ignore into osp_object (name) "
-    "values (\"%3%\");"
+    "values ('%3%');"
 
     "insert or ignore into osp_subject (name, oid) "
-    "values (\"%1%\", (select id from osp_object where name=\"%3%\"));"
+    "values ('%1%', (select id from osp_object where name='%3%'));"
 
     "insert or ignore into osp_predicate (name, sid, oid) "
-    "values (\"%2%\", (select id from osp_subject where name=\"%1%\" and "
-    "oid=(select id from osp_object where name=\"%3%\")), "
-    "(select id from osp_object where name=\"%3%\" and oid=(select id from "
-    "osp_object where name=\"%3%\")));";
+    "values ('%2%', (select id from osp_subject where name='%1%' and "
+    "oid=(select id from osp_object where name='%3%')), "
+    "(select id from osp_object where name='%3%' and oid=(select id from "
+    "osp_object where name='%3%')));";
 
 const string OPSInsert =
     "insert or ignore into ops_object (name) "
-    "values (\"%3%\");"
+    "values ('%3%');"
 
     "insert or ignore into ops_predicate (name, oid) "
-    "values (\"%2%\", (select id from ops_object where name=\"%3%\"));"
+    "values ('%2%', (select id from ops_object where name='%3%'));"
 
     "insert or ignore into ops_subject (name, pid, oid) "
-    "values (\"%1%\", (select id from ops_predicate where name=\"%2%\"), "
-    "(select id from pos_object where name=\"%3%\" and oid=(select id from "
-    "osp_object where name=\"%3%\")));";
+    "values ('%1%', (select id from ops_predicate where name='%2%'), "
+    "(select id from pos_object where name='%3%' and oid=(select id from "
+    "osp_object where name='%3%')));";
 
 const string SearchSPO =
     "select spo_subject.name, spo_predicate.name, spo_object.name from "
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\" and spo_predicate.name=\"%2%\" and "
-    "spo_object.name=\"%3%\";";
+    "where spo_subject.name='%1%' and spo_predicate.name='%2%' and "
+    "spo_object.name='%3%';";
 
 const string SearchSPX =
     "-- %3%\n"
@@ -103,7 +103,7 @@ const string SearchSPX =
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\" and spo_predicate.name=\"%2%\";";
+    "where spo_subject.name='%1%' and spo_predicate.name='%2%';";
 
 const string SearchSXO =
     "-- %2%\n"
@@ -112,7 +112,7 @@ const string SearchSXO =
     "inner join sop_object on sop_subject.id=sop_object.sid "
     "inner join sop_predicate on sop_object.id=sop_predicate.oid and "
     "sop_subject.id=sop_predicate.sid "
-    "where sop_subject.name=\"%1%\" and sop_object.name=\"%3%\";";
+    "where sop_subject.name='%1%' and sop_object.name='%3%';";
 
 const string SearchXPO =
     "-- %1%\n"
@@ -121,7 +121,7 @@ const string SearchXPO =
     "inner join pos_object on pos_object.pid=pos_predicate.id "
     "inner join pos_subject on pos_subject.pid=pos_predicate.id and "
     "pos_subject.oid=pos_object.id "
-    "where pos_predicate.name=\"%2%\" and pos_object.name=\"%3%\";";
+    "where pos_predicate.name='%2%' and pos_object.name='%3%';";
 
 const string SearchSXX =
     "-- %2%%3%\n"
@@ -129,7 +129,7 @@ const string SearchSXX =
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\";";
+    "where spo_subject.name='%1%';";
 
 const string SearchXPX =
     "-- %1%%3%\n"
@@ -137,7 +137,7 @@ const string SearchXPX =
     "pso_predicate inner join pso_subject on pso_predicate.id=pso_subject.pid "
     "inner join pso_object on pso_predicate.id=pso_object.pid and "
     "pso_subject.id=pso_object.sid "
-    "where pso_predicate.name=\"%2%\";";
+    "where pso_predicate.name='%2%';";
 
 const string SearchXXO =
     "-- %1%%2%\n"
@@ -145,7 +145,7 @@ const string SearchXXO =
     "osp_object inner join osp_subject on osp_object.id=osp_subject.oid "
     "inner join osp_predicate on osp_subject.id=osp_predicate.sid and "
     "osp_object.id=osp_predicate.oid "
-    "where osp_object.name=\"%3%\";";
+    "where osp_object.name='%3%';";
 
 const string SearchXXX =
     "-- %1%%2%%3%\n"
-- 
2.43.0


From af4235704cc64d6b1ba874959fdba3ddb3226206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 007/101] fix: IDESolver: do not propagate values into callees
 replaced by a special summary

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..35fdfdc 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -609,6 +609,11 @@ protected:
     PAMM_GET_INSTANCE;
     d_t Fact = NAndD.second;
     for (const f_t Callee : ICF->getCalleesOfCallAt(Stmt)) {
+      if (CachedFlowEdgeFunctions.getSummaryFlowFunction(Stmt, Callee)) {
+        // The special summary replaces the flow through the callee, so no
+        // values must be propagated along the call edge (cf. processCall())
+        continue;
+      }
       FlowFunctionPtrType CallFlowFunction =
           CachedFlowEdgeFunctions.getCallFlowFunction(Stmt, Callee);
       INC_COUNTER("FF Queries", 1, Full);
-- 
2.43.0


From fff16f32a93c9ddec34059d36cb7cbd27b9de7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 008/101] fix: IDESolver: allow continuing after a cancellation
 at the fixpoint

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 35fdfdc..a5635a2 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1761,7 +1761,10 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    if (WorkList.empty()) {
+      // The solver may have been cancelled right after the last step
+      return false;
+    }
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
-- 
2.43.0


From 60ecb029ab2e435c22d6e9660a47cf0b6c3fabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 009/101] fix: IDESolverAPIMixin: always make progress between
 two cancellation checks

---
 .../DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..8f06a53 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,7 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    size_t NumIterations = std::max<size_t>(1, Interval.count() * 500);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -475,11 +476,15 @@ private:
         return false;
       }
 
-      // Adjust NumIterations
-      auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
-      auto NewNumIterations =
-          size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      // Adjust NumIterations; never let it drop to 0, since the solver would
+      // not make any progress anymore
+      if (DeltaTime.count() > 0) {
+        auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
+        auto NewNumIterations =
+            size_t(IterationsPerMilli * double(Interval.count()));
+        NumIterations =
+            std::max<size_t>(1, (NumIterations + 2 * NewNumIterations) / 3);
+      }
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From 906448425827e25c2290c19383c76a84c1c2ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:56 +0000
Subject: [PATCH 010/101] fix: IDESolver::getAsJson: build the statement's name
 as a string

llvm::StringRef + const char * is an llvm::Twine, so that the function could
not be instantiated for LLVM-based analyses.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index a5635a2..967e58a 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -117,7 +117,8 @@ public:
             llvm::StringRef(NToString(Cells[I].getRowKey())).trim().str();
 
         std::string NodeStr =
-            ICF->getFunctionName(ICF->getFunctionOf(Curr)) + "::" + NStr;
+            std::string(ICF->getFunctionName(ICF->getFunctionOf(Curr))) +
+            "::" + NStr;
         J[DataFlowID][NodeStr];
         std::string FactStr =
             llvm::StringRef(DToString(Cells[I].getColumnKey())).trim().str();
-- 
2.43.0


From 9b93f53cca789a6bf21fde71d1f0da381cd9276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 011/101] fix: resultsAtInLLVMSSA: skip debug intrinsics behind
 the statement

The CFG ignores debug intrinsics by default, so that there are no results
stored for them.
---
 include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h  |  4 ++--
 .../PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h  | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h
index 3a5f20d..a917d9f 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h
@@ -85,9 +85,9 @@ public:
             // In this case we have a value on the left-hand side and must
             // return the results at the successor instruction. Note that
             // terminator instructions are always of void type.
-            assert(Inst->getNextNode() &&
+            assert(Inst->getNextNonDebugInstruction() &&
                    "Expected to find a valid successor node!");
-            return this->resultsAt(Inst->getNextNode());
+            return this->resultsAt(Inst->getNextNonDebugInstruction());
           };
     std::set<d_t> KeySet;
     for (auto &[FlowFact, LatticeValue] : getResultMap()) {
diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
index 4d17597..2daa4d8 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
@@ -37,7 +37,7 @@ auto SolverResultsBase<Derived, N, D, L>::resultsAtInLLVMSSA(
     if (Stmt->getType()->isVoidTy()) {
       return self().Results.row(Stmt);
     }
-    if (!Stmt->getNextNode()) {
+    if (!Stmt->getNextNonDebugInstruction()) {
       auto GetStartRow = [this](const llvm::BasicBlock *BB) -> decltype(auto) {
         const auto *First = &BB->front();
         if (llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
@@ -88,8 +88,8 @@ auto SolverResultsBase<Derived, N, D, L>::resultsAtInLLVMSSA(
       }
       return Ret;
     }
-    assert(Stmt->getNextNode() && "Expected to find a valid successor node!");
-    return self().Results.row(Stmt->getNextNode());
+    assert(Stmt->getNextNonDebugInstruction() && "Expected to find a valid successor node!");
+    return self().Results.row(Stmt->getNextNonDebugInstruction());
   }();
   if (StripZero) {
     Result.erase(self().ZV);
@@ -108,7 +108,7 @@ auto SolverResultsBase<Derived, N, D, L>::resultAtInLLVMSSA(
   if (Stmt->getType()->isVoidTy()) {
     return self().Results.get(Stmt, Value);
   }
-  if (!Stmt->getNextNode()) {
+  if (!Stmt->getNextNonDebugInstruction()) {
     auto GetStartVal = [this,
                         &Value](const llvm::BasicBlock *BB) -> decltype(auto) {
       const auto *First = &BB->front();
@@ -165,8 +165,8 @@ auto SolverResultsBase<Derived, N, D, L>::resultAtInLLVMSSA(
     }
     return Ret;
   }
-  assert(Stmt->getNextNode() && "Expected to find a valid successor node!");
-  return self().Results.get(Stmt->getNextNode(), Value);
+  assert(Stmt->getNextNonDebugInstruction() && "Expected to find a valid successor node!");
+  return self().Results.get(Stmt->getNextNonDebugInstruction(), Value);
 }
 } // namespace psr::detail
 
-- 
2.43.0


From c16fec6e1aef916323abc5053a89f253ab46be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 012/101] fix: IDESolver::resultsAtInLLVMSSA: pass StripZero as
 StripZero

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 967e58a..03ded86 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -185,7 +185,8 @@ public:
       std::is_same_v<std::remove_reference_t<NTy>, llvm::Instruction *>,
       std::unordered_map<d_t, l_t>>
   resultsAtInLLVMSSA(NTy Stmt, bool StripZero = false) {
-    return getSolverResults().resultsAtInLLVMSSA(Stmt, StripZero);
+    return getSolverResults().resultsAtInLLVMSSA(
+        Stmt, /*AllowOverapproximation=*/false, StripZero);
   }
 
   virtual void emitTextReport(llvm::raw_ostream &OS = llvm::outs()) {
-- 
2.43.0


From 1fcbb8424d6f30617ae1a0a13acdf7bda4803e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 013/101] fix: resultsAtInLLVMSSA: do not take the results of
 an invoke from its unwind destination

The value of an invoke is only available in its normal destination.
---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
index 2daa4d8..c418af4 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
@@ -50,7 +50,7 @@ auto SolverResultsBase<Derived, N, D, L>::resultsAtInLLVMSSA(
       // that only has one predecessor, we are lucky and can just take results
       // from there
       for (const llvm::BasicBlock *Succ : llvm::successors(Stmt)) {
-        if (Succ->hasNPredecessors(1)) {
+        if (Succ->hasNPredecessors(1) && !Succ->isEHPad()) {
           return GetStartRow(Succ);
         }
       }
@@ -122,7 +122,7 @@ auto SolverResultsBase<Derived, N, D, L>::resultAtInLLVMSSA(
     // that only has one predecessor, we are lucky and can just take results
     // from there
     for (const llvm::BasicBlock *Succ : llvm::successors(Stmt)) {
-      if (Succ->hasNPredecessors(1)) {
+      if (Succ->hasNPredecessors(1) && !Succ->isEHPad()) {
         return GetStartVal(Succ);
       }
     }
-- 
2.43.0


From 803c4d7c90278807cbd774b0b6fa0e3cfbe280e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 014/101] fix: JoinEdgeFunction: recognize equal edge functions
 at different addresses

std::set_union relied on an order by address, so that the same edge function
could occur twice in a join, which then overflowed to AllBottom depending on
where the edge functions were allocated.
---
 .../DataFlow/IfdsIde/EdgeFunctionUtils.h      | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h b/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h
index bfbc9d2..93ce0fd 100644
--- a/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h
+++ b/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h
@@ -16,6 +16,8 @@
 #include "phasar/Utils/TypeTraits.h"
 
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/STLExtras.h"
+#include "llvm/ADT/SmallVector.h"
 
 #include <type_traits>
 
@@ -361,7 +363,11 @@ template <typename L, uint8_t N> struct JoinEdgeFunction {
       return false;
     }
 
-    return llvm::equal(LHS.OtherEF, RHS.OtherEF);
+    // The order of OtherEF is irrelevant and there are no duplicates
+    return LHS.OtherEF.size() == RHS.OtherEF.size() &&
+           llvm::all_of(LHS.OtherEF, [&RHS](const auto &EF) {
+             return llvm::is_contained(RHS.OtherEF, EF);
+           });
   }
 
   [[nodiscard]] static EdgeFunction<l_t> create(EdgeFunction<l_t> LHS,
@@ -383,10 +389,16 @@ template <typename L, uint8_t N> struct JoinEdgeFunction {
       return AllBottom<l_t>{};
     }
 
-    llvm::SmallVector<EdgeFunction<l_t>, N> JoinVec;
+    // Note: We cannot use std::set_union here, because equal edge functions may
+    // live at different addresses. So, there is no order that sorts equal edge
+    // functions next to each other.
+    llvm::SmallVector<EdgeFunction<l_t>, N> JoinVec(LVec.begin(), LVec.end());
+    for (const auto &EF : RVec) {
+      if (!llvm::is_contained(LVec, EF)) {
+        JoinVec.push_back(EF);
+      }
+    }
 
-    std::set_union(LVec.begin(), LVec.end(), RVec.begin(), RVec.end(),
-                   std::back_inserter(JoinVec));
     if (JoinVec.size() > N) {
       return AllBottom<l_t>{};
     }
-- 
2.43.0


From bb8d2004aac8f74b629c434a4335280b8b54f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 015/101] fix: fromMetaDataId: resolve arguments of functions
 whose name contains a dot

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..1522d91 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,7 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From 8554e7d861e040237de4061741dcc83249e8d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 016/101] fix: isBranchTarget/isFallThroughSuccessor: skip
 debug instructions like getSuccsOf

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..0c1096f 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -198,15 +198,26 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFieldStoreImpl(
   return false;
 }
 
+/// Checks whether Inst is the first instruction of BB that belongs to the CFG
+static bool isFirstInstOf(const llvm::BasicBlock *BB,
+                          const llvm::Instruction *Inst,
+                          bool IgnoreDbgInstructions) noexcept {
+  const llvm::Instruction *First = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
+    First = First->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return First == Inst;
+}
+
 template <typename Derived>
 bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
     n_t Inst, n_t Succ) const noexcept {
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
     if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
+      return isFirstInstOf(B->getSuccessor(1), Succ, IgnoreDbgInstructions);
     }
-    return &B->getSuccessor(0)->front() == Succ;
+    return isFirstInstOf(B->getSuccessor(0), Succ, IgnoreDbgInstructions);
   }
   return false;
 }
@@ -216,7 +227,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (isFirstInstOf(BB, Succ, IgnoreDbgInstructions)) {
         return true;
       }
     }
-- 
2.43.0


From 7572ab587a9ca0367a69385b6022cd4869ef4c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 017/101] fix: isStartPoint: only skip debug instructions if
 the CFG ignores them

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 0c1096f..225bab6 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -170,7 +170,8 @@ bool detail::LLVMBasedCFGImpl<Derived>::isStartPointImpl(
   if (Inst == FirstInst) {
     return true;
   }
-  return llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
+  return IgnoreDbgInstructions &&
+         llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
          Inst == FirstInst->getNextNonDebugInstruction(false);
 }
 
-- 
2.43.0


From 52ac323ea979eb8540b438f4eb3994599964ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 018/101] fix: LLVMBasedBackwardCFG: getPredsOf an artificial
 return crashed

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..ee6ef6e 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -39,10 +39,9 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
-  if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+  if (const auto *Fun = BackwardRetToFunction.lookup(Inst)) {
+    // The artificial return succeeds the (forward) entry point
+    return this->base_t::getStartPointsOfImpl(Fun);
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
-- 
2.43.0


From b4b4ae6d8e8d2b67faa349f36815e38b5494ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 019/101] fix: LLVMBasedBackwardCFG::getAllControlFlowEdges:
 orient the edges backwards, skip all debug intrinsics

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index ee6ef6e..ffe5a65 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -70,19 +71,14 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From fb148af631cd44aa9bf58c259b0c621ec83a8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:34 +0000
Subject: [PATCH 020/101] fix: getSpecialMemberFunctionType: terminate on names
 starting with a code, skip source names

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 48 ++++++---------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 225bab6..a95a8c1 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -254,46 +254,24 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
                  {"D2", SpecialMemberFunctionType::Destructor},
                  {"aSERKS_", SpecialMemberFunctionType::CopyAssignment},
                  {"aSEOS_", SpecialMemberFunctionType::MoveAssignment}};
-  llvm::SmallVector<std::pair<std::size_t, SpecialMemberFunctionType>> Found;
-  std::size_t Blacklist = 0;
-  const auto *It = std::begin(Codes);
-  while (It != std::end(Codes)) {
-    if (std::size_t Index = FunctionName.find(It->first, Blacklist)) {
-      if (Index != llvm::StringRef::npos) {
-        Found.emplace_back(Index, It->second);
-        Blacklist = Index + 1;
-      } else {
-        ++It;
-        Blacklist = 0;
-      }
-    }
-  }
-  if (Found.empty()) {
+  if (!FunctionName.startswith("_Z")) {
     return SpecialMemberFunctionType::None;
   }
 
-  // test if codes are in function name or type information
-  bool NoName = true;
-  for (auto Index : Found) {
-    for (const auto *C = FunctionName.begin();
-         C < FunctionName.begin() + Index.first; ++C) {
-      if (isdigit(*C)) {
-        short I = 0;
-        while (isdigit(*(C + I))) {
-          ++I;
-        }
-        std::string ST(C, C + I);
-        if (Index.first <= std::distance(FunctionName.begin(), C) + stoul(ST)) {
-          NoName = false;
-          break;
-        }
-        C = C + *C;
-      }
+  // Search the codes only outside of the (length-prefixed) source names, as
+  // these may contain any of the codes
+  llvm::StringRef Rest = FunctionName.drop_front(2);
+  while (!Rest.empty()) {
+    if (std::size_t Len; !Rest.consumeInteger(10, Len)) {
+      Rest = Rest.drop_front(std::min(Len, Rest.size()));
+      continue;
     }
-    if (NoName) {
-      return Index.second;
+    for (const auto &[Code, Type] : Codes) {
+      if (Rest.startswith(Code)) {
+        return Type;
+      }
     }
-    NoName = true;
+    Rest = Rest.drop_front();
   }
   return SpecialMemberFunctionType::None;
 }
-- 
2.43.0


From 739c16fdf0d4b4a470d35bbd5153848b3cd6620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 021/101] fix: do not report a vtable for types that have none

---
 lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp b/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
index b34384b..82633e0 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
@@ -47,6 +47,13 @@ LLVMVFTableProvider::LLVMVFTableProvider(const llvm::Module &Mod) {
   }
 
   for (const auto *Ty : StructTypes) {
+    // Types without a vtable (e.g. plain C structs) must not get an entry here;
+    // otherwise, calls through their function-pointer fields would be mistaken
+    // for virtual calls
+    if (!ClearNameTVMap.count(
+            LLVMTypeHierarchy::removeStructOrClassPrefix(Ty->getName()))) {
+      continue;
+    }
     TypeVFTMap.try_emplace(Ty, getVirtualFunctions(ClearNameTVMap, *Ty));
   }
 }
-- 
2.43.0


From aa7b63fd1c173c14ff2882483d9953fb5fbb9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 022/101] fix: print vtables that contain non-function entries

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 5 ++++-
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp       | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 23dbdcc..d11098c 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -373,7 +373,10 @@ void LLVMTypeHierarchy::print(llvm::raw_ostream &OS) const {
   for (const auto &[Ty, VFT] : TypeVFTMap) {
     OS << "Virtual function table for: " << Ty->getName() << '\n';
     for (const auto *F : VFT) {
-      OS << "\t-" << F->getName() << '\n';
+      // Entries that are no functions are stored as nullptr
+      OS << "\t-"
+         << (F ? F->getName() : llvm::StringRef(LLVMVFTable::NullFunName))
+         << '\n';
     }
   }
 }
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 2b6b443..cbdabca 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -41,7 +41,7 @@ int LLVMVFTable::getIndex(const llvm::Function *F) const {
 
 void LLVMVFTable::print(llvm::raw_ostream &OS) const {
   for (const auto *F : VFT) {
-    OS << F->getName();
+    OS << (F ? F->getName() : llvm::StringRef(NullFunName));
     if (F != VFT.back()) {
       OS << '\n';
     }
-- 
2.43.0


From 951db30c5e8b1952439621b9a78b73853038c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 023/101] fix: skip unknown sub-types when loading a serialized
 type hierarchy

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index d11098c..24caaa1 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -121,7 +121,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
     auto Vtx = TypeVertexMap.at(SrcType);
     for (const auto &CurrEdge : SerElement.getValue()) {
       const auto *DestType = NameToStructType[CurrEdge];
-      if (!SrcType) {
+      if (!DestType) {
         continue;
       }
       auto DestVtx = TypeVertexMap.at(DestType);
-- 
2.43.0


From 96c4c0ba10ed48d06f4bc421603e5e7c4f81da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 024/101] fix: pass the alias information to the resolver when
 building a call graph

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From feeb25005ba8f9ba147dd9fdc7349c7427ca6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 025/101] fix: allow building CHA-based ICFGs without a given
 type hierarchy as documented

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e55edef..75e5850 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -193,17 +193,16 @@ std::unique_ptr<Resolver> Resolver::create(CallGraphAnalysisType Ty,
   assert(IRDB != nullptr);
   assert(VTP != nullptr);
 
+  // Note: The CHA-based resolvers construct the type-hierarchy on-the-fly, if TH
+  // is nullptr
   switch (Ty) {
   case CallGraphAnalysisType::NORESOLVE:
     return std::make_unique<NOResolver>(IRDB, VTP);
   case CallGraphAnalysisType::CHA:
-    assert(TH != nullptr);
     return std::make_unique<CHAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::RTA:
-    assert(TH != nullptr);
     return std::make_unique<RTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::DTA:
-    assert(TH != nullptr);
     return std::make_unique<DTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::VTA:
     llvm::report_fatal_error(
-- 
2.43.0


From 414690bb19b95128d61aa152feef92fff5bea0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 026/101] fix: compare each pointer with all members of an
 alias set, as may-alias is not transitive

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 71 ++++---------------------
 1 file changed, 10 insertions(+), 61 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..ac44013 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -344,71 +344,20 @@ static bool mayAlias(llvm::AAResults &AA, const llvm::DataLayout &DL,
 void LLVMAliasSet::addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
                               const llvm::Value *V,
                               std::vector<const llvm::Value *> &Reps) {
-  llvm::SmallVector<unsigned> ToMerge;
+  addSingletonAliasSet(V);
 
-  for (unsigned It = 0, End = Reps.size(); It < End; ++It) {
-    if (mayAlias(AA, DL, V, Reps[It])) {
-      ToMerge.push_back(It);
+  // The mayAlias relation is not transitive, so it is not sufficient to compare
+  // V with only one member per alias set. However, once V has been merged into
+  // an alias set, the remaining members of that set do not need to be checked
+  // anymore.
+  for (const auto *Rep : Reps) {
+    if (AliasSets[V].get() != AliasSets[Rep].get() &&
+        mayAlias(AA, DL, V, Rep)) {
+      mergeAliasSets(V, Rep);
     }
   }
 
-  // If we find several alias sets that may alias V, we must merge them.
-  // However, we cannot simply remove all respective representants (except for
-  // one), because for interprocedural flows, LLVM assumes all possible
-  // aliases and i8* is treated as void* making every pointer-type a matching
-  // type.
-  // This destroys the transitivity of the mayAlias relation partially. We can
-  // still remove a representant, if we have another rep of the same type
-  // within the same alias set.
-
-  if (ToMerge.empty()) {
-    Reps.push_back(V);
-    addSingletonAliasSet(V);
-  } else if (ToMerge.size() == 1) {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    assert(PTS && "Only added to Reps together with a "
-                  "\"addSingletonAliasSet\" call");
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    if (V->getType() != Reps[ToMerge[0]]->getType()) {
-      Reps.push_back(V);
-    }
-
-  } else {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    llvm::SmallPtrSet<const llvm::Type *, 6> OccurringTypes{
-        Reps[ToMerge[0]]->getType()};
-    llvm::SmallVector<unsigned> ToRemove;
-
-    for (auto Idx : llvm::makeArrayRef(ToMerge).slice(1)) {
-      mergeAliasSets(PTS, AliasSets[Reps[Idx]]);
-      if (auto [Unused, Inserted] = OccurringTypes.insert(Reps[Idx]->getType());
-          !Inserted) {
-        ToRemove.push_back(Idx);
-      }
-    }
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    Reps.erase(remove_by_index(Reps, ToRemove.begin(), ToRemove.end()),
-               Reps.end());
-
-    if (auto [Unused, Inserted] = OccurringTypes.insert(V->getType());
-        Inserted) {
-      Reps.push_back(V);
-    }
-  }
+  Reps.push_back(V);
 }
 
 static void addIfGlobal(llvm::DenseSet<const llvm::Value *> &UsedGlobals,
-- 
2.43.0


From fb82e329c5597fab83db2b5bcbe84a46a9d31691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 027/101] fix: consider globals, arrays and members as
 instantiations in RTA

---
 .../ControlFlow/Resolver/RTAResolver.cpp      | 40 ++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..d6aa498 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -22,6 +22,7 @@
 #include "phasar/Utils/Logger.h"
 #include "phasar/Utils/Utilities.h"
 
+#include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/ADT/StringSet.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
@@ -94,6 +95,33 @@ auto RTAResolver::resolveVirtualCall(const llvm::CallBase *CallSite)
 
 std::string RTAResolver::str() const { return "RTA"; }
 
+/// Collects all struct types that get instantiated when an object of type Ty is
+/// created, i.e., also the types of array elements and of members. The
+/// sub-objects for the base classes are no objects on their own.
+static void
+addInstantiatedTypes(const llvm::Type *Ty, const LLVMTypeHierarchy &TH,
+                     llvm::DenseSet<const llvm::StructType *> &Types) {
+  while (const auto *ArrTy = llvm::dyn_cast<llvm::ArrayType>(Ty)) {
+    Ty = ArrTy->getElementType();
+  }
+
+  const auto *StructTy = llvm::dyn_cast<llvm::StructType>(Ty);
+  if (!StructTy || !Types.insert(StructTy).second) {
+    return;
+  }
+
+  llvm::SmallPtrSet<const llvm::StructType *, 4> SeenBases;
+  for (const auto *ElemTy : StructTy->elements()) {
+    if (const auto *ElemStructTy = llvm::dyn_cast<llvm::StructType>(ElemTy);
+        ElemStructTy && TH.hasType(StructTy) && TH.hasType(ElemStructTy) &&
+        TH.isSubType(ElemStructTy, StructTy) &&
+        SeenBases.insert(ElemStructTy).second) {
+      continue;
+    }
+    addInstantiatedTypes(ElemTy, TH, Types);
+  }
+}
+
 /// More or less copied from GeneralStatisticsAnalysis
 void RTAResolver::resolveAllocatedStructTypes() {
   if (!AllocatedStructTypes.empty()) {
@@ -102,13 +130,15 @@ void RTAResolver::resolveAllocatedStructTypes() {
 
   llvm::DenseSet<const llvm::StructType *> AllocatedStructTypes;
 
+  for (const auto &Glob : IRDB->getModule()->globals()) {
+    addInstantiatedTypes(Glob.getValueType(), *TH, AllocatedStructTypes);
+  }
+
   for (const auto *Fun : IRDB->getAllFunctions()) {
     for (const auto &Inst : llvm::instructions(Fun)) {
       if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(&Inst)) {
-        if (const auto *StructTy =
-                llvm::dyn_cast<llvm::StructType>(Alloca->getAllocatedType())) {
-          AllocatedStructTypes.insert(StructTy);
-        }
+        addInstantiatedTypes(Alloca->getAllocatedType(), *TH,
+                             AllocatedStructTypes);
       } else if (const auto *CallSite = llvm::dyn_cast<llvm::CallBase>(&Inst);
                  CallSite && CallSite->getCalledFunction()) {
         // check if an instance of a user-defined type is allocated on the
@@ -138,7 +168,7 @@ void RTAResolver::resolveAllocatedStructTypes() {
                   !Cast->getDestTy()->isOpaquePointerTy()) {
                 if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(
                         Cast->getDestTy()->getNonOpaquePointerElementType())) {
-                  AllocatedStructTypes.insert(StructTy);
+                  addInstantiatedTypes(StructTy, *TH, AllocatedStructTypes);
                 }
               }
             }
-- 
2.43.0


From 88d1d36e8011c454e54d163e5b8084a9c18689ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 028/101] fix: load the precomputed call graph in
 HelperAnalyses

---
 lib/PhasarLLVM/HelperAnalyses.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/HelperAnalyses.cpp b/lib/PhasarLLVM/HelperAnalyses.cpp
index 815f9d8..1880c2c 100644
--- a/lib/PhasarLLVM/HelperAnalyses.cpp
+++ b/lib/PhasarLLVM/HelperAnalyses.cpp
@@ -89,7 +89,9 @@ LLVMTypeHierarchy &HelperAnalyses::getTypeHierarchy() {
 LLVMBasedICFG &HelperAnalyses::getICFG() {
   if (!ICF) {
     if (PrecomputedCG.has_value()) {
-      ICF = std::make_unique<LLVMBasedICFG>(&getProjectIRDB(), *PrecomputedCG);
+      ICF = std::make_unique<LLVMBasedICFG>(
+          &getProjectIRDB(),
+          CallGraphData::loadJsonString(PrecomputedCG->dump()));
     } else {
       ICF = std::make_unique<LLVMBasedICFG>(
           &getProjectIRDB(), CGTy, std::move(EntryPoints), &getTypeHierarchy(),
-- 
2.43.0


From b7051136fc7595543e5dbad86471132d3e51f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:31 +0000
Subject: [PATCH 029/101] fix: ignore invalid call-site ids when loading a call
 graph

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
-- 
2.43.0


From 590fdd3443328577caa42a56484ce50203581bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 030/101] fix: store an empty call graph as an empty JSON
 object

---
 lib/ControlFlow/CallGraphData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..84db00c 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  auto JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
-- 
2.43.0


From 2e97dde2d36bf12df385e19364adca331ae390a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 031/101] fix: store empty alias information so that it can be
 loaded again

---
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..62f35e8 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -29,7 +29,10 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  nlohmann::json JSON = {
+      {"AliasSets", nlohmann::json::array()},
+      {"AnalyzedFunctions", nlohmann::json::array()},
+  };
 
   for (const auto &Curr : AliasSets) {
     JSON["AliasSets"].push_back(Curr);
-- 
2.43.0


From 825f4e1b6c561b8bfba8463d4af9ff369253b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 032/101] fix: merge alias information consistently in
 LLVMAliasSet::mergeWith

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index ac44013..be1313e 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -606,27 +606,10 @@ void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
                            OtherPTI.AnalyzedFunctions.end());
   // merge points-to sets
   for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
+    addSingletonAliasSet(KeyPtr);
     for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
-      }
-    }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
+      addSingletonAliasSet(ElemPtr);
+      mergeAliasSets(KeyPtr, ElemPtr);
     }
   }
 }
-- 
2.43.0


From 23b4e4e86627cd67dc2070f1f0c9c338da4ce404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 033/101] fix: create alias sets before merging them for global
 objects

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index be1313e..da7f3cb 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -173,12 +173,15 @@ void LLVMAliasSet::computeValuesAliasSet(const llvm::Value *V) {
                                            // LLVM
               (Inst->getFunction()));
           if (!llvm::isa<llvm::Function>(G) && isInterestingPointer(User)) {
+            addSingletonAliasSet(User);
             mergeAliasSets(User, G);
           } else if (const auto *Store =
                          llvm::dyn_cast<llvm::StoreInst>(User)) {
             if (isInterestingPointer(Store->getValueOperand())) {
               // Store->getPointerOperand() doesn't require checking: it is
               // always an interesting pointer
+              addSingletonAliasSet(Store->getValueOperand());
+              addSingletonAliasSet(Store->getPointerOperand());
               mergeAliasSets(Store->getValueOperand(),
                              Store->getPointerOperand());
             }
-- 
2.43.0


From 9d9a169f68511af3c1f594815a1f6cfec5bd0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:11 +0000
Subject: [PATCH 034/101] fix: linear constant analysis wraps narrow integers
 and divides unsigned

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 45 +++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..0be79f9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -95,9 +95,11 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
+ * @param BitWidth the width of the operands' integer type
  * @return Result of binary operation
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned BitWidth) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -108,6 +110,17 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  // Values are represented sign-extended to 64 bits, so the results of
+  // computations in narrower types need to wrap around
+  const auto Wrap = [BitWidth](int64_t Val) -> int64_t {
+    return BitWidth < 64 ? llvm::SignExtend64(uint64_t(Val), BitWidth) : Val;
+  };
+  const auto AsUnsigned = [BitWidth](int64_t Val) -> uint64_t {
+    return BitWidth < 64 ? uint64_t(Val) & llvm::maskTrailingOnes<uint64_t>(
+                                               BitWidth)
+                         : uint64_t(Val);
+  };
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
@@ -115,21 +128,26 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Wrap(Res);
 
   case llvm::Instruction::Sub:
     if (llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Wrap(Res);
 
   case llvm::Instruction::Mul:
     if (llvm::MulOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Wrap(Res);
 
   case llvm::Instruction::UDiv:
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return Wrap(int64_t(AsUnsigned(Lop) / AsUnsigned(Rop)));
+
   case llvm::Instruction::SDiv:
     if (Lop == std::numeric_limits<int64_t>::min() &&
         Rop == -1) { // Would produce and overflow, as the complement of min is
@@ -139,10 +157,18 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    return Lop / Rop;
+    return Wrap(Lop / Rop);
 
   case llvm::Instruction::URem:
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return Wrap(int64_t(AsUnsigned(Lop) % AsUnsigned(Rop)));
+
   case llvm::Instruction::SRem:
+    if (Lop == std::numeric_limits<int64_t>::min() && Rop == -1) {
+      return Bottom{};
+    }
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
@@ -205,23 +231,26 @@ struct BinOp {
     PHASAR_LOG_LEVEL(DEBUG, "Curr Node : " << llvmIRToString(CurrNode));
     PHASAR_LOG_LEVEL(DEBUG, ' ');
 
+    const auto BitWidth = Lop->getType()->getScalarSizeInBits();
+
     if (LLVMZeroValue::isLLVMZeroValue(CurrNode) &&
         llvm::isa<llvm::ConstantInt>(Lop) &&
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 BitWidth);
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(), BitWidth);
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source, BitWidth);
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From 8c716b682d242527b45f650a5ca3044608525028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 035/101] fix: recognize the generated caller of registered
 destructors

---
 lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index e6a5324..8354143 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -356,8 +356,9 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
   if (F.hasName()) {
     llvm::StringRef FunctionName = F.getName();
     return llvm::StringSwitch<bool>(FunctionName)
-        .Cases(ModelName, DtorModelName, DtorsCallerName, UserEntrySelectorName,
-               true)
+        .Cases(ModelName, DtorModelName, UserEntrySelectorName, true)
+        // The name of the module is appended to the DtorsCallerName
+        .StartsWith(DtorsCallerName, true)
         .Default(false);
   }
 
-- 
2.43.0


From 9dfe619d90fc639fb2d68493e9711b488b781319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 036/101] fix: run registered destructors before
 llvm.global_dtors in the runtime model

---
 lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index 8354143..da2888a 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -182,7 +182,9 @@ static llvm::Function *createDtorCallerForModule(
 
   auto *RegisteredDtorCaller = createDtorCallerForModule(Mod, RegisteredDtors);
   // auto It =
-  GlobalDtors.emplace(0, RegisteredDtorCaller);
+  // The dtors registered with __cxa_atexit run before all functions listed in
+  // llvm.global_dtors
+  GlobalDtors.emplace(SIZE_MAX, RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
   return RegisteredDtorCaller;
-- 
2.43.0


From 0f970b4d15469d2eb0304f6eb2c5f7664b05b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 037/101] fix: keep the order of __cxa_atexit calls when
 modelling destructors

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index da2888a..84e8165 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -16,6 +16,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/IR/IRBuilder.h"
+#include "llvm/IR/InstIterator.h"
 
 #include <functional>
 
@@ -62,7 +63,7 @@ collectGlobalDtors(const llvm::Module &Mod) {
 }
 
 static llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-collectRegisteredDtorsForModule(const llvm::Module &Mod) {
+collectRegisteredDtorsForModule(llvm::Module &Mod) {
   // NOLINTNEXTLINE
   llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
       RegisteredDtors, RegisteredLocalStaticDtors;
@@ -82,12 +83,19 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
     return CE->getOperand(0);
   };
 
-  for (auto *User : CxaAtExitFn->users()) {
-    auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
-    if (!Call) {
-      continue;
+  // The order of the users() of a function is unrelated to the order in which
+  // they appear in the module
+  llvm::SmallVector<llvm::CallBase *, 4> AtExitCalls;
+  for (auto &Fun : Mod) {
+    for (auto &Inst : llvm::instructions(Fun)) {
+      auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+      if (Call && Call->getCalledOperand() == CxaAtExitFn) {
+        AtExitCalls.push_back(Call);
+      }
     }
+  }
 
+  for (auto *Call : AtExitCalls) {
     auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
         getConstantBitcastArgument(Call->getArgOperand(0)));
     auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
-- 
2.43.0


From 1439e2331d2d757a41019fdf9919ba1d0fbf8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 038/101] fix: taint analysis keeps pointer parameters with a
 single use

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..28f45af 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -183,9 +183,16 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
+/// Whether From may still be relevant after the only instruction that uses it.
+/// The formal pointer parameters have to be mapped back to the caller.
+static bool isUsedLater(d_t From) {
+  return From->hasNUsesOrMore(2) ||
+         (llvm::isa<llvm::Argument>(From) && From->getType()->isPointerTy());
+}
+
 static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
                                                                   d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+  if (isUsedLater(From)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -202,8 +209,8 @@ static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
 
 static IFDSTaintAnalysis::FlowFunctionPtrType
 transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
-  bool KillFrom1 = !From1->hasNUsesOrMore(2);
-  bool KillFrom2 = !From2->hasNUsesOrMore(2);
+  bool KillFrom1 = !isUsedLater(From1);
+  bool KillFrom2 = !isUsedLater(From2);
 
   if (KillFrom1) {
     if (KillFrom2) {
@@ -270,7 +277,7 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (isUsedLater(Store->getValueOperand())) {
       Gen.insert(Store->getValueOperand());
     }
 
-- 
2.43.0


From ff40c3f417c830113518ad133a7f6ee4937829c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 039/101] fix: taint analysis kills sanitized values alongside
 the call

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.h      |  5 ++
 .../TaintConfig/TaintConfigUtilities.h        |  6 +++
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 54 ++++++++++++++++++-
 3 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h
index f4fc2ff..fd6d1c2 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h
@@ -99,6 +99,11 @@ private:
                               const llvm::Instruction *Context) const;
   void populateWithMustAliases(container_type &Facts,
                                const llvm::Instruction *Context) const;
+
+  /// The facts that do not survive calling any of the Callees at CS
+  [[nodiscard]] container_type
+  collectKilledFacts(const llvm::CallBase *CS,
+                     llvm::ArrayRef<f_t> Callees) const;
 };
 } // namespace psr
 
diff --git a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
index aa7941d..f283ded 100644
--- a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
+++ b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
@@ -79,6 +79,12 @@ template <typename ContainerTy,
 void collectSanitizedFacts(ContainerTy &Dest, const LLVMTaintConfig &Config,
                            const llvm::CallBase *CB,
                            const llvm::Function *Callee) {
+  const auto &Callback = Config.getRegisteredSanitizerCallBack();
+  if (Callback) {
+    auto CBFacts = Callback(CB);
+    Dest.insert(CBFacts.begin(), CBFacts.end());
+  }
+
   for (unsigned I = 0, End = Callee->arg_size(); I < End; ++I) {
     if (Config.isSanitizer(Callee->getArg(I))) {
       Dest.insert(CB->getArgOperand(I));
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 28f45af..14d964a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -35,6 +35,8 @@
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
+#include <iterator>
 #include <utility>
 
 namespace psr {
@@ -366,9 +368,52 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
+  auto Mapper = mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
     return HasDeclOnly || !Arg->getType()->isPointerTy();
   });
+
+  // Facts that are killed by the summaries of all possible callees must not
+  // survive alongside the call
+  auto Kill = collectKilledFacts(CS, Callees);
+  if (Kill.empty()) {
+    return Mapper;
+  }
+  return lambdaFlow([Mapper{std::move(Mapper)},
+                     Kill{std::move(Kill)}](d_t Source) -> container_type {
+    if (Kill.count(Source)) {
+      return {};
+    }
+    return Mapper->computeTargets(Source);
+  });
+}
+
+auto IFDSTaintAnalysis::collectKilledFacts(const llvm::CallBase *CS,
+                                           llvm::ArrayRef<f_t> Callees) const
+    -> container_type {
+  container_type Ret;
+  bool First = true;
+  for (const auto *DestFun : Callees) {
+    container_type Gen;
+    container_type Kill;
+    collectGeneratedFacts(Gen, *Config, CS, DestFun);
+    collectSanitizedFacts(Kill, *Config, CS, DestFun);
+    populateWithMustAliases(Kill, CS);
+    if (CS->hasStructRetAttr() && !Gen.count(CS->getArgOperand(0))) {
+      // SRet is guaranteed to be written to by the call. If it does not
+      // generate it, we can freely kill it
+      Kill.insert(CS->getArgOperand(0));
+    }
+    if (First) {
+      Ret = std::move(Kill);
+      First = false;
+      continue;
+    }
+    container_type Both;
+    std::set_intersection(Ret.begin(), Ret.end(), Kill.begin(), Kill.end(),
+                          std::inserter(Both, Both.end()));
+    Ret = std::move(Both);
+  }
+  return Ret;
 }
 
 auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
@@ -469,7 +514,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -482,6 +528,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From 5d3eff3854edde2e165b8e57feb076b5eeaca367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 040/101] fix: taint analysis follows calls to functions that
 return structs by reference

---
 lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 14d964a..1c45630 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -447,7 +447,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // populateWithMayAliases(Leak, CallSite);
   populateWithMustAliases(Kill, CallSite);
 
-  if (CS->hasStructRetAttr()) {
+  // Calls to functions with a body are followed instead of summarized
+  if (CS->hasStructRetAttr() && DestFun->isDeclaration()) {
     const auto *SRet = CS->getArgOperand(0);
     if (!Gen.count(SRet)) {
       // SRet is guaranteed to be written to by the call. If it does not
-- 
2.43.0


From c60a7102c5a24ffc30f9f5731af901bf42410ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:19 +0000
Subject: [PATCH 041/101] fix: taint analysis follows phis, selects and freezes

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 1c45630..e194a60 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -319,6 +319,24 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     return transferFlow(Cast, Cast->getOperand(0));
   }
 
+  // The result is one of the operands, if any of them is tainted, so may be the
+  // result
+  if (llvm::isa<llvm::PHINode>(Curr) || llvm::isa<llvm::SelectInst>(Curr) ||
+      llvm::isa<llvm::FreezeInst>(Curr)) {
+    return lambdaFlow([Curr](d_t Source) -> container_type {
+      // The condition of a select does not flow into its result
+      auto Ops = llvm::drop_begin(Curr->operand_values(),
+                                  llvm::isa<llvm::SelectInst>(Curr) ? 1 : 0);
+      if (llvm::is_contained(Ops, Source)) {
+        return {Source, Curr};
+      }
+      if (Source == Curr) {
+        return {};
+      }
+      return {Source};
+    });
+  }
+
   // Otherwise we do not care and leave everything as it is
   return identityFlow();
 }
-- 
2.43.0


From e6c1df4de53940683aca987732cacceccf663444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:23 +0000
Subject: [PATCH 042/101] fix: taint analysis considers the pointer variables
 that are loaded later

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index e194a60..3c74aeb 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -158,6 +158,17 @@ void IFDSTaintAnalysis::populateWithMayAliases(
   for (const auto *Fact : Facts) {
     auto Aliases = PT.getAliasSet(Fact);
     for (const auto *Alias : *Aliases) {
+      const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Alias);
+      if (Load && Load->getFunction() == Context->getFunction()) {
+        // Handle at least one level of indirection...
+        // Note: Even, if we will see the load later, its result only gets
+        // tainted, if the memory it reads from is
+        const auto *PointerOp = Load->getPointerOperand()->stripPointerCasts();
+        if (!canSkipAtContext(PointerOp, Context)) {
+          Tmp.insert(PointerOp);
+        }
+      }
+
       if (canSkipAtContext(Alias, Context)) {
         continue;
       }
@@ -166,12 +177,6 @@ void IFDSTaintAnalysis::populateWithMayAliases(
         continue;
       }
 
-      if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Alias)) {
-        // Handle at least one level of indirection...
-        const auto *PointerOp = Load->getPointerOperand()->stripPointerCasts();
-        Tmp.insert(PointerOp);
-      }
-
       Tmp.insert(Alias);
     }
   }
-- 
2.43.0


From 6ab311fa0655c9071fa1e1e6887ab2b47a037857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:09 +0000
Subject: [PATCH 043/101] fix: taint analysis follows memory transfer
 intrinsics

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 3c74aeb..9513b5a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -30,6 +30,7 @@
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instruction.h"
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 #include "llvm/IR/LLVMContext.h"
 #include "llvm/IR/Value.h"
 #include "llvm/Support/Casting.h"
@@ -454,6 +455,22 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
     });
   }
 
+  // The compiler copies aggregates with intrinsics
+  if (const auto *Transfer =
+          llvm::dyn_cast<llvm::AnyMemTransferInst>(CallSite)) {
+    container_type Gen;
+    Gen.insert(Transfer->getRawDest());
+    populateWithMayAliases(Gen, CallSite);
+    Gen.insert(Transfer->getRawSource());
+    return lambdaFlow([From{Transfer->getRawSource()},
+                       Gen{std::move(Gen)}](d_t Source) -> container_type {
+      if (Source == From) {
+        return Gen;
+      }
+      return {Source};
+    });
+  }
+
   const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
   container_type Gen;
   container_type Leak;
-- 
2.43.0


From 3634b4ae1b63ffb7052726a10cb31b7c0673091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:48 +0000
Subject: [PATCH 044/101] fix: uninitialized-variables analysis maps parameters
 back from indirect calls

---
 .../IfdsIde/Problems/IFDSUninitializedVariables.cpp  | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 68e360b..f1ecacf 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -321,14 +321,10 @@ IFDSUninitializedVariables::getRetFlowFunction(
         //----------------------------------------------------------------------
         // Handle pointer/reference parameters
         //----------------------------------------------------------------------
-        if (Call->getCalledFunction()) {
-          unsigned I = 0;
-          for (const auto &Arg : Call->getCalledFunction()->args()) {
-            // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
-            if (&Arg == Source && Arg.getType()->isPointerTy()) {
-              Ret.insert(Call->getArgOperand(I));
-            }
-            I++;
+        // Note: The call may be indirect
+        for (const auto &Arg : Exit->getFunction()->args()) {
+          if (&Arg == Source && Arg.getType()->isPointerTy()) {
+            Ret.insert(Call->getArgOperand(Arg.getArgNo()));
           }
         }
 
-- 
2.43.0


From 6133f7b5fda192efe60386ef9af195382dd86ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:19 +0000
Subject: [PATCH 045/101] fix: mapFactsToCaller kills the zero fact when it
 shall not be propagated

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..95d9c83 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From 47a449b0b6e63f013036a21e9b10ed4ea3c5299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 046/101] fix: CallStringCTX::operator< could not be
 instantiated

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 2e835c6..098c4ff 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -65,7 +65,7 @@ public:
 
   friend bool operator<(const CallStringCTX<N, K> &Lhs,
                         const CallStringCTX<N, K> &Rhs) {
-    return Lhs.cs < Rhs.cs;
+    return Lhs.CallString < Rhs.CallString;
   }
 
   llvm::raw_ostream &print(llvm::raw_ostream &OS) const {
-- 
2.43.0


From 9b65adfb34f80238e842d14b07b050ff96546a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:17 +0000
Subject: [PATCH 047/101] fix: hash_value(LatticeDomain) does not find
 llvm::hash_value

---
 include/phasar/Domain/LatticeDomain.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Domain/LatticeDomain.h b/include/phasar/Domain/LatticeDomain.h
index b7b7f15..4169c22 100644
--- a/include/phasar/Domain/LatticeDomain.h
+++ b/include/phasar/Domain/LatticeDomain.h
@@ -87,6 +87,7 @@ struct LatticeDomain : public std::variant<Top, L, Bottom> {
     if (LD.isTop()) {
       return llvm::hash_value(INTPTR_MIN);
     }
+    using llvm::hash_value;
     return hash_value(std::get<L>(LD));
   }
 
-- 
2.43.0


From 2293b9bbfd96bb050e85da95b90c10887c66105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:17 +0000
Subject: [PATCH 048/101] fix: join of two equal file states is not bottom

---
 .../TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
index c7cad79..faa5960 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
@@ -37,7 +37,7 @@ template <> struct JoinLatticeTraits<CSTDFILEIOState> {
   }
   static constexpr CSTDFILEIOState join(CSTDFILEIOState L,
                                         CSTDFILEIOState R) noexcept {
-    if (L == top() || R == bottom()) {
+    if (L == R || L == top() || R == bottom()) {
       return R;
     }
     if (L == bottom() || R == top()) {
-- 
2.43.0


From 29be4cf45ca41186e41c02e50d8c29953f3a475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:17 +0000
Subject: [PATCH 049/101] fix: XTaint's EdgeDomain::join depends on the order
 of its operands

---
 .../ExtendedTaintAnalysis/EdgeDomain.cpp      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
index c7570f6..1384b7a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
@@ -94,30 +94,32 @@ EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
   }
 
   llvm::SmallPtrSet<const llvm::Instruction *, 2> Succs;
-  llvm::SmallVector<const llvm::Instruction *, 2> Intersection;
+  llvm::SmallPtrSet<const llvm::Instruction *, 2> Intersection;
+  bool FirstLeadsToSecond = false;
+  bool SecondLeadsToFirst = false;
   for (const auto *Succ : llvm::successors(Sani1->getParent())) {
-    if (&Succ->front() == Sani2) {
-      return Sani2; // result from previous join
-    }
+    FirstLeadsToSecond |= &Succ->front() == Sani2;
     Succs.insert(&Succ->front());
   }
   for (const auto *Succ : llvm::successors(Sani2->getParent())) {
-    if (&Succ->front() == Sani1) {
-      return Sani2; // result from previous join
-    }
+    SecondLeadsToFirst |= &Succ->front() == Sani1;
 
     if (Succs.count(&Succ->front())) {
-      Intersection.push_back(&Succ->front());
+      Intersection.insert(&Succ->front());
     }
   }
 
+  if (FirstLeadsToSecond != SecondLeadsToFirst) {
+    return FirstLeadsToSecond ? Sani2 : Sani1; // result from previous join
+  }
+
   if (Intersection.size() == 1) {
     // Move the sanitizer to the first common
     // successor instruction. This is safe, since
     // the (tainted) Values from the branches
     // cannot be used after the merge point,
     // because they do not dominate the uses there.
-    return Intersection.front();
+    return *Intersection.begin();
   }
 
   // the only situation where this is possible is a while-
-- 
2.43.0


From f485662cc31129300080ce9d3a1a374816d3352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:30 +0000
Subject: [PATCH 050/101] fix: XTaint's AllSanitized::compose keeps a function
 of the wrong source

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
index a071077..4b4af72 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
@@ -1,6 +1,7 @@
 #include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.h"
 
 #include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
+#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/GenEdgeFunction.h"
 
 namespace psr::XTaint {
 
@@ -32,7 +33,7 @@ AllSanitized::compose(EdgeFunctionRef<AllSanitized> This,
   case EdgeDomain::Kind::Sanitized:
     return This;
   default:
-    return SecondFunction;
+    return GenEdgeFunction{Res.getSanitizer()};
   }
 }
 
-- 
2.43.0


From 5c26737532e1a6563a73d9a79e303f286e4349db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:30 +0000
Subject: [PATCH 051/101] fix: XTaint's TransferEdgeFunction equality ignores
 the load

---
 .../Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
index 9e085a6..3b3464e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
@@ -34,7 +34,7 @@ auto TransferEdgeFunction::computeTarget(ByConstRef<l_t> Source) const -> l_t {
 
 bool operator==(const TransferEdgeFunction &LHS,
                 const TransferEdgeFunction &RHS) noexcept {
-  return LHS.To == RHS.To;
+  return LHS.Load == RHS.Load && LHS.To == RHS.To;
 }
 
 llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
-- 
2.43.0


From f24b5a60e58bce4bcaba05179208ed9c8b95c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 052/101] fix: composed XTaint constants lose that the value is
 sanitized

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h   | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h
index c246c57..f8b5e00 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h
@@ -94,14 +94,6 @@ public:
 } // namespace psr::XTaint
 
 namespace psr {
-template <> struct NonTopBotValue<XTaint::EdgeDomain> {
-  using type = const llvm::Instruction *;
-
-  static type unwrap(XTaint::EdgeDomain Value) noexcept {
-    return Value.getSanitizer();
-  }
-};
-
 template <> struct JoinLatticeTraits<XTaint::EdgeDomain> {
   static constexpr auto bottom() noexcept { return Bottom{}; }
   static constexpr auto top() noexcept { return Top{}; }
-- 
2.43.0


From 9a9fcf7e2a46cfa99bbd42f1338fd463699bd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:49 +0000
Subject: [PATCH 053/101] fix: createEquivalentGraphFrom does not accept
 lvalues

---
 include/phasar/Utils/DFAMinimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/DFAMinimizer.h b/include/phasar/Utils/DFAMinimizer.h
index 9c08a3b..fe79009 100644
--- a/include/phasar/Utils/DFAMinimizer.h
+++ b/include/phasar/Utils/DFAMinimizer.h
@@ -27,7 +27,7 @@ createEquivalentGraphFrom(GraphTy &&G, const llvm::IntEqClasses &Eq)
     requires is_graph<GraphTy>
 #endif
 {
-  using traits_t = GraphTraits<GraphTy>;
+  using traits_t = GraphTraits<std::decay_t<GraphTy>>;
   using vertex_t = typename traits_t::vertex_t;
 
   std::decay_t<GraphTy> Ret;
-- 
2.43.0


From 4dd256110eb328c1e2ce012c36c0932246b597d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:48 +0000
Subject: [PATCH 054/101] fix: paths from a seed are lost or never end in the
 exploded supergraph

---
 .../PathSensitivity/ExplodedSuperGraph.h      | 72 +++++++++++--------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..25813ba 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -56,6 +56,8 @@ public:
 
   struct Node {
     static constexpr size_t NoPredId = ~size_t(0);
+    /// Marks the node of a seed, i.e. a node where paths start
+    static constexpr size_t SeedPredId = ~size_t(1);
   };
 
   struct NodeData {
@@ -90,7 +92,16 @@ public:
     [[nodiscard]] NodeRef predecessor() const noexcept {
       assert(*this);
       auto PredId = Owner->NodeAdjOwner[NodeId].PredecessorIdx;
-      return PredId == Node::NoPredId ? NodeRef() : NodeRef(PredId, Owner);
+      if (PredId == Node::NoPredId || PredId == Node::SeedPredId) {
+        return NodeRef();
+      }
+      // The edge from a seed already has the seed's statement as source, so
+      // the seed itself does not contribute to the path
+      const auto &Pred = Owner->NodeAdjOwner[PredId];
+      if (Pred.PredecessorIdx == Node::SeedPredId && Pred.Neighbors.empty()) {
+        return NodeRef();
+      }
+      return NodeRef(PredId, Owner);
     }
 
     [[nodiscard]] bool hasNeighbors() const noexcept {
@@ -193,7 +204,7 @@ public:
   template <typename Container>
   void saveEdges(n_t Curr, d_t CurrNode, n_t Succ, const Container &SuccNodes,
                  ESGEdgeKind Kind) {
-    auto PredId = getNodeIdOrNull(Curr, std::move(CurrNode));
+    auto PredId = getOrCreateSeedNode(Curr, CurrNode);
 
     /// The Identity CTR-flow on the zero-value has no meaning at all regarding
     /// path sensitivity, so skip it
@@ -273,17 +284,24 @@ private:
     }
   };
 
-  [[nodiscard]] std::optional<size_t> getNodeIdOrNull(n_t Inst,
-                                                      d_t Fact) const {
-    auto It = FlowFactVertexMap.find(
-        std::make_pair(std::move(Inst), std::move(Fact)));
-    if (It != FlowFactVertexMap.end()) {
-      return It->second;
+  /// Only seeds have outgoing edges before any edge leads to them
+  [[nodiscard]] size_t getOrCreateSeedNode(n_t Inst, d_t Fact) {
+    auto [It, Inserted] = FlowFactVertexMap.try_emplace(
+        std::make_pair(Inst, Fact), Node::NoPredId);
+    if (Inserted) {
+      assert(NodeAdjOwner.size() == NodeDataOwner.size());
+      It->second = NodeDataOwner.size();
+
+      auto &NodData = NodeDataOwner.emplace_back();
+      auto &NodAdj = NodeAdjOwner.emplace_back();
+      NodData.Value = std::move(Fact);
+      NodData.Source = std::move(Inst);
+      NodAdj.PredecessorIdx = Node::SeedPredId;
     }
-    return std::nullopt;
+    return It->second;
   }
 
-  void saveEdge(std::optional<size_t> PredId, n_t Curr, d_t CurrNode, n_t Succ,
+  void saveEdge(size_t PredId, n_t Curr, d_t CurrNode, n_t Succ,
                 d_t SuccNode, bool MaySkipEdge) {
     auto [SuccVtxIt, Inserted] = FlowFactVertexMap.try_emplace(
         std::make_pair(Succ, SuccNode), Node::NoPredId);
@@ -293,7 +311,7 @@ private:
     auto &SuccVtxNode = SuccVtxIt->second;
 
     // NOLINTNEXTLINE(readability-identifier-naming)
-    auto makeNode = [this, PredId, Curr, &CurrNode, &SuccNode]() mutable {
+    auto makeNode = [this, PredId, Curr, &SuccNode]() mutable {
       assert(NodeAdjOwner.size() == NodeDataOwner.size());
       auto Ret = NodeDataOwner.size();
 
@@ -301,13 +319,7 @@ private:
       auto &NodAdj = NodeAdjOwner.emplace_back();
       NodData.Value = SuccNode;
 
-      if (!PredId) {
-        // For the seeds: Just that the FlowFactVertexMap is filled at that
-        // position...
-        FlowFactVertexMap[std::make_pair(Curr, CurrNode)] = Ret;
-      }
-
-      NodAdj.PredecessorIdx = PredId.value_or(Node::NoPredId);
+      NodAdj.PredecessorIdx = PredId;
       NodData.Source = Curr;
 
       return Ret;
@@ -316,7 +328,6 @@ private:
     if (MaySkipEdge && SuccNode == CurrNode) {
       // This CTR edge carries no information, so skip it.
       // We still want to create the destination node for the ret-FF later
-      assert(PredId);
       if (Inserted) {
         SuccVtxNode = makeNode();
         NodeAdjOwner.back().PredecessorIdx = Node::NoPredId;
@@ -324,18 +335,19 @@ private:
       return;
     }
 
-    if (PredId && NodeDataOwner[*PredId].Value == SuccNode &&
-        NodeDataOwner[*PredId].Source->getParent() == Succ->getParent() &&
+    if (NodeAdjOwner[PredId].PredecessorIdx != Node::SeedPredId &&
+        NodeDataOwner[PredId].Value == SuccNode &&
+        NodeDataOwner[PredId].Source->getParent() == Succ->getParent() &&
         SuccNode != ZeroValue) {
 
       // Identity edge, we don't need a new node; just assign the Pred here
       if (Inserted) {
-        SuccVtxNode = *PredId;
+        SuccVtxNode = PredId;
         return;
       }
 
       // This edge has already been here?!
-      if (*PredId == SuccVtxNode) {
+      if (PredId == SuccVtxNode) {
         return;
       }
     }
@@ -347,19 +359,17 @@ private:
 
     // Node has already been created, but MaySkipEdge above prevented us from
     // connecting with the pred. Now, we have a non-skippable edge to connect to
-    NodeRef SuccVtx(SuccVtxNode, this);
-    if (!SuccVtx.predecessor()) {
-      NodeAdjOwner[SuccVtxNode].PredecessorIdx =
-          PredId.value_or(Node::NoPredId);
+    if (NodeAdjOwner[SuccVtxNode].PredecessorIdx == Node::NoPredId) {
+      NodeAdjOwner[SuccVtxNode].PredecessorIdx = PredId;
       NodeDataOwner[SuccVtxNode].Source = Curr;
       return;
     }
 
     // This node has more than one predecessor; add a neighbor then
-    if (SuccVtx.predecessor().id() != PredId.value_or(Node::NoPredId) &&
-        llvm::none_of(SuccVtx.neighbors(),
-                      [Pred = PredId.value_or(Node::NoPredId)](NodeRef Nd) {
-                        return Nd.predecessor().id() == Pred;
+    if (NodeAdjOwner[SuccVtxNode].PredecessorIdx != PredId &&
+        llvm::none_of(NodeAdjOwner[SuccVtxNode].Neighbors,
+                      [this, PredId](size_t Nd) {
+                        return NodeAdjOwner[Nd].PredecessorIdx == PredId;
                       })) {
 
       auto NewNode = makeNode();
-- 
2.43.0


From 7d909b24ebca2d2b8b178cfecbbd2129dddb2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 055/101] fix: a node of the exploded supergraph mixes up the
 paths to its statements

---
 .../PathSensitivity/ExplodedSuperGraph.h      | 26 ++++++++++++++-----
 .../PathSensitivityManagerMixin.h             |  6 +++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index 25813ba..9e905ad 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -63,6 +63,7 @@ public:
   struct NodeData {
     d_t Value{};
     n_t Source{};
+    n_t Target{};
   };
 
   struct NodeAdj {
@@ -89,6 +90,16 @@ public:
       return Owner->NodeDataOwner[NodeId].Source;
     }
 
+    /// Whether this node, being a neighbor of another one, leads to Inst. A node
+    /// can stand for several statements of a basic block; its neighbors lead
+    /// only to those of them that do not come before the neighbor's target.
+    [[nodiscard]] bool leadsTo(ByConstRef<n_t> Inst) const {
+      assert(*this);
+      const auto &Target = Owner->NodeDataOwner[NodeId].Target;
+      return Target == Inst || Target->getParent() != Inst->getParent() ||
+             Target->comesBefore(Inst);
+    }
+
     [[nodiscard]] NodeRef predecessor() const noexcept {
       assert(*this);
       auto PredId = Owner->NodeAdjOwner[NodeId].PredecessorIdx;
@@ -311,7 +322,7 @@ private:
     auto &SuccVtxNode = SuccVtxIt->second;
 
     // NOLINTNEXTLINE(readability-identifier-naming)
-    auto makeNode = [this, PredId, Curr, &SuccNode]() mutable {
+    auto makeNode = [this, PredId, Curr, Succ, &SuccNode]() mutable {
       assert(NodeAdjOwner.size() == NodeDataOwner.size());
       auto Ret = NodeDataOwner.size();
 
@@ -321,6 +332,7 @@ private:
 
       NodAdj.PredecessorIdx = PredId;
       NodData.Source = Curr;
+      NodData.Target = Succ;
 
       return Ret;
     };
@@ -366,11 +378,13 @@ private:
     }
 
     // This node has more than one predecessor; add a neighbor then
-    if (NodeAdjOwner[SuccVtxNode].PredecessorIdx != PredId &&
-        llvm::none_of(NodeAdjOwner[SuccVtxNode].Neighbors,
-                      [this, PredId](size_t Nd) {
-                        return NodeAdjOwner[Nd].PredecessorIdx == PredId;
-                      })) {
+    // NOLINTNEXTLINE(readability-identifier-naming)
+    auto isFromHere = [this, PredId, Curr](size_t Nd) {
+      return NodeAdjOwner[Nd].PredecessorIdx == PredId &&
+             NodeDataOwner[Nd].Source == Curr;
+    };
+    if (!isFromHere(SuccVtxNode) &&
+        llvm::none_of(NodeAdjOwner[SuccVtxNode].Neighbors, isFromHere)) {
 
       auto NewNode = makeNode();
       NodeAdjOwner[SuccVtxNode].Neighbors.push_back(NewNode);
diff --git a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
index 6a986d9..0c9645d 100644
--- a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
+++ b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
@@ -264,6 +264,9 @@ private:
 
     for (auto Nxt : Vtx.neighbors()) {
       assert(Nxt != nullptr);
+      if (!Nxt.leadsTo(Prev.source())) {
+        continue;
+      }
       if (PFilter.IsErrorneousTransition(Prev, Nxt)) {
         continue;
       }
@@ -320,6 +323,9 @@ private:
     graph_traits_t::node(RetDag, Ret).push_back(QueryInst);
 
     for (auto NB : Vtx.neighbors()) {
+      if (!NB.leadsTo(QueryInst)) {
+        continue;
+      }
       auto NBNode = pathsToImplLA(NB, Ctx, RetDag, PFilter);
       if (NBNode != graph_traits_t::Invalid) {
         graph_traits_t::addEdge(RetDag, Ret, NBNode);
-- 
2.43.0


From f888389291f9efb7970c3358ad50c9426f3f4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 056/101] fix: node of a function without other statements is
 merged into the caller

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index 9e905ad..a3cf5f2 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -349,6 +349,7 @@ private:
 
     if (NodeAdjOwner[PredId].PredecessorIdx != Node::SeedPredId &&
         NodeDataOwner[PredId].Value == SuccNode &&
+        Curr->getParent() == Succ->getParent() &&
         NodeDataOwner[PredId].Source->getParent() == Succ->getParent() &&
         SuccNode != ZeroValue) {
 
-- 
2.43.0


From 8498b6f358baff939c4a5ef3a6242f09657ef7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 057/101] fix: branch with equal targets constrains the path to
 the true edge

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 9ea5c94..fc0675e 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -26,6 +26,10 @@ auto LLVMPathConstraints::internalGetConstraintAndVariablesFromEdge(
   if (!BI || !BI->isConditional()) {
     return std::nullopt;
   }
+  if (BI->getSuccessor(0) == BI->getSuccessor(1)) {
+    // The branch goes to the same target regardless of its condition
+    return std::nullopt;
+  }
 
   if (IgnoreDebugInstructions) {
     while (const auto *Prev = To->getPrevNonDebugInstruction(false)) {
-- 
2.43.0


From 8b54ed0d228e2882c1c53cc26ecd0d6fc96cace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 058/101] fix: false edge of a branch on a bool variable gets
 the constraint of the true edge

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index fc0675e..967a1ca 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -218,6 +218,10 @@ auto LLVMPathConstraints::handleCondBrInst(const llvm::BranchInst *Br,
               llvm::dyn_cast<llvm::LoadInst>(Trunc->getOperand(0))) {
         auto Ret = getLoadInstAsZ3(FromLoad);
         Ret.Constraint = (Ret.Constraint % 2 == 1);
+        if (IfTrue && GetFirstInst(IfTrue) == Succ) {
+          return Ret;
+        }
+        Ret.Constraint = !Ret.Constraint;
         return Ret;
       }
     }
-- 
2.43.0


From 83e8d14a3082d57ae23a09bc1db7287f4c1470d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 059/101] fix: path constraints compare unsigned values as
 signed

---
 .../PathSensitivity/LLVMPathConstraints.cpp   | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 967a1ca..b853dab 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -3,6 +3,8 @@
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 
+#include "llvm/ADT/APInt.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/Demangle/Demangle.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/IntrinsicInst.h"
@@ -234,6 +236,21 @@ auto LLVMPathConstraints::handleCondBrInst(const llvm::BranchInst *Br,
       llvmIRToString(Br) + "'!\n");
 }
 
+/// Interprets the (signed) value Ex of type Ty as unsigned integer
+static z3::expr toUnsigned(const z3::expr &Ex, const llvm::Type *Ty) {
+  if (Ex.is_bv()) {
+    return z3::bv2int(Ex, false);
+  }
+  if (!Ex.is_int() || !Ty->isIntegerTy()) {
+    return Ex;
+  }
+  llvm::SmallString<32> TwoPowWidth;
+  llvm::APInt::getOneBitSet(Ty->getIntegerBitWidth() + 1,
+                            Ty->getIntegerBitWidth())
+      .toStringUnsigned(TwoPowWidth);
+  return z3::ite(Ex < 0, Ex + Ex.ctx().int_val(TwoPowWidth.c_str()), Ex);
+}
+
 auto LLVMPathConstraints::handleCmpInst(const llvm::CmpInst *Cmp)
     -> ConstraintAndVariables {
   // llvm::outs() << "handleCmpInst\n";
@@ -276,6 +293,10 @@ auto LLVMPathConstraints::handleCmpInst(const llvm::CmpInst *Cmp)
   auto RhsZ3Expr = HandleOperand(Rhs);
   LhsZ3Expr.Variables.append(RhsZ3Expr.Variables);
 
+  auto AsUnsigned = [Ty = Lhs->getType()](const z3::expr &Ex) {
+    return toUnsigned(Ex, Ty);
+  };
+
   switch (Cmp->getPredicate()) {
     // Opcode            U L G E    Intuitive operation
   case llvm::CmpInst::Predicate::FCMP_FALSE: ///< 0 0 0 0    Always false
@@ -349,16 +370,20 @@ auto LLVMPathConstraints::handleCmpInst(const llvm::CmpInst *Cmp)
     LhsZ3Expr.Constraint = LhsZ3Expr.Constraint != RhsZ3Expr.Constraint;
     break;
   case llvm::CmpInst::Predicate::ICMP_UGT: ///< unsigned greater than
-    LhsZ3Expr.Constraint = LhsZ3Expr.Constraint > RhsZ3Expr.Constraint;
+    LhsZ3Expr.Constraint =
+        AsUnsigned(LhsZ3Expr.Constraint) > AsUnsigned(RhsZ3Expr.Constraint);
     break;
   case llvm::CmpInst::Predicate::ICMP_UGE: ///< unsigned greater or equal
-    LhsZ3Expr.Constraint = LhsZ3Expr.Constraint >= RhsZ3Expr.Constraint;
+    LhsZ3Expr.Constraint =
+        AsUnsigned(LhsZ3Expr.Constraint) >= AsUnsigned(RhsZ3Expr.Constraint);
     break;
   case llvm::CmpInst::Predicate::ICMP_ULT: ///< unsigned less than
-    LhsZ3Expr.Constraint = LhsZ3Expr.Constraint < RhsZ3Expr.Constraint;
+    LhsZ3Expr.Constraint =
+        AsUnsigned(LhsZ3Expr.Constraint) < AsUnsigned(RhsZ3Expr.Constraint);
     break;
   case llvm::CmpInst::Predicate::ICMP_ULE: ///< unsigned less or equal
-    LhsZ3Expr.Constraint = LhsZ3Expr.Constraint <= RhsZ3Expr.Constraint;
+    LhsZ3Expr.Constraint =
+        AsUnsigned(LhsZ3Expr.Constraint) <= AsUnsigned(RhsZ3Expr.Constraint);
     break;
   case llvm::CmpInst::Predicate::ICMP_SGT: ///< signed greater than
     LhsZ3Expr.Constraint = LhsZ3Expr.Constraint > RhsZ3Expr.Constraint;
-- 
2.43.0


From b0bd20b13968355c560f35ed14f887d238f76c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 060/101] fix: path constraints round signed divisions in the
 wrong direction

---
 .../PathSensitivity/LLVMPathConstraints.cpp   | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index b853dab..49510c5 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -405,6 +405,15 @@ auto LLVMPathConstraints::handleCmpInst(const llvm::CmpInst *Cmp)
   return LhsZ3Expr;
 }
 
+/// Z3's integer division rounds such that the remainder is never negative,
+/// whereas sdiv and srem round towards zero.
+static z3::expr truncatingDiv(const z3::expr &Lhs, const z3::expr &Rhs) {
+  if (!Lhs.is_int() || !Rhs.is_int()) {
+    return Lhs / Rhs;
+  }
+  return z3::ite(Lhs >= 0, Lhs / Rhs, -((-Lhs) / Rhs));
+}
+
 auto LLVMPathConstraints::handleBinaryOperator(
     const llvm::BinaryOperator *BinOp) -> ConstraintAndVariables {
   auto Search = Z3Expr.find(BinOp);
@@ -459,13 +468,21 @@ auto LLVMPathConstraints::handleBinaryOperator(
   case llvm::Instruction::BinaryOps::FMul:
     LhsZ3Expr.Constraint = LhsZ3Expr.Constraint * RhsZ3Expr.Constraint;
     break;
-  case llvm::Instruction::BinaryOps::UDiv:
   case llvm::Instruction::BinaryOps::SDiv:
+    LhsZ3Expr.Constraint =
+        truncatingDiv(LhsZ3Expr.Constraint, RhsZ3Expr.Constraint);
+    break;
+  case llvm::Instruction::BinaryOps::UDiv:
   case llvm::Instruction::BinaryOps::FDiv:
     LhsZ3Expr.Constraint = LhsZ3Expr.Constraint / RhsZ3Expr.Constraint;
     break;
-  case llvm::Instruction::BinaryOps::URem:
   case llvm::Instruction::BinaryOps::SRem:
+    LhsZ3Expr.Constraint =
+        LhsZ3Expr.Constraint -
+        RhsZ3Expr.Constraint *
+            truncatingDiv(LhsZ3Expr.Constraint, RhsZ3Expr.Constraint);
+    break;
+  case llvm::Instruction::BinaryOps::URem:
   case llvm::Instruction::BinaryOps::FRem:
     LhsZ3Expr.Constraint = z3::rem(LhsZ3Expr.Constraint, RhsZ3Expr.Constraint);
     break;
-- 
2.43.0


From 81ae43a6757d0f18a6a8c86c36dacae57b74552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 061/101] fix: path constraints identify different variables of
 the same name

---
 .../PathSensitivity/LLVMPathConstraints.h     |  9 ++++
 .../PathSensitivity/LLVMPathConstraints.cpp   | 48 +++++++++++++++----
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h b/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h
index 887f4f5..e9039a0 100644
--- a/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h
+++ b/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h
@@ -13,10 +13,13 @@
 #include "phasar/Utils/MaybeUniquePtr.h"
 
 #include "llvm/ADT/SmallVector.h"
+#include "llvm/ADT/StringMap.h"
+#include "llvm/ADT/StringRef.h"
 
 #include "z3++.h"
 
 #include <optional>
+#include <string>
 
 namespace llvm {
 class Value;
@@ -80,6 +83,11 @@ private:
   [[nodiscard]] ConstraintAndVariables
   handleBinaryOperator(const llvm::BinaryOperator *BinOp);
 
+  /// Distinct values of a function must not share a Z3 constant, even if they
+  /// have the same name
+  [[nodiscard]] std::string getUniqueName(const llvm::Value *V,
+                                          llvm::StringRef Name);
+
   [[nodiscard]] ConstraintAndVariables getLiteralAsZ3(const llvm::Value *V);
 
   [[nodiscard]] ConstraintAndVariables
@@ -90,6 +98,7 @@ private:
 
   MaybeUniquePtr<z3::context> Z3Ctx;
   std::unordered_map<const llvm::Value *, ConstraintAndVariables> Z3Expr;
+  llvm::StringMap<llvm::SmallVector<const llvm::Value *, 1>> NameOwners;
   bool IgnoreDebugInstructions;
 };
 } // namespace psr
diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 49510c5..46c26ce 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -4,6 +4,7 @@
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 
 #include "llvm/ADT/APInt.h"
+#include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/SmallString.h"
 #include "llvm/Demangle/Demangle.h"
 #include "llvm/IR/Instructions.h"
@@ -544,13 +545,29 @@ static llvm::StringRef getVarName(const llvm::AllocaInst *A) {
   return "";
 }
 
+std::string LLVMPathConstraints::getUniqueName(const llvm::Value *V,
+                                               llvm::StringRef Name) {
+  auto MayShareName = [V, Name](const llvm::Value *Other) {
+    /// Variables of different functions are identified by their name
+    const auto *A1 = llvm::dyn_cast<llvm::AllocaInst>(V);
+    const auto *A2 = llvm::dyn_cast<llvm::AllocaInst>(Other);
+    return A1 && A2 && !Name.empty() && A1->getFunction() != A2->getFunction();
+  };
+  std::string Ret = Name.str();
+  for (size_t Idx = 1; !llvm::all_of(NameOwners[Ret], MayShareName); ++Idx) {
+    Ret = (Name + "#" + llvm::Twine(Idx)).str();
+  }
+  NameOwners[Ret].push_back(V);
+  return Ret;
+}
+
 auto LLVMPathConstraints::getAllocaInstAsZ3(const llvm::AllocaInst *Alloca)
     -> ConstraintAndVariables {
   auto Search = Z3Expr.find(Alloca);
   if (Search != Z3Expr.end()) {
     return Search->second;
   }
-  std::string Name = getVarName(Alloca).str();
+  std::string Name = getUniqueName(Alloca, getVarName(Alloca));
   const auto *Ty = Alloca->getAllocatedType();
 
   if (const auto *IntTy = llvm::dyn_cast<llvm::IntegerType>(Ty)) {
@@ -624,8 +641,13 @@ auto LLVMPathConstraints::getLoadInstAsZ3(const llvm::LoadInst *Load)
 
 auto LLVMPathConstraints::getGEPInstAsZ3(const llvm::GetElementPtrInst *GEP)
     -> ConstraintAndVariables {
-  std::string Name =
-      (GEP->hasName()) ? GEP->getName().str() : "gep" + psr::getMetaDataID(GEP);
+  auto Search = Z3Expr.find(GEP);
+  if (Search != Z3Expr.end()) {
+    return Search->second;
+  }
+  std::string Name = getUniqueName(
+      GEP, GEP->hasName() ? GEP->getName().str()
+                          : "gep" + psr::getMetaDataID(GEP));
 
   /// TODO: Unify different GEPs of same memory locations
   const auto *Ty = GEP->getResultElementType();
@@ -684,22 +706,32 @@ auto LLVMPathConstraints::getLiteralAsZ3(const llvm::Value *V)
 
 auto LLVMPathConstraints::getFunctionCallAsZ3(const llvm::CallBase *CallSite)
     -> ConstraintAndVariables {
+  auto Search = Z3Expr.find(CallSite);
+  if (Search != Z3Expr.end()) {
+    return Search->second;
+  }
   if (const auto *Callee = CallSite->getCalledFunction()) {
     if (Callee->hasName()) {
-      auto DemangledName = llvm::demangle(Callee->getName().str());
+      auto Store = [this, CallSite](const z3::expr &Ex) {
+        return Z3Expr
+            .try_emplace(CallSite, ConstraintAndVariables{Ex, {CallSite}})
+            .first->second;
+      };
+      auto Name =
+          getUniqueName(CallSite, llvm::demangle(Callee->getName().str()));
       const auto *ReturnTy = Callee->getReturnType();
       if (ReturnTy->isFloatingPointTy()) {
-        return {Z3Ctx->real_const(DemangledName.c_str()), {Callee}};
+        return Store(Z3Ctx->real_const(Name.c_str()));
       }
       if (ReturnTy->isIntegerTy()) {
         // case of bool
         if (ReturnTy->getIntegerBitWidth() == 1) {
-          return {Z3Ctx->bool_const(DemangledName.c_str()), {Callee}};
+          return Store(Z3Ctx->bool_const(Name.c_str()));
         }
-        return {Z3Ctx->int_const(DemangledName.c_str()), {Callee}};
+        return Store(Z3Ctx->int_const(Name.c_str()));
       }
       if (ReturnTy->isPointerTy()) {
-        return {Z3Ctx->bv_const(DemangledName.c_str(), 64), {Callee}};
+        return Store(Z3Ctx->bv_const(Name.c_str(), 64));
       }
     }
   }
-- 
2.43.0


From 95d5830495cc18c3e95be9447a72a4562faf0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 062/101] fix: paths that end at a return statement inside a
 call are not reported

---
 .../PathSensitivity/Z3BasedPathSensitivityManager.cpp  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
index 801a8e1..f94d7b8 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp
@@ -245,8 +245,10 @@ public:
       return false;
     }
 
-    if (Prev && (llvm::isa<llvm::ReturnInst>(Prev) ||
-                 llvm::isa<llvm::ResumeInst>(Prev))) {
+    /// Nothing to do, if the path already contains the FinalInst
+    if (Prev && Prev != FinalInst &&
+        (llvm::isa<llvm::ReturnInst>(Prev) ||
+         llvm::isa<llvm::ResumeInst>(Prev))) {
       if (!emptyCS() && !isDirectSuccessorOf(FinalInst, popCS())) {
         /// Invalid return
         return false;
@@ -397,7 +399,9 @@ public:
   }
 
   bool saveFinalEdge(n_t Prev, n_t FinalInst) {
-    saveEdge(Prev, FinalInst);
+    if (Prev != FinalInst) {
+      saveEdge(Prev, FinalInst);
+    }
     NeedSolverInvocation = true;
     return isValid();
   }
-- 
2.43.0


From 6913f6fc480f9b6ed19273c7cb25d67947cc8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:38 +0000
Subject: [PATCH 063/101] fix: IDESolver computes values for facts seeded
 inside of functions

Initial seeds at statements that are no method-start points (e.g. the
sources of the extended taint analysis) have only been considered when
propagating values into callees. In the function of the seed, the value of
the seed was never applied, so all facts stayed at top there. At calls,
the values of other facts were treated as if they were seeds.
---
 .../DataFlow/IfdsIde/Solver/IDESolver.h       | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 03ded86..fae84a5 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -587,8 +587,11 @@ protected:
   }
 
   void propagateValueAtStart(const std::pair<n_t, d_t> NAndD, n_t Stmt) {
+    propagateValueAtStart(NAndD.second, Stmt, val(Stmt, NAndD.second));
+  }
+
+  void propagateValueAtStart(d_t Fact, n_t Stmt, const l_t &Val) {
     PAMM_GET_INSTANCE;
-    d_t Fact = NAndD.second;
     f_t Func = ICF->getFunctionOf(Stmt);
     for (const n_t CallSite : ICF->getCallsFromWithin(Func)) {
       auto LookupResults = JumpFn->forwardLookup(Fact, CallSite);
@@ -599,8 +602,6 @@ protected:
         auto Entry = LookupResults->get()[I];
         d_t dPrime = Entry.first;
         auto fPrime = Entry.second;
-        n_t SP = Stmt;
-        l_t Val = val(SP, Fact);
         INC_COUNTER("Value Propagation", 1, Full);
         propagateValue(CallSite, dPrime, fPrime.computeTarget(Val));
       }
@@ -745,11 +746,10 @@ protected:
   // should be made a callable at some point
   void valuePropagationTask(std::pair<n_t, d_t> NAndD) {
     n_t n = NAndD.first;
-    // our initial seeds are not necessarily method-start points but here they
-    // should be treated as such the same also for unbalanced return sites in
-    // an unbalanced problem
-    if (ICF->isStartPoint(n) || Seeds.containsInitialSeedsFor(n) ||
-        UnbalancedRetSites.count(n)) {
+    // our initial seeds are not necessarily method-start points; they are
+    // treated as such in submitInitialValues(). The same also for unbalanced
+    // return sites in an unbalanced problem
+    if (ICF->isStartPoint(n) || UnbalancedRetSites.count(n)) {
       // FIXME: is currently not executed for main!!!
       // initial seeds are set in the global constructor, and main is also not
       // officially called by any other function
@@ -763,7 +763,27 @@ protected:
   // should be made a callable at some point
   void valueComputationTask(const std::vector<n_t> &Values) {
     PAMM_GET_INSTANCE;
+    // The seeds that are no method-start points. Note: We must not use val()
+    // for them, as it also holds the values from elsewhere
+    std::map<f_t, std::vector<std::pair<d_t, l_t>>> InnerSeeds;
+    for (const auto &[Seed, Facts] : Seeds.getSeeds()) {
+      if (!ICF->isStartPoint(Seed)) {
+        auto &FunSeeds = InnerSeeds[ICF->getFunctionOf(Seed)];
+        FunSeeds.insert(FunSeeds.end(), Facts.begin(), Facts.end());
+      }
+    }
+
     for (n_t n : Values) {
+      if (auto It = InnerSeeds.find(ICF->getFunctionOf(n));
+          It != InnerSeeds.end()) {
+        for (const auto &[dPrime, SeedVal] : It->second) {
+          for (const auto &[d, fPrime] :
+               JumpFn->lookupByTarget(n).row(dPrime)) {
+            setVal(n, d,
+                   IDEProblem.join(val(n, d), fPrime.computeTarget(SeedVal)));
+          }
+        }
+      }
       for (n_t SP : ICF->getStartPointsOf(ICF->getFunctionOf(n))) {
         using TableCell = typename Table<d_t, d_t, EdgeFunction<l_t>>::Cell;
         Table<d_t, d_t, EdgeFunction<l_t>> &LookupByTarget =
@@ -814,6 +834,11 @@ protected:
         auto NewVal = IDEProblem.join(Value, std::move(OldVal));
         setVal(StartPoint, Fact, std::move(NewVal));
 
+        if (!ICF->isStartPoint(StartPoint) &&
+            Seeds.containsInitialSeedsFor(StartPoint)) {
+          propagateValueAtStart(Fact, StartPoint, Value);
+        }
+
         std::pair<n_t, d_t> SuperGraphNode(StartPoint, Fact);
         valuePropagationTask(std::move(SuperGraphNode));
       }
-- 
2.43.0


From 733c3dd0d336d2c86a8465b9a0adecdd82d906cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:07 +0000
Subject: [PATCH 064/101] fix: LLVMTaintConfig::generatesValuesAt agrees with
 forAllGeneratedValuesAt

The actual arguments of calls with a known callee are not re-generated.
---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index c7465cd..7d8242e 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -408,9 +408,9 @@ bool LLVMTaintConfig::generatesValuesAtImpl(
   }
 
   return SourceValues.count(Inst) ||
-         llvm::any_of(Inst->operand_values(), [this](const auto *Op) {
+         (!Callee && llvm::any_of(Inst->operand_values(), [this](const auto *Op) {
            return SourceValues.count(Op);
-         });
+         }));
 }
 
 bool LLVMTaintConfig::mayLeakValuesAtImpl(const llvm::Instruction *Inst,
-- 
2.43.0


From eb64fcfc45d5a58d1bcc055e5b218fb6d1b79472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:07 +0000
Subject: [PATCH 065/101] fix: LLVMTaintConfig tags only calls for the return
 value of a function

All other users, e.g. calls that receive the function as an argument,
have been tagged, too, whereas calls through a bitcast have not.
---
 .../TaintConfig/LLVMTaintConfig.cpp           | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 7d8242e..5e26778 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -21,6 +21,7 @@
 #include "llvm/IR/Function.h"
 #include "llvm/IR/InstIterator.h"
 #include "llvm/IR/IntrinsicInst.h"
+#include "llvm/IR/Operator.h"
 
 #include <string>
 
@@ -60,6 +61,23 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
   return FnDefs;
 }
 
+/// Calls Handler for all calls of Fun. Using Fun in another way, e.g. as an
+/// argument of a call, does not call it
+static void
+forAllCallsOf(const llvm::Value *Fun,
+              llvm::function_ref<void(const llvm::CallBase *)> Handler) {
+  for (const auto &Use : Fun->uses()) {
+    if (const auto *Call = llvm::dyn_cast<llvm::CallBase>(Use.getUser())) {
+      if (Call->isCallee(&Use)) {
+        Handler(Call);
+      }
+    } else if (llvm::isa<llvm::BitCastOperator>(Use.getUser()) &&
+               llvm::isa<llvm::Constant>(Use.getUser())) {
+      forAllCallsOf(Use.getUser(), Handler);
+    }
+  }
+}
+
 void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
                                       const TaintConfigData &Config) {
   for (const auto &FunDesc : Config.Functions) {
@@ -115,9 +133,9 @@ void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
       addTaintCategory(Fun->getArg(Idx), TaintCategory::Sanitizer);
     }
     // handle a function's return value
-    for (const auto &User : Fun->users()) {
-      addTaintCategory(User, FunDesc.ReturnCat);
-    }
+    forAllCallsOf(Fun, [&](const llvm::CallBase *Call) {
+      addTaintCategory(Call, FunDesc.ReturnCat);
+    });
   }
 }
 
@@ -210,11 +228,9 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
             // get annotation string an remove prefix "psr."
             auto AnnotationStr = A.getAnnotationString().substr(4);
             const auto *Fun = A.getFunction();
-            for (const auto &User : Fun->users()) {
-              if (llvm::isa<llvm::CallBase>(User)) {
-                addTaintCategory(User, AnnotationStr);
-              }
-            }
+            forAllCallsOf(Fun, [&](const llvm::CallBase *Call) {
+              addTaintCategory(Call, AnnotationStr);
+            });
           }
         }
       }
-- 
2.43.0


From 4f9da5d7a3c02882498298892434273a396086bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:07 +0000
Subject: [PATCH 066/101] fix: taint configurations may name functions that
 only debug info knows

E.g., if all calls are inlined, the function is removed, but its
subprogram is still there, which led to a null-pointer dereference.
---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 5e26778..fb1aeba 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -38,7 +38,10 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
     if (SubProgram->isDistinct() && !SubProgram->getLinkageName().empty() &&
         (SubProgram->getName() == Name ||
          SubProgram->getLinkageName() == Name)) {
-      FnDefs.push_back(IRDB.getFunction(SubProgram->getLinkageName()));
+      // The function may have been optimized out
+      if (const auto *F = IRDB.getFunction(SubProgram->getLinkageName())) {
+        FnDefs.push_back(F);
+      }
     }
   }
   DIF.reset();
-- 
2.43.0


From 306572ca76d4160e84fc3a26dcc335b0a18848e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:07 +0000
Subject: [PATCH 067/101] fix: taint configurations tag the members they name

With several variables in a configuration, the name of the first one that
belongs to a struct was used for all structs and together with the
categories of all other variables. Members of classes were never found.
---
 .../TaintConfig/LLVMTaintConfig.cpp           | 47 ++++++++++++-------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index fb1aeba..44ac315 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -16,6 +16,7 @@
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 #include "phasar/Utils/Logger.h"
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/BinaryFormat/Dwarf.h"
 #include "llvm/IR/DebugInfo.h"
 #include "llvm/IR/Function.h"
@@ -23,6 +24,7 @@
 #include "llvm/IR/IntrinsicInst.h"
 #include "llvm/IR/Operator.h"
 
+#include <set>
 #include <string>
 
 namespace psr {
@@ -142,6 +144,23 @@ void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
   }
 }
 
+/// Whether Ty is the IR-type of a struct or class with the given source name,
+/// e.g. "struct.ns::Name" or "class.Name.42"
+static bool isStructNamed(const llvm::StructType *Ty, llvm::StringRef Name) {
+  if (!Ty->hasName()) {
+    return false;
+  }
+  auto TyName = Ty->getName();
+  if (!TyName.consume_front("struct.") && !TyName.consume_front("class.")) {
+    return false;
+  }
+  auto [Prefix, Suffix] = TyName.rsplit('.');
+  if (!Suffix.empty() && llvm::all_of(Suffix, llvm::isDigit)) {
+    TyName = Prefix;
+  }
+  return TyName.consume_back(Name) && (TyName.empty() || TyName.endswith("::"));
+}
+
 LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
                                  const TaintConfigData &Config) {
   // handle functions
@@ -149,29 +168,21 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
 
   // handle variables
   // scope can be a function name or a struct.
-  std::unordered_map<const llvm::Type *, const std::string> StructConfigMap;
-
-  // read all struct types from config
-  for (const auto &VarDesc : Config.Variables) {
+  std::set<llvm::StringRef> StructNames;
+  {
     llvm::DebugInfoFinder DIF;
-    const auto *M = Code.getModule();
-
-    DIF.processModule(*M);
+    DIF.processModule(*Code.getModule());
     for (const auto &Ty : DIF.types()) {
-      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type &&
-          Ty->getName().equals(VarDesc.Scope)) {
-        for (const auto &LlvmStructTy : M->getIdentifiedStructTypes()) {
-          StructConfigMap.insert(
-              std::pair<const llvm::Type *, const std::string>(LlvmStructTy,
-                                                               VarDesc.Name));
-        }
+      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type ||
+          Ty->getTag() == llvm::dwarf::DW_TAG_class_type) {
+        StructNames.insert(Ty->getName());
       }
     }
-    DIF.reset();
   }
   // add corresponding Allocas or getElementPtr instructions to the taint
   // category
   for (const auto &VarDesc : Config.Variables) {
+    const bool IsMember = StructNames.count(VarDesc.Scope);
     for (const auto &Fun : Code.getAllFunctions()) {
       for (const auto &I : llvm::instructions(Fun)) {
         if (const auto *DbgDeclare = llvm::dyn_cast<llvm::DbgDeclareInst>(&I)) {
@@ -181,13 +192,13 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
               LocalVar->getLine() == VarDesc.Line) {
             addTaintCategory(DbgDeclare->getAddress(), VarDesc.Cat);
           }
-        } else if (!StructConfigMap.empty()) {
+        } else if (IsMember) {
           // Ignorning line numbers for getElementPtr instructions
           if (const auto *Gep = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
             const auto *StType =
                 llvm::dyn_cast<llvm::StructType>(Gep->getSourceElementType());
-            if (StType && StructConfigMap.count(StType)) {
-              auto VarName = StructConfigMap.at(StType);
+            if (StType && isStructNamed(StType, VarDesc.Scope)) {
+              llvm::StringRef VarName = VarDesc.Name;
               // using substr to cover the edge case in which same variable
               // name is present as a local variable and also as a struct
               // member variable. (Ex. JsonConfig/fun_member_02.cpp)
-- 
2.43.0


From 90ee0558a5c14ce8526a08d8b41e4ee9be987d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:38 +0000
Subject: [PATCH 068/101] fix: LLVMTaintConfig does not crash on annotated
 global variables

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 44ac315..31dd6cb 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -242,6 +242,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
             // get annotation string an remove prefix "psr."
             auto AnnotationStr = A.getAnnotationString().substr(4);
             const auto *Fun = A.getFunction();
+            if (!Fun) {
+              // Global variables may be annotated as well
+              continue;
+            }
             forAllCallsOf(Fun, [&](const llvm::CallBase *Call) {
               addTaintCategory(Call, AnnotationStr);
             });
-- 
2.43.0


From 7e30a3ef7f7d366ce0cb963c9cf8e38a644c66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:38 +0000
Subject: [PATCH 069/101] fix: annotations of char variables are found

For them, there is no bitcast to i8*, which led to an assertion failure
or, in release builds, to tagging the null pointer.
---
 lib/PhasarLLVM/Utils/Annotation.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/Annotation.cpp b/lib/PhasarLLVM/Utils/Annotation.cpp
index 07b5127..47f116f 100644
--- a/lib/PhasarLLVM/Utils/Annotation.cpp
+++ b/lib/PhasarLLVM/Utils/Annotation.cpp
@@ -75,20 +75,21 @@ llvm::StringRef VarAnnotation::retrieveString(unsigned Idx) const {
 const llvm::Value *VarAnnotation::getOriginalValueOrOriginalArg(
     const llvm::Value *AnnotatedValue) {
 
+  const auto *Value = AnnotatedValue;
+  // There is no cast, if the value already is an i8*
   if (const auto *BitCast =
           llvm::dyn_cast<llvm::BitCastOperator>(AnnotatedValue)) {
     // this may be already the original value
-    const auto *Value = BitCast->getOperand(0);
-    // check if that values originates from a formal parameter
-    for (const auto &User : Value->users()) {
-      if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
-          Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
-        return Store->getValueOperand();
-      }
+    Value = BitCast->getOperand(0);
+  }
+  // check if that values originates from a formal parameter
+  for (const auto &User : Value->users()) {
+    if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
+        Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
+      return Store->getValueOperand();
     }
-    return Value;
   }
-  return nullptr;
+  return Value;
 }
 
 GlobalAnnotation::GlobalAnnotation(
-- 
2.43.0


From 2205f40372b0fe6ff6e4306e7041d633aeef6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:38 +0000
Subject: [PATCH 070/101] fix: LLVMTaintConfig ignores annotations that are not
 meant for it

Only annotations with the prefix "psr." denote taint categories. Any other
prefix of four characters has been accepted as well.
---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 31dd6cb..2e7de35 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -222,7 +222,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
               llvm::dyn_cast<llvm::CallBase>(VarAnnotationUser)) {
         VarAnnotation A(AnnotationCall);
         // get annotation string an remove prefix "psr."
-        auto AnnotationStr = A.getAnnotationString().substr(4);
+        auto AnnotationStr = A.getAnnotationString();
+        if (!AnnotationStr.consume_front("psr.")) {
+          continue;
+        }
         const auto *Val =
             VarAnnotation::getOriginalValueOrOriginalArg(A.getValue());
         assert(Val && "Could not retrieve original value!");
@@ -240,7 +243,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
           if (auto *Struct = llvm::dyn_cast<llvm::ConstantStruct>(ArrayElem)) {
             GlobalAnnotation A(Struct);
             // get annotation string an remove prefix "psr."
-            auto AnnotationStr = A.getAnnotationString().substr(4);
+            auto AnnotationStr = A.getAnnotationString();
+            if (!AnnotationStr.consume_front("psr.")) {
+              continue;
+            }
             const auto *Fun = A.getFunction();
             if (!Fun) {
               // Global variables may be annotated as well
@@ -269,7 +275,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
               llvm::dyn_cast<llvm::CallBase>(VarAnnotationUser)) {
         VarAnnotation A(AnnotationCall);
         // get annotation string an remove prefix "psr."
-        auto AnnotationStr = A.getAnnotationString().substr(4);
+        auto AnnotationStr = A.getAnnotationString();
+        if (!AnnotationStr.consume_front("psr.")) {
+          continue;
+        }
         const auto *Val =
             VarAnnotation::getOriginalValueOrOriginalArg(A.getValue());
         assert(Val && "Could not retrieve original value!");
-- 
2.43.0


From 8616982fdfe1c77021e106cd7686ae12e54b635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 071/101] fix: joining sanitizers in XTaint terminates

---
 .../ExtendedTaintAnalysis/EdgeDomain.cpp      | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
index 1384b7a..5242bb8 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
@@ -17,6 +17,8 @@
 #include "llvm/IR/Type.h"
 #include "llvm/Support/raw_os_ostream.h"
 
+#include <algorithm>
+
 namespace psr::XTaint {
 
 llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const EdgeDomain &ED) {
@@ -46,6 +48,14 @@ std::ostream &operator<<(std::ostream &OS, const EdgeDomain &ED) {
   return OS;
 }
 
+/// Whether BB comes after Other in the block list of their function
+static bool comesAfter(const llvm::BasicBlock *BB,
+                       const llvm::BasicBlock *Other) {
+  return BB != Other &&
+         std::any_of(Other->getIterator(), Other->getParent()->end(),
+                     [BB](const auto &Succ) { return &Succ == BB; });
+}
+
 EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
                             BasicBlockOrdering *BBO) const {
 
@@ -93,18 +103,24 @@ EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
     }
   }
 
+  // Note: We only move sanitizers forward. Otherwise, the join would not
+  // terminate for blocks that form a loop
+
+  const auto *BB1 = Sani1->getParent();
+  const auto *BB2 = Sani2->getParent();
   llvm::SmallPtrSet<const llvm::Instruction *, 2> Succs;
   llvm::SmallPtrSet<const llvm::Instruction *, 2> Intersection;
   bool FirstLeadsToSecond = false;
   bool SecondLeadsToFirst = false;
-  for (const auto *Succ : llvm::successors(Sani1->getParent())) {
-    FirstLeadsToSecond |= &Succ->front() == Sani2;
+  for (const auto *Succ : llvm::successors(BB1)) {
+    FirstLeadsToSecond |= &Succ->front() == Sani2 && comesAfter(Succ, BB1);
     Succs.insert(&Succ->front());
   }
-  for (const auto *Succ : llvm::successors(Sani2->getParent())) {
-    SecondLeadsToFirst |= &Succ->front() == Sani1;
+  for (const auto *Succ : llvm::successors(BB2)) {
+    SecondLeadsToFirst |= &Succ->front() == Sani1 && comesAfter(Succ, BB2);
 
-    if (Succs.count(&Succ->front())) {
+    if (Succs.count(&Succ->front()) && comesAfter(Succ, BB1) &&
+        comesAfter(Succ, BB2)) {
       Intersection.insert(&Succ->front());
     }
   }
-- 
2.43.0


From 339a2c914257459992fd31578d25d23ae34c8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 072/101] fix: offsets in XTaint are relative to the stored or
 passed value

---
 .../AbstractMemoryLocation.h                    |  4 ++--
 .../AbstractMemoryLocation.cpp                  | 17 +++++++++++++----
 .../AbstractMemoryLocationFactory.cpp           | 13 +------------
 3 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.h
index 3650360..aa09df7 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.h
@@ -106,7 +106,7 @@ public:
 
   // Computes the absolute offset-difference between this and TV assuming,
   // either this->isProperPrefixOf(TV) or vice versa.
-  [[nodiscard]] llvm::ArrayRef<ptrdiff_t>
+  [[nodiscard]] llvm::SmallVector<ptrdiff_t, 8>
   operator-(const AbstractMemoryLocationImpl &TV) const;
   /// Check whether Larger describes a memory location that is tainted if *this
   /// is tainted, no matter what additional offset is added to Larger. Used to
@@ -187,7 +187,7 @@ public:
 
   /// Computes the absolute offset-difference between this and TV assuming,
   /// either this->isProperPrefixOf(TV) or vice versa.
-  [[nodiscard]] inline llvm::ArrayRef<ptrdiff_t>
+  [[nodiscard]] inline llvm::SmallVector<ptrdiff_t, 8>
   operator-(AbstractMemoryLocation TV) const {
     return *PImpl - *TV.PImpl;
   }
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.cpp
index da9898e..be706ef 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.cpp
@@ -71,11 +71,20 @@ auto AbstractMemoryLocationImpl::computeOffset(
 }
 
 [[nodiscard]] auto AbstractMemoryLocationImpl::operator-(
-    const AbstractMemoryLocationImpl &TV) const -> llvm::ArrayRef<ptrdiff_t> {
-  if (NumOffsets > TV.offsets().size()) {
-    return offsets().drop_front(std::max(size_t(1), TV.offsets().size()) - 1);
+    const AbstractMemoryLocationImpl &TV) const
+    -> llvm::SmallVector<ptrdiff_t, 8> {
+  const auto [Larger, Smaller] =
+      NumOffsets >= TV.NumOffsets ? std::make_pair(offsets(), TV.offsets())
+                                 : std::make_pair(TV.offsets(), offsets());
+  if (Smaller.empty()) {
+    return {Larger.begin(), Larger.end()};
   }
-  return TV.offsets().drop_front(std::max(1U, NumOffsets) - 1);
+
+  const auto Rest = Larger.drop_front(Smaller.size() - 1);
+  llvm::SmallVector<ptrdiff_t, 8> Ret(Rest.begin(), Rest.end());
+  // The remaining offsets are relative to the smaller location
+  Ret.front() -= Smaller.back();
+  return Ret;
 }
 
 bool AbstractMemoryLocationImpl::equivalentOffsets(
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocationFactory.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocationFactory.cpp
index 6baa829..ed27db6 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocationFactory.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocationFactory.cpp
@@ -399,20 +399,9 @@ AbstractMemoryLocationFactoryBase::withTransferToImpl(
     return Ret;
   }
 
-  auto [LargerOffs, SmallerOffs] = [&] {
-    if (AML->offsets().size() >= From->offsets().size()) {
-      return std::make_pair(AML->offsets(), From->offsets());
-    }
-    return std::make_pair(From->offsets(), AML->offsets());
-  }();
-
-  if (!SmallerOffs.empty()) {
-    LargerOffs = LargerOffs.drop_front(SmallerOffs.size() - 1);
-  }
-
   // already checked that either offsets() is a prefix of From.offsets() or
   // vice versa
-  llvm::SmallVector<ptrdiff_t, 8> Offs(LargerOffs.begin(), LargerOffs.end());
+  auto Offs = *AML - *From;
 
   if (!Offs.empty()) {
     Offs.back() = 0;
-- 
2.43.0


From e387e94e115ec77cd70db857201af611af42b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:59 +0000
Subject: [PATCH 073/101] fix: XTaint propagates taints through PHI nodes and
 selects of sources

---
 .../Problems/IDEExtendedTaintAnalysis.cpp     | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
index f5b799d..4aa7832 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
@@ -90,18 +90,14 @@ IDEExtendedTaintAnalysis::getNormalFlowFunction(n_t Curr,
     return StoreFF;
   }
 
-  auto [SrcConfig, SinkConfig] = getConfigurationAt(Curr);
-  if (!SrcConfig.empty() || !SinkConfig.empty()) {
-    PHASAR_LOG_LEVEL(DEBUG, "handle config in normal-ff");
-    return handleConfig(Curr, std::move(SrcConfig), std::move(SinkConfig));
-  }
-
-  if (const auto *Phi = llvm::dyn_cast<llvm::PHINode>(Curr)) {
-    return lambdaFlow([this, Phi](d_t Source) -> std::set<d_t> {
-      auto NumOps = Phi->getNumIncomingValues();
-      for (unsigned I = 0; I < NumOps; ++I) {
-        if (equivalent(Source, makeFlowFact(Phi->getIncomingValue(I)))) {
-          return {Source, makeFlowFact(Phi)};
+  FlowFunctionPtrType CopyFF = nullptr;
+  if (llvm::isa<llvm::PHINode>(Curr) || llvm::isa<llvm::SelectInst>(Curr)) {
+    CopyFF = lambdaFlow([this, Curr](d_t Source) -> std::set<d_t> {
+      // The first operand of a select is the condition
+      const unsigned FirstOp = llvm::isa<llvm::SelectInst>(Curr);
+      for (unsigned I = FirstOp; I < Curr->getNumOperands(); ++I) {
+        if (equivalent(Source, makeFlowFact(Curr->getOperand(I)))) {
+          return {Source, makeFlowFact(Curr)};
         }
       }
 
@@ -109,6 +105,19 @@ IDEExtendedTaintAnalysis::getNormalFlowFunction(n_t Curr,
     });
   }
 
+  auto [SrcConfig, SinkConfig] = getConfigurationAt(Curr);
+  if (!SrcConfig.empty() || !SinkConfig.empty()) {
+    PHASAR_LOG_LEVEL(DEBUG, "handle config in normal-ff");
+    auto ConfigFF =
+        handleConfig(Curr, std::move(SrcConfig), std::move(SinkConfig));
+    return CopyFF ? unionFlows(std::move(CopyFF), std::move(ConfigFF))
+                  : ConfigFF;
+  }
+
+  if (CopyFF) {
+    return CopyFF;
+  }
+
   return identityFlow();
 }
 
-- 
2.43.0


From 4f7901d7ebbd2d0d9739ae65b11537c49b5b5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 074/101] fix: XTaint copies the memory at memcpy and memmove

---
 .../Problems/IDEExtendedTaintAnalysis.cpp        | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
index 4aa7832..50df946 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
@@ -178,23 +178,29 @@ auto IDEExtendedTaintAnalysis::propagateAtStore(
 
   auto Offset = Source - Val;
 
+  // memcpy and memmove do not store the (pointer-)value Val itself, but copy the
+  // memory it points to
+  const bool CopiesMemory = llvm::isa<llvm::MemTransferInst>(Store);
+  auto StoreTo = [this, &Offset, CopiesMemory](d_t Dest) -> d_t {
+    return CopiesMemory ? FactFactory.withOffsets(Dest, Offset)
+                        : FactFactory.withIndirectionOf(Dest, Offset);
+  };
+
   // generate all may-aliases of Store->getPointerOperand()
-  std::set<d_t> Ret = {Source, FactFactory.withIndirectionOf(Mem, Offset)};
+  std::set<d_t> Ret = {Source, StoreTo(Mem)};
 
   if (!PTS) {
     PTS = PT.getAliasSet(PointerOp, Store);
   }
 
   forEachAliasOf(
-      PTS, PointerOp, [&Ret, Store, this, Offset](const llvm::Value *Alias) {
+      PTS, PointerOp, [&Ret, Store, this, &StoreTo](const llvm::Value *Alias) {
         if (llvm::isa<llvm::Constant>(Alias) &&
             !llvm::isa<llvm::GlobalValue>(Alias)) {
           return;
         }
 
-        identity(Ret,
-                 FactFactory.withIndirectionOf(makeFlowFact(Alias), Offset),
-                 Store);
+        identity(Ret, StoreTo(makeFlowFact(Alias)), Store);
       });
 
   PHASAR_LOG_LEVEL(DEBUG, "Store generate: " << PrettyPrinter{Ret});
-- 
2.43.0


From d6b9cc033beddd33d4959e25e1e9820588ef5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 075/101] fix: XTaint's strong updates do not hide leaks

---
 .../Problems/IDEExtendedTaintAnalysis.cpp     | 115 ++++++++++++------
 1 file changed, 78 insertions(+), 37 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
index 50df946..a593dc7 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp
@@ -619,15 +619,51 @@ auto IDEExtendedTaintAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
   }();
 
   if (PointerOp == nullptr) {
+    if (DisableStrongUpdates || CurrNode == SuccNode) {
+      return EdgeIdentity<l_t>{};
+    }
+    // A copy by a PHI node or select: The copied value was computed at its
+    // load. So, a sanitizer that comes later does not affect it.
+    const llvm::Instruction *Load = nullptr;
+    for (const auto *Op : Curr->operand_values()) {
+      if (!equivalent(CurrNode, makeFlowFact(Op))) {
+        continue;
+      }
+      const auto *OpLoad = getApproxLoadFrom(Op);
+      if (Load && OpLoad && Load != OpLoad) {
+        return GenEdgeFunction{nullptr};
+      }
+      Load = OpLoad;
+    }
+    if (Load) {
+      return KillIfSanitizedEdgeFunction{{}, &BBO, Load};
+    }
     return EdgeIdentity<l_t>{};
   }
 
   assert(ValueOp);
 
   if (!DisableStrongUpdates) {
+    const bool OverwritesCurr =
+        CurrNode->mustAlias(makeFlowFact(PointerOp), PT);
+
+    /// The stored value was computed at its load. So, a sanitizer that comes
+    /// later does not affect it. Note: Pointers are still affected, because we
+    /// store just the address of the sanitized memory
+    if ((CurrNode != SuccNode || OverwritesCurr) &&
+        equivalentExceptPointerArithmetics(makeFlowFact(ValueOp), CurrNode)) {
+      const auto *Load = getApproxLoadFrom(ValueOp);
+      if (!Load) {
+        return EdgeIdentity<l_t>{};
+      }
+      if (CurrNode == SuccNode) {
+        return TransferEdgeFunction{{}, &BBO, Load, Curr};
+      }
+      return KillIfSanitizedEdgeFunction{{}, &BBO, Load};
+    }
 
     /// Kill the PointerOp, if we store into it
-    if (CurrNode->mustAlias(makeFlowFact(PointerOp), PT)) {
+    if (OverwritesCurr) {
       return GenEdgeFunction{Curr};
     }
 
@@ -643,7 +679,7 @@ auto IDEExtendedTaintAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
 }
 
 auto IDEExtendedTaintAnalysis::getCallEdgeFunction(
-    n_t CallInst, d_t SrcNode, [[maybe_unused]] f_t CalleeFun, d_t DestNode)
+    n_t CallInst, d_t SrcNode, f_t CalleeFun, d_t DestNode)
     -> EdgeFunctionType {
 
   if (DisableStrongUpdates) {
@@ -653,19 +689,21 @@ auto IDEExtendedTaintAnalysis::getCallEdgeFunction(
     return EdgeIdentity<l_t>{};
   }
 
-  for (const auto &Arg : llvm::cast<llvm::CallBase>(CallInst)->args()) {
-    // Kill sanitized facts that flow into the callee.
-    if (equivalent(makeFlowFact(Arg.get()), SrcNode)) {
-      return KillIfSanitizedEdgeFunction{
-          {}, &BBO, getApproxLoadFrom(Arg.get())};
+  const auto *Call = llvm::cast<llvm::CallBase>(CallInst);
+  for (const auto &Param : CalleeFun->args()) {
+    if (&Param != DestNode->base() || Param.getArgNo() >= Call->arg_size()) {
+      continue;
     }
+    // Kill sanitized facts that flow into the callee.
+    return KillIfSanitizedEdgeFunction{
+        {}, &BBO, getApproxLoadFrom(Call->getArgOperand(Param.getArgNo()))};
   }
 
   return EdgeIdentity<l_t>{};
 }
 
 auto IDEExtendedTaintAnalysis::getReturnEdgeFunction(
-    n_t CallSite, [[maybe_unused]] f_t CalleeFun, n_t ExitInst, d_t ExitNode,
+    n_t CallSite, f_t CalleeFun, n_t ExitInst, d_t ExitNode,
     [[maybe_unused]] n_t RetSite, d_t RetNode) -> EdgeFunctionType {
 
   if (DisableStrongUpdates) {
@@ -676,6 +714,13 @@ auto IDEExtendedTaintAnalysis::getReturnEdgeFunction(
     return EdgeIdentity<l_t>{};
   }
 
+  // No matter what happens inside of a sanitizer, the sanitized arguments are
+  // clean afterwards
+  if (CallSite &&
+      isMustAlias(getSanitizerConfigAt(CallSite, CalleeFun), RetNode)) {
+    return GenEdgeFunction{CallSite};
+  }
+
   if (const auto *Ret = llvm::dyn_cast<llvm::ReturnInst>(ExitInst);
       Ret && equivalent(RetNode, makeFlowFact(CallSite))) {
     return TransferEdgeFunction{
@@ -859,39 +904,35 @@ void IDEExtendedTaintAnalysis::doPostProcessing(
     auto Results = SR.resultsAt(Inst);
 
     for (const auto *L : PotentialLeaks) {
-      auto Found = Results.find(makeFlowFact(L));
-      if (Found == Results.end()) {
-        // The sanitizer has been killed, so we must assume the fact as tainted
-        // std::cerr << "No results for " << makeFlowFact(L) << std::'\n';
-        continue;
-      }
-
-      auto Sani = // SR.resultAt(Inst, makeFlowFact(L));
-          Found->second;
+      const auto Leak = makeFlowFact(L);
       const auto *Load = getApproxLoadFrom(L);
 
-      switch (Sani.getKind()) {
-      case EdgeDomain::Sanitized:
-        Rem.push_back(L);
-        // std::cerr << "Sanitize " << llvmIRToShortString(L) << " from parent "
-        //          << std::'\n';
-        break;
-      case EdgeDomain::WithSanitizer:
-        if (!Sani.getSanitizer()) {
-          break;
+      auto IsSanitized = [&](const l_t &Sani) {
+        if (Sani.isSanitized()) {
+          return true;
+        }
+        const auto *Inst = Sani.getSanitizer();
+        return Inst && (!Load || BBO.mustComeBefore(Inst, Load));
+      };
+
+      // All facts that describe the leaked value must be sanitized. If there
+      // are none, the sanitizer has been killed, so we must assume the fact as
+      // tainted
+      bool HasSanitized = false;
+      bool HasTainted = false;
+      for (const auto &[Fact, Sani] : Results) {
+        if (isZeroValue(Fact) || !equivalent(Fact, Leak)) {
+          continue;
         }
-        if (!Load || BBO.mustComeBefore(Sani.getSanitizer(), Load)) {
-          Rem.push_back(L);
-          // std::cerr << "Sanitize " << llvmIRToShortString(L) << " with "
-          //          << llvmIRToString(Sani.getSanitizer()) << std::'\n';
-          break;
+        if (IsSanitized(Sani)) {
+          HasSanitized = true;
+        } else {
+          HasTainted = true;
         }
-        [[fallthrough]];
-      default:
-        // std::cerr << " Sani: " << Sani
-        //           << "; Load: " << (Load ? llvmIRToString(Load) : "null")
-        //           << " for FlowFact: " << makeFlowFact(L) << std::'\n';
-        break;
+      }
+
+      if (HasSanitized && !HasTainted) {
+        Rem.push_back(L);
       }
     }
     // std::cerr << "----------------------------" << '\n';
-- 
2.43.0


From c8b256cba49b054ca8ec67c985b8c81cb1f9ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:17 +0000
Subject: [PATCH 076/101] fix: module statistics report the real maxima

A new maximum only incremented the counter by one.
---
 lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
index ed64e47..76e2803 100644
--- a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
+++ b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
@@ -94,10 +94,10 @@ GeneralStatistics GeneralStatisticsAnalysis::runOnModule(llvm::Module &M) {
         Stats.TotalNumPredecessorBBs += PredSize;
         Stats.TotalNumSuccessorBBs += SuccSize;
         if (PredSize > Stats.MaxNumPredecessorBBs) {
-          ++Stats.MaxNumPredecessorBBs;
+          Stats.MaxNumPredecessorBBs = PredSize;
         }
         if (SuccSize > Stats.MaxNumSuccessorBBs) {
-          ++Stats.MaxNumSuccessorBBs;
+          Stats.MaxNumSuccessorBBs = SuccSize;
         }
       }
 
@@ -111,10 +111,10 @@ GeneralStatistics GeneralStatisticsAnalysis::runOnModule(llvm::Module &M) {
           Stats.TotalNumOperands += NumOps;
           Stats.TotalNumUses += NumUses;
           if (NumOps > Stats.MaxNumOperands) {
-            ++Stats.MaxNumOperands;
+            Stats.MaxNumOperands = NumOps;
           }
           if (NumUses > Stats.MaxNumUses) {
-            ++Stats.MaxNumUses;
+            Stats.MaxNumUses = NumUses;
           }
           if (NumUses > 1) {
             ++Stats.NumInstWithMultipleUses;
-- 
2.43.0


From 31911b769ff260ecc1692c4fad562e529bd763c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:17 +0000
Subject: [PATCH 077/101] fix: module statistics accept casts of allocations
 passed to functions without parameters

E.g. 'call void (...) @f(%T* %cast)' read the first parameter of a
function that has none.
---
 lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
index 76e2803..092c0ab 100644
--- a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
+++ b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
@@ -56,6 +56,7 @@ static void collectAllocatedTypes(const llvm::CallBase *CallSite, Set &Into) {
             // potential call to the structures ctor
             const auto *CTor = llvm::cast<llvm::CallBase>(User);
             if (CTor->getCalledFunction() &&
+                !CTor->getCalledFunction()->arg_empty() &&
                 CTor->getCalledFunction()->getArg(0)->getType() ==
                     Cast->getDestTy()) {
               Into.insert(ElemTy);
-- 
2.43.0


From d04229d6bcd389b9c6bc62b019c1776ce1bd6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:23 +0000
Subject: [PATCH 078/101] fix: StringIDLess orders two non-numeric ids

The check for the second id compared with the wrong string, so all ids of
formal parameters were considered equal.
---
 lib/Utils/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Utilities.cpp b/lib/Utils/Utilities.cpp
index 28e8d37..d48f6f5 100644
--- a/lib/Utils/Utilities.cpp
+++ b/lib/Utils/Utilities.cpp
@@ -102,7 +102,7 @@ bool StringIDLess::operator()(const std::string &Lhs,
   char *Endptr2;
   long LhsVal = strtol(Lhs.c_str(), &Endptr1, 10);
   long RhsVal = strtol(Rhs.c_str(), &Endptr2, 10);
-  if (Lhs.c_str() == Endptr1 && Lhs.c_str() == Endptr2) {
+  if (Lhs.c_str() == Endptr1 && Rhs.c_str() == Endptr2) {
     return Lhs < Rhs;
   }
   if (Lhs.c_str() == Endptr1 && Rhs.c_str() != Endptr2) {
-- 
2.43.0


From 011527b68f993f8589495584e393e512a1ac64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:31 +0000
Subject: [PATCH 079/101] fix: library summaries apply to variadic arguments

Arguments beyond the formal parameters were ignored as sources, and a call
that does not pass all the summarized parameters (e.g. sscanf(S, "x"))
accessed an argument that does not exist.
---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 9513b5a..3917cc0 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -501,19 +501,21 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
       // it is fine to capture a reference here:
       const auto &DestFunFacts = Llvmfdff.getFactsForFunction(DestFun);
-      return lambdaFlow([CallSite, DestFun,
+      return lambdaFlow([CallSite,
                          &DestFunFacts](d_t Source) -> container_type {
         std::set<d_t> Facts;
         const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
-        for (const auto &[Arg, DestParam] :
-             llvm::zip(CS->args(), DestFun->args())) {
+        // Note: Variadic functions have more arguments than parameters
+        for (const auto &Arg : CS->args()) {
           if (Source == Arg.get()) {
-            auto VecFacts = DestFunFacts.find(DestParam.getArgNo());
+            auto VecFacts = DestFunFacts.find(CS->getArgOperandNo(&Arg));
             if (VecFacts != DestFunFacts.end()) {
               for (const auto &VecFact : VecFacts->second) {
                 if (const auto *Param = std::get_if<library_summary::Parameter>(
                         &VecFact.Fact)) {
-                  Facts.insert(CS->getArgOperand(Param->Index));
+                  if (Param->Index < CS->arg_size()) {
+                    Facts.insert(CS->getArgOperand(Param->Index));
+                  }
                 } else {
                   Facts.insert(CallSite);
                 }
-- 
2.43.0


From 1a7096fa8596cfb9a8eed8cf5c04cdee8c4fb3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:31 +0000
Subject: [PATCH 080/101] fix: getDataFlowFacts gives no facts for a parameter
 without facts

It dereferenced the end iterator.
---
 .../PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
index e40d109..4384385 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
@@ -47,7 +47,9 @@ public:
     auto It = Fdff.find(FuncKey);
     if (It != Fdff.end()) {
       auto Itt = It->second.find(Index);
-      return Itt->second;
+      if (Itt != It->second.end()) {
+        return Itt->second;
+      }
     }
 
     return getDefaultValue<std::vector<DataFlowFact>>();
-- 
2.43.0


From d1fd83e003ba35d29905f2e004afd0631a0cd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:23 +0000
Subject: [PATCH 081/101] fix: summaries of libc functions name the right
 function and parameter

A dozen entries were added for a misspelled or a different function
(copysignf, erfcl, ldexpf, llrintl, nextafterf, pow10f, ...), or had the output
parameter of another one (snprintf, pread, fstat64, wcstoimax, realpath, ...).
---
 .../DataFlow/IfdsIde/LibCSummary.cpp          | 57 ++++++++++---------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
index aa6c64f..1fb9da9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
@@ -301,7 +301,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
 
   // copysignf
   Sum.addElement("copysignf", 0, ReturnValue{});
-  Sum.addElement("copysign", 1, ReturnValue{});
+  Sum.addElement("copysignf", 1, ReturnValue{});
 
   // copysignl
   Sum.addElement("copysignl", 0, ReturnValue{});
@@ -341,7 +341,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("cproj", 0, ReturnValue{});
 
   // cprojf
-  Sum.addElement("cproj", 0, ReturnValue{});
+  Sum.addElement("cprojf", 0, ReturnValue{});
 
   // cprojl
   Sum.addElement("cprojl", 0, ReturnValue{});
@@ -484,7 +484,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("erfcf", 0, ReturnValue{});
 
   // erfcl
-  Sum.addElement("erfcf", 0, ReturnValue{});
+  Sum.addElement("erfcl", 0, ReturnValue{});
 
   // erff
   Sum.addElement("erff", 0, ReturnValue{});
@@ -616,12 +616,12 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("fmaxmag", 1, ReturnValue{});
 
   // fmaxmagf
-  Sum.addElement("fmaxmag", 0, ReturnValue{});
+  Sum.addElement("fmaxmagf", 0, ReturnValue{});
   Sum.addElement("fmaxmagf", 1, ReturnValue{});
 
   // fmaxmagl
   Sum.addElement("fmaxmagl", 0, ReturnValue{});
-  Sum.addElement("fmaxmag", 1, ReturnValue{});
+  Sum.addElement("fmaxmagl", 1, ReturnValue{});
 
   // fmin
   Sum.addElement("fmin", 0, ReturnValue{});
@@ -717,7 +717,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("fstat", 0, Parameter{1});
 
   // fstat64
-  Sum.addElement("fstat64", 0, Parameter{});
+  Sum.addElement("fstat64", 0, Parameter{1});
 
   // fwprintf
   Sum.addElement("fwprintf", 1, Parameter{0});
@@ -783,7 +783,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("getpayloadl", 0, ReturnValue{});
 
   // getpeername
-  Sum.addElement("getpeername", 0, Parameter{});
+  Sum.addElement("getpeername", 0, Parameter{1});
 
   // getrlimit
   Sum.addElement("getrlimit", 1, ReturnValue{});
@@ -804,8 +804,8 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("getutid", 0, ReturnValue{});
 
   // getutid_r
-  Sum.addElement("getutid", 0, Parameter{1});
-  Sum.addElement("getutid", 1, Parameter{2});
+  Sum.addElement("getutid_r", 0, Parameter{1});
+  Sum.addElement("getutid_r", 1, Parameter{2});
 
   // getutline
   Sum.addElement("getutline", 0, ReturnValue{});
@@ -818,7 +818,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("getutmp", 0, Parameter{1});
 
   // getutmpx
-  Sum.addElement("getutmp", 1, Parameter{0});
+  Sum.addElement("getutmpx", 0, Parameter{1});
 
   // getw
   Sum.addElement("getw", 0, ReturnValue{});
@@ -947,8 +947,8 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("ldexp", 1, ReturnValue{});
 
   // ldexpf
-  Sum.addElement("ldexp", 0, ReturnValue{});
-  Sum.addElement("ldexp", 1, ReturnValue{});
+  Sum.addElement("ldexpf", 0, ReturnValue{});
+  Sum.addElement("ldexpf", 1, ReturnValue{});
 
   // ldexpl
   Sum.addElement("ldexpl", 0, ReturnValue{});
@@ -962,7 +962,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("lfind", 1, ReturnValue{});
 
   // lgammaf_r
-  Sum.addElement("lgmmaf_r", 0, Parameter{1});
+  Sum.addElement("lgammaf_r", 0, Parameter{1});
 
   // lgammal_r
   Sum.addElement("lgammal_r", 0, ReturnValue{});
@@ -990,7 +990,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("llrintf", 0, ReturnValue{});
 
   // llrintl
-  Sum.addElement("llrinf", 0, ReturnValue{});
+  Sum.addElement("llrintl", 0, ReturnValue{});
 
   // llround
   Sum.addElement("llround", 0, ReturnValue{});
@@ -1176,7 +1176,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("nextafter", 0, ReturnValue{});
 
   // nextafterf
-  Sum.addElement("nextafterl", 0, ReturnValue{});
+  Sum.addElement("nextafterf", 0, ReturnValue{});
 
   // nextafterl
   Sum.addElement("nextafterl", 0, ReturnValue{});
@@ -1231,7 +1231,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("pow10", 0, ReturnValue{});
 
   // pow10f
-  Sum.addElement("powf", 0, ReturnValue{});
+  Sum.addElement("pow10f", 0, ReturnValue{});
 
   // pow10l
   Sum.addElement("pow10l", 0, ReturnValue{});
@@ -1245,10 +1245,10 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("powl", 1, ReturnValue{});
 
   // pread
-  Sum.addElement("pread", 0, Parameter{});
+  Sum.addElement("pread", 0, Parameter{1});
 
   // pread64
-  Sum.addElement("pread64", 0, Parameter{});
+  Sum.addElement("pread64", 0, Parameter{1});
 
   // ptsname_r
   Sum.addElement("ptsname_r", 0, Parameter{1});
@@ -1314,7 +1314,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("readdir", 0, ReturnValue{});
 
   // readdir_r
-  Sum.addElement("readdrir_r", 0, Parameter{1});
+  Sum.addElement("readdir_r", 0, Parameter{1});
   Sum.addElement("readdir_r", 1, Parameter{2});
 
   // readlink
@@ -1327,7 +1327,8 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("realloc", 0, ReturnValue{});
 
   // realpath
-  Sum.addElement("realpath", 0, Parameter{});
+  Sum.addElement("realpath", 0, Parameter{1});
+  Sum.addElement("realpath", 0, ReturnValue{});
   Sum.addElement("realpath", 1, ReturnValue{});
 
   // regcomp
@@ -1392,7 +1393,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
 
   // scalbl
   Sum.addElement("scalbl", 0, ReturnValue{});
-  Sum.addElement("scalbf", 1, ReturnValue{});
+  Sum.addElement("scalbl", 1, ReturnValue{});
 
   // scalbln
   Sum.addElement("scalbln", 0, ReturnValue{});
@@ -1400,7 +1401,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
 
   // scalblnf
   Sum.addElement("scalblnf", 0, ReturnValue{});
-  Sum.addElement("scalblnf", 0, ReturnValue{});
+  Sum.addElement("scalblnf", 1, ReturnValue{});
 
   // scalblnl
   Sum.addElement("scalblnl", 0, ReturnValue{});
@@ -1419,13 +1420,13 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("scalbnl", 1, ReturnValue{});
 
   // scandir
-  Sum.addElement("scandir", 0, Parameter{});
+  Sum.addElement("scandir", 0, Parameter{1});
 
   // secure_getenv
   Sum.addElement("secure_getenv", 0, ReturnValue{});
 
   // sem_getvalue
-  Sum.addElement("sem_getvalue", 0, Parameter{});
+  Sum.addElement("sem_getvalue", 0, Parameter{1});
 
   // sem_init
   Sum.addElement("sem_init", 2, Parameter{0});
@@ -1504,9 +1505,9 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("sinhl", 0, ReturnValue{});
 
   // snprintf
-  Sum.addElement("snprintf", 1, Parameter{1});
-  Sum.addElement("snprintf", 1, Parameter{2});
-  Sum.addElement("snprintf", 1, Parameter{3});
+  Sum.addElement("snprintf", 1, Parameter{0});
+  Sum.addElement("snprintf", 2, Parameter{0});
+  Sum.addElement("snprintf", 3, Parameter{0});
 
   // sqrt
   Sum.addElement("sqrt", 0, ReturnValue{});
@@ -1885,7 +1886,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   Sum.addElement("wcstof", 0, ReturnValue{});
 
   // wcstoimax
-  Sum.addElement("wcstoimax", 0, Parameter{0});
+  Sum.addElement("wcstoimax", 0, Parameter{1});
   Sum.addElement("wcstoimax", 0, ReturnValue{});
 
   // wcstok
-- 
2.43.0


From e22c4718432d86c05df37b023a48820ce70a08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:23 +0000
Subject: [PATCH 082/101] fix: libc's copying functions return what they copy

The summaries of memcpy, strcpy and alike did not propagate the taint of the
source to the return value, which is a pointer into the destination.
---
 .../DataFlow/IfdsIde/LibCSummary.cpp          | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
index 1fb9da9..940d6c3 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp
@@ -1098,9 +1098,13 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
 
   // memccpy
   Sum.addElement("memccpy", 1, Parameter{0});
+  Sum.addElement("memccpy", 0, ReturnValue{});
+  Sum.addElement("memccpy", 1, ReturnValue{});
 
   // memcpy
   Sum.addElement("memcpy", 1, Parameter{0});
+  Sum.addElement("memcpy", 0, ReturnValue{});
+  Sum.addElement("memcpy", 1, ReturnValue{});
 
   // memfrob
   Sum.addElement("memfrob", 0, ReturnValue{});
@@ -1111,6 +1115,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // memmove
   Sum.addElement("memmove", 1, Parameter{});
   Sum.addElement("memmove", 0, ReturnValue{});
+  Sum.addElement("memmove", 1, ReturnValue{});
 
   // mempcpy
   Sum.addElement("mempcpy", 1, Parameter{0});
@@ -1125,6 +1130,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // memset
   Sum.addElement("memset", 1, Parameter{0});
   Sum.addElement("memset", 0, ReturnValue{});
+  Sum.addElement("memset", 1, ReturnValue{});
 
   // mkdtemp
   Sum.addElement("mkdtemp", 0, ReturnValue{});
@@ -1528,14 +1534,17 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // stpcpy
   Sum.addElement("stpcpy", 1, Parameter{0});
   Sum.addElement("stpcpy", 0, ReturnValue{});
+  Sum.addElement("stpcpy", 1, ReturnValue{});
 
   // stpncpy
   Sum.addElement("stpncpy", 1, Parameter{0});
   Sum.addElement("stpncpy", 0, ReturnValue{});
+  Sum.addElement("stpncpy", 1, ReturnValue{});
 
   // strcat
   Sum.addElement("strcat", 1, Parameter{0});
   Sum.addElement("strcat", 0, ReturnValue{});
+  Sum.addElement("strcat", 1, ReturnValue{});
 
   // strchrnul
   Sum.addElement("strchrnul", 0, ReturnValue{});
@@ -1543,6 +1552,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // strcpy
   Sum.addElement("strcpy", 1, Parameter{0});
   Sum.addElement("strcpy", 0, ReturnValue{});
+  Sum.addElement("strcpy", 1, ReturnValue{});
 
   // strdup
   Sum.addElement("strdup", 0, ReturnValue{});
@@ -1578,10 +1588,12 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // strncat
   Sum.addElement("strncat", 1, Parameter{0});
   Sum.addElement("strncat", 0, ReturnValue{});
+  Sum.addElement("strncat", 1, ReturnValue{});
 
   // strncpy
   Sum.addElement("strncpy", 1, Parameter{0});
   Sum.addElement("strncpy", 0, ReturnValue{});
+  Sum.addElement("strncpy", 1, ReturnValue{});
 
   // strndup
   Sum.addElement("strndup", 0, ReturnValue{});
@@ -1832,10 +1844,12 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // wcpcpy
   Sum.addElement("wcpcpy", 1, Parameter{0});
   Sum.addElement("wcpcpy", 0, ReturnValue{});
+  Sum.addElement("wcpcpy", 1, ReturnValue{});
 
   // wcpncpy
   Sum.addElement("wcpncpy", 1, Parameter{0});
   Sum.addElement("wcpncpy", 0, ReturnValue{});
+  Sum.addElement("wcpncpy", 1, ReturnValue{});
 
   // wcrtomb
   Sum.addElement("wcrtomb", 1, Parameter{0});
@@ -1843,6 +1857,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // wcscat
   Sum.addElement("wcscat", 1, Parameter{0});
   Sum.addElement("wcscat", 0, ReturnValue{});
+  Sum.addElement("wcscat", 1, ReturnValue{});
 
   // wcschr
   Sum.addElement("wcschr", 0, ReturnValue{});
@@ -1850,6 +1865,7 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // wcscpy
   Sum.addElement("wcscpy", 1, Parameter{0});
   Sum.addElement("wcscpy", 0, ReturnValue{});
+  Sum.addElement("wcscpy", 1, ReturnValue{});
 
   // wcsdup
   Sum.addElement("wcsdup", 0, ReturnValue{});
@@ -1857,10 +1873,12 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // wcsncat
   Sum.addElement("wcsncat", 1, Parameter{0});
   Sum.addElement("wcsncat", 0, ReturnValue{});
+  Sum.addElement("wcsncat", 1, ReturnValue{});
 
   // wcsncpy
   Sum.addElement("wcsncpy", 1, Parameter{0});
   Sum.addElement("wcsncpy", 0, ReturnValue{});
+  Sum.addElement("wcsncpy", 1, ReturnValue{});
 
   // wcsnrtombs
   Sum.addElement("wcsnrtombs", 1, Parameter{0});
@@ -1941,18 +1959,22 @@ static library_summary::FunctionDataFlowFacts createLibCSummary() {
   // wmemcpy
   Sum.addElement("wmemcpy", 1, Parameter{0});
   Sum.addElement("wmemcpy", 0, ReturnValue{});
+  Sum.addElement("wmemcpy", 1, ReturnValue{});
 
   // wmemmove
   Sum.addElement("wmemmove", 1, Parameter{0});
   Sum.addElement("wmemmove", 0, ReturnValue{});
+  Sum.addElement("wmemmove", 1, ReturnValue{});
 
   // wmempcpy
   Sum.addElement("wmempcpy", 1, Parameter{0});
   Sum.addElement("wmempcpy", 0, ReturnValue{});
+  Sum.addElement("wmempcpy", 1, ReturnValue{});
 
   // wmemset
   Sum.addElement("wmemset", 1, Parameter{0});
   Sum.addElement("wmemset", 0, ReturnValue{});
+  Sum.addElement("wmemset", 1, ReturnValue{});
 
   // wordexp
   Sum.addElement("wordexp", 0, Parameter{1});
-- 
2.43.0


From 170ae8d78f9a9c857af2bef7732ece08569c5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:23 +0000
Subject: [PATCH 083/101] fix: library summaries taint the aliases of written
 parameters

A call of, e.g., strcpy(Dst, Src) only tainted the very pointer value Dst, but
not the other values that point to the same object.
---
 lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 3917cc0..fda09be 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -501,7 +501,7 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
       // it is fine to capture a reference here:
       const auto &DestFunFacts = Llvmfdff.getFactsForFunction(DestFun);
-      return lambdaFlow([CallSite,
+      return lambdaFlow([this, CallSite,
                          &DestFunFacts](d_t Source) -> container_type {
         std::set<d_t> Facts;
         const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
@@ -523,6 +523,7 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
             }
           }
         }
+        populateWithMayAliases(Facts, CallSite);
         Facts.insert(Source);
         return Facts;
       });
-- 
2.43.0


From 43c2925214009cdf3c782d7867e1bd9ae002e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:09 +0000
Subject: [PATCH 084/101] fix: guard the headers of the data-flow facts against
 repeated inclusion

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h  | 2 ++
 .../PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
index 4384385..3da118f 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h
@@ -1,3 +1,5 @@
+#pragma once
+
 #include "phasar/Utils/DefaultValue.h"
 
 #include "llvm/ADT/StringMap.h"
diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h
index 19e03b4..f242bf1 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h
@@ -1,3 +1,5 @@
+#pragma once
+
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 #include "phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h"
 #include "phasar/Utils/DefaultValue.h"
-- 
2.43.0


From 059ddc23b8d5eecb489e7f64e838d69f1231f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:03 +0000
Subject: [PATCH 085/101] fix: read the function name of a SourceCodeInfo back
 from the key it is written to

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 01dd076..57f98c5 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -307,7 +307,7 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
 void psr::from_json(const nlohmann::json &J, SourceCodeInfo &Info) {
   J.at("sourceCodeLine").get_to(Info.SourceCodeLine);
   J.at("sourceCodeFileName").get_to(Info.SourceCodeFilename);
-  if (auto Fn = J.find("sourceCode"); Fn != J.end()) {
+  if (auto Fn = J.find("sourceCodeFunctionName"); Fn != J.end()) {
     Fn->get_to(Info.SourceCodeFunctionName);
   }
   J.at("line").get_to(Info.Line);
-- 
2.43.0


From 3b9f450b33dc82d19baf4f3ed91c2f5af78db929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:03 +0000
Subject: [PATCH 086/101] fix: compare whole file names in
 SourceCodeInfo::equivalentWith

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 57f98c5..fcd3d7f 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -293,15 +293,9 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
     return false;
   }
 
-  auto Pos = SourceCodeFilename.find_last_of(
-      std::filesystem::path::preferred_separator);
-  if (Pos == std::string::npos) {
-    Pos = 0;
-  }
-
-  return llvm::StringRef(Other.SourceCodeFilename)
-      .endswith(llvm::StringRef(SourceCodeFilename)
-                    .slice(Pos + 1, llvm::StringRef::npos));
+  // Only the last component has to match; the file may have been moved
+  return llvm::sys::path::filename(SourceCodeFilename) ==
+         llvm::sys::path::filename(Other.SourceCodeFilename);
 }
 
 void psr::from_json(const nlohmann::json &J, SourceCodeInfo &Info) {
-- 
2.43.0


From 3f3bdc99c1c6e127023b33364f03f3b0853bf5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:49 +0000
Subject: [PATCH 087/101] fix: name a formal parameter by the variable it was
 declared as

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index fcd3d7f..266562b 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -30,10 +30,38 @@
 
 using namespace psr;
 
+/// A formal parameter may, e.g. after mem2reg, be bound to further source
+/// variables that it has been assigned to. The variable it was declared as is
+/// the parameter that it is bound to first.
+static llvm::DbgVariableIntrinsic *
+getParameterDbgIntrinsic(const llvm::Argument *Arg,
+                         const llvm::MetadataAsValue *MDV) {
+  const auto *EntryBB = Arg->getParent()->isDeclaration()
+                            ? nullptr
+                            : &Arg->getParent()->getEntryBlock();
+  llvm::DbgVariableIntrinsic *Ret = nullptr;
+  for (const auto *U : MDV->users()) {
+    const auto *DBGIntr = llvm::dyn_cast<llvm::DbgVariableIntrinsic>(U);
+    if (DBGIntr && DBGIntr->getParent() == EntryBB &&
+        DBGIntr->getVariable()->isParameter() &&
+        !DBGIntr->getDebugLoc().getInlinedAt() &&
+        (!Ret || DBGIntr->comesBefore(Ret))) {
+      // NOLINTNEXTLINE FIXME when LLVM supports it
+      Ret = const_cast<llvm::DbgVariableIntrinsic *>(DBGIntr);
+    }
+  }
+  return Ret;
+}
+
 static llvm::DbgVariableIntrinsic *getDbgVarIntrinsic(const llvm::Value *V) {
   if (auto *VAM = llvm::ValueAsMetadata::getIfExists(
           const_cast<llvm::Value *>(V))) { // NOLINT FIXME when LLVM supports it
     if (auto *MDV = llvm::MetadataAsValue::getIfExists(V->getContext(), VAM)) {
+      if (const auto *Arg = llvm::dyn_cast<llvm::Argument>(V)) {
+        if (auto *DBGIntr = getParameterDbgIntrinsic(Arg, MDV)) {
+          return DBGIntr;
+        }
+      }
       for (auto *U : MDV->users()) {
         if (auto *DBGIntr = llvm::dyn_cast<llvm::DbgVariableIntrinsic>(U)) {
           return DBGIntr;
-- 
2.43.0


From aec6d70d8f87e6567a833ecbd226e7b2a4600235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 088/101] fix: do not add entries to the holes of a reloaded
 vtable

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index be0f02c..dcb5a37 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -286,6 +286,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     for (const auto &FuncName : Curr) {
       if (FuncName == LLVMVFTable::NullFunName) {
         CurrVTable.push_back(nullptr);
+        continue;
       }
       CurrVTable.push_back(IRDB->getFunction(FuncName));
     }
-- 
2.43.0


From e4b3a3f69a9a69e110cd9ae28ba7d69efacfaf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 089/101] fix: store the type hierarchy by the unique names of
 its types

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp        | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index dcb5a37..a47a97c 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -243,17 +243,6 @@ stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
   llvm::report_fatal_error("DIType doesn't exist: " + DITypeName);
 }
 
-static const llvm::DIType *stringToDIType(const llvm::DebugInfoFinder &DIF,
-                                          llvm::StringRef DITypeName) {
-  for (const auto *Type : DIF.types()) {
-    if (Type->getName() == DITypeName) {
-      return Type;
-    }
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist " + DITypeName);
-}
-
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     const LLVMProjectIRDB *IRDB, const DIBasedTypeHierarchyData &SerializedData)
     : TransitiveDerivedIndex(SerializedData.TransitiveDerivedIndex) {
@@ -276,7 +265,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
 
   Hierarchy.reserve(SerializedData.Hierarchy.size());
   for (const auto &Curr : SerializedData.Hierarchy) {
-    Hierarchy.push_back(stringToDIType(DIF, Curr));
+    Hierarchy.push_back(stringToDICompositeType(DIF, Curr));
   }
 
   for (const auto &Curr : SerializedData.VTables) {
@@ -361,7 +350,7 @@ DIBasedTypeHierarchyData DIBasedTypeHierarchy::getTypeHierarchyData() const {
 
   Data.Hierarchy.reserve(Hierarchy.size());
   for (const auto &Curr : Hierarchy) {
-    Data.Hierarchy.push_back(Curr->getName().str());
+    Data.Hierarchy.push_back(getTypeName(Curr).str());
   }
 
   for (const auto &Curr : VTables) {
-- 
2.43.0


From 5ab10892123b44f008302d3292245bfcadf4eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:52 +0000
Subject: [PATCH 090/101] fix: accept anonymous types in the
 DIBasedTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index a47a97c..c721dc8 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -198,9 +198,10 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
         }
         if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
           VertexTypes.push_back(Composite);
-          NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
-
-          assert(!getCompositeTypeName(Composite).empty());
+          // Anonymous types cannot be looked up by name
+          if (auto Name = getCompositeTypeName(Composite); !Name.empty()) {
+            NameToType.try_emplace(Name, Composite);
+          }
         }
       }
     }
-- 
2.43.0


From 367764fe92257899cc679565641546cd8161f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:28 +0000
Subject: [PATCH 091/101] fix: look up stored types among the class types of
 that unique name only

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp    | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index c721dc8..56dd468 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -170,6 +170,16 @@ static llvm::StringRef getCompositeTypeName(const llvm::DICompositeType *Ty) {
   return Ident.empty() ? Ty->getName() : Ident;
 }
 
+static bool isClassType(const llvm::DICompositeType *Ty) {
+  // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
+  static constexpr llvm::dwarf::Tag DwarfTags[] = {
+      llvm::dwarf::DW_TAG_class_type,
+      llvm::dwarf::DW_TAG_structure_type,
+      llvm::dwarf::DW_TAG_union_type,
+  };
+  return llvm::is_contained(DwarfTags, Ty->getTag());
+}
+
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   // -- Find all types
   {
@@ -184,16 +194,9 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
 
     // -- Filter all struct- or class types
 
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
-    static constexpr llvm::dwarf::Tag DwarfTags[] = {
-        llvm::dwarf::DW_TAG_class_type,
-        llvm::dwarf::DW_TAG_structure_type,
-        llvm::dwarf::DW_TAG_union_type,
-    };
-
     for (const auto *Ty : DIF.types()) {
       if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty)) {
-        if (!llvm::is_contained(DwarfTags, Composite->getTag())) {
+        if (!isClassType(Composite)) {
           continue;
         }
         if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
@@ -226,12 +229,14 @@ stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
   const llvm::DICompositeType *ByName = nullptr;
   bool HasUniqueByName = false;
   for (const auto *Type : DIF.types()) {
-    if (const auto *DICT = llvm::dyn_cast<llvm::DICompositeType>(Type)) {
+    if (const auto *DICT = llvm::dyn_cast<llvm::DICompositeType>(Type);
+        DICT && isClassType(DICT)) {
       auto Ident = DICT->getIdentifier();
       if (Ident == DITypeName) {
         return DICT;
       }
-      if (DICT->getName() == DITypeName) {
+      // Types with an identifier are stored under it
+      if (Ident.empty() && DICT->getName() == DITypeName) {
         HasUniqueByName = ByName == nullptr;
         ByName = DICT;
       }
-- 
2.43.0


From 3320d4e718f031b2f71d1a6177c0eca6f2fef524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 092/101] fix: find the vtables of a reloaded type hierarchy

---
 .../TypeHierarchy/LLVMTypeHierarchy.h         |  3 +++
 .../TypeHierarchy/LLVMTypeHierarchy.cpp       | 20 +++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h b/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
index 3678dfa..01eb3ef 100644
--- a/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
+++ b/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
@@ -148,6 +148,9 @@ public:
 
   ~LLVMTypeHierarchy() override = default;
 
+  /// Collects the types, type-infos and vtables of the given module
+  void buildHelperMaps(const llvm::Module &M);
+
   /**
    * @brief Constructs the actual class hierarchy graph.
    * @param M LLVM module
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 24caaa1..797aacc 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -83,6 +83,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
 
   VisitedModules.insert(IRDBModule);
   auto StructTypes = IRDBModule->getIdentifiedStructTypes();
+  buildHelperMaps(*IRDBModule);
 
   // find all struct types by name
   for (const auto &SerElement : SerializedData.TypeGraph) {
@@ -273,14 +274,8 @@ LLVMTypeHierarchy::getVirtualFunctions(const llvm::Module &M,
   return VFS;
 }
 
-void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
-  PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMTypeHierarchy",
-                       "Analyze types in module: " << M.getModuleIdentifier());
-  // store analyzed module
-  VisitedModules.insert(&M);
-  auto StructTypes = M.getIdentifiedStructTypes();
-  // build helper maps
-  for (auto *StructType : StructTypes) {
+void LLVMTypeHierarchy::buildHelperMaps(const llvm::Module &M) {
+  for (auto *StructType : M.getIdentifiedStructTypes()) {
     ClearNameTypeMap[removeStructOrClassPrefix(*StructType)] = StructType;
   }
   for (const auto &Global : M.globals()) {
@@ -297,6 +292,15 @@ void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
       }
     }
   }
+}
+
+void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
+  PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMTypeHierarchy",
+                       "Analyze types in module: " << M.getModuleIdentifier());
+  // store analyzed module
+  VisitedModules.insert(&M);
+  auto StructTypes = M.getIdentifiedStructTypes();
+  buildHelperMaps(M);
   // iterate struct types and add vertices
   for (auto *StructType : StructTypes) {
     if (!TypeVertexMap.count(StructType)) {
-- 
2.43.0


From ad7cb02b7561603faf7fc61c82514ac31f572399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 093/101] fix: phasar-cli: report a missing module instead of
 terminating

---
 tools/phasar-cli/phasar-cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/phasar-cli/phasar-cli.cpp b/tools/phasar-cli/phasar-cli.cpp
index a6487ae..45314ee 100644
--- a/tools/phasar-cli/phasar-cli.cpp
+++ b/tools/phasar-cli/phasar-cli.cpp
@@ -267,7 +267,7 @@ void validateParamModule() {
   if (!(std::filesystem::exists(ModulePath) &&
         !std::filesystem::is_directory(ModulePath) &&
         (ModulePath.extension() == ".ll" || ModulePath.extension() == ".bc"))) {
-    llvm::errs() << "LLVM module '" << std::filesystem::canonical(ModulePath)
+    llvm::errs() << "LLVM module '" << ModulePath.string()
                  << "' does not exist!\n";
     exit(1);
   }
-- 
2.43.0


From cd75d1edab787a7d4b22ede4a617f0e63ce117e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 094/101] fix: phasar-cli: report a missing call-graph file
 instead of terminating

---
 tools/phasar-cli/phasar-cli.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/phasar-cli/phasar-cli.cpp b/tools/phasar-cli/phasar-cli.cpp
index 45314ee..abaa5d2 100644
--- a/tools/phasar-cli/phasar-cli.cpp
+++ b/tools/phasar-cli/phasar-cli.cpp
@@ -323,6 +323,16 @@ void validatePTAJsonFile() {
   }
 }
 
+void validateCGJsonFile() {
+  if (!LoadCGFromJsonOpt.empty() &&
+      !(std::filesystem::exists(LoadCGFromJsonOpt.getValue()) &&
+        !std::filesystem::is_directory(LoadCGFromJsonOpt.getValue()))) {
+    llvm::errs() << "Call-graph file '" << LoadCGFromJsonOpt
+                 << "' does not exist!\n";
+    exit(1);
+  }
+}
+
 } // anonymous namespace
 
 int main(int Argc, const char **Argv) {
@@ -374,6 +384,7 @@ int main(int Argc, const char **Argv) {
   validateSoundnessFlag();
   validateParamAnalysisConfig();
   validatePTAJsonFile();
+  validateCGJsonFile();
 
   [[maybe_unused]] auto &PConfig = PhasarConfig::getPhasarConfig();
 
-- 
2.43.0


From bf8e3c1b0f932235f626cb0d119d878ab1046f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 095/101] fix: phasar-cli: pass the solver options on to the
 solver

---
 tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h b/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h
index 645c055..31d8d9e 100644
--- a/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h
+++ b/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h
@@ -27,6 +27,7 @@ template <typename SolverTy, typename ProblemTy, typename... ArgTys>
 static void executeIfdsIdeAnalysis(AnalysisController &Data, ArgTys &&...Args) {
   auto Problem =
       createAnalysisProblem<ProblemTy>(*Data.HA, std::forward<ArgTys>(Args)...);
+  Problem.setIFDSIDESolverConfig(Data.SolverConfig);
   SolverTy Solver(Problem, &Data.HA->getICFG());
   {
     std::optional<Timer> MeasureTime;
-- 
2.43.0


From 426b0379dc4ace1a4670c9509f6e7e0363574669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:54 +0000
Subject: [PATCH 096/101] fix: phasar-cli: keep the results of all requested
 analyses in the output directory

---
 .../Controller/AnalysisControllerInternal.h   | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tools/phasar-cli/Controller/AnalysisControllerInternal.h b/tools/phasar-cli/Controller/AnalysisControllerInternal.h
index 1246518..ffa1762 100644
--- a/tools/phasar-cli/Controller/AnalysisControllerInternal.h
+++ b/tools/phasar-cli/Controller/AnalysisControllerInternal.h
@@ -20,6 +20,8 @@
 #include "phasar/Utils/Timer.h"
 
 #include "llvm/Support/Compiler.h"
+#include "llvm/Support/FileSystem.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include "AnalysisController.h"
 
@@ -63,6 +65,22 @@ static void statsEmitter(llvm::raw_ostream & /*OS*/, const T & /*Solver*/) {}
 template <typename T, typename U>
 static void statsEmitter(llvm::raw_ostream &OS, const IDESolver<T, U> &Solver);
 
+/// Opens one of the result files that are shared by all requested data-flow
+/// analyses, such that the results of an analysis do not overwrite the results
+/// of the analyses that were executed before
+[[nodiscard]] static inline std::unique_ptr<llvm::raw_fd_ostream>
+openResultFile(const std::string &Filename) {
+  std::error_code EC;
+  auto OFS = std::make_unique<llvm::raw_fd_ostream>(Filename, EC,
+                                                    llvm::sys::fs::OF_Append);
+  if (EC) {
+    llvm::errs() << "Failed to open file: " << Filename << "; " << EC.message()
+                 << '\n';
+    return nullptr;
+  }
+  return OFS;
+}
+
 template <typename T>
 static void emitRequestedDataFlowResults(AnalysisController &Data, T &Solver) {
   auto EmitterOptions = Data.EmitterOptions;
@@ -71,7 +89,7 @@ static void emitRequestedDataFlowResults(AnalysisController &Data, T &Solver) {
   if (EmitterOptions & AnalysisControllerEmitterOptions::EmitTextReport) {
     if (!ResultDirectory.empty()) {
       if (auto OFS =
-              openFileStream(ResultDirectory.string() + "/psr-report.txt")) {
+              openResultFile(ResultDirectory.string() + "/psr-report.txt")) {
         Solver.emitTextReport(*OFS);
       }
     } else {
@@ -81,7 +99,7 @@ static void emitRequestedDataFlowResults(AnalysisController &Data, T &Solver) {
   if (EmitterOptions & AnalysisControllerEmitterOptions::EmitGraphicalReport) {
     if (!ResultDirectory.empty()) {
       if (auto OFS =
-              openFileStream(ResultDirectory.string() + "/psr-report.html")) {
+              openResultFile(ResultDirectory.string() + "/psr-report.html")) {
         Solver.emitGraphicalReport(*OFS);
       }
     } else {
@@ -90,7 +108,7 @@ static void emitRequestedDataFlowResults(AnalysisController &Data, T &Solver) {
   }
   if (EmitterOptions & AnalysisControllerEmitterOptions::EmitRawResults) {
     if (!ResultDirectory.empty()) {
-      if (auto OFS = openFileStream(ResultDirectory.string() +
+      if (auto OFS = openResultFile(ResultDirectory.string() +
                                     "/psr-raw-results.txt")) {
         Solver.dumpResults(*OFS);
       }
-- 
2.43.0


From c16810dd995c4b20db3c69421d917a81a330f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:00 +0000
Subject: [PATCH 097/101] fix: phasar-cli: reject entry points that are all
 undefined

---
 tools/phasar-cli/phasar-cli.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/phasar-cli/phasar-cli.cpp b/tools/phasar-cli/phasar-cli.cpp
index abaa5d2..5f07a70 100644
--- a/tools/phasar-cli/phasar-cli.cpp
+++ b/tools/phasar-cli/phasar-cli.cpp
@@ -10,6 +10,7 @@
 #include "phasar/AnalysisStrategy/Strategies.h"
 #include "phasar/Config/Configuration.h"
 #include "phasar/ControlFlow/CallGraphAnalysisType.h"
+#include "phasar/PhasarLLVM/ControlFlow/EntryFunctionUtils.h"
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 #include "phasar/PhasarLLVM/HelperAnalyses.h"
 #include "phasar/PhasarLLVM/Utils/DataFlowAnalysisType.h"
@@ -478,6 +479,14 @@ int main(int Argc, const char **Argv) {
     return 1;
   }
 
+  const bool NeedsEntryPoints =
+      !DataFlowAnalysisOpt.empty() || EmitCGAsDotOpt || EmitCGAsJsonOpt;
+  if (NeedsEntryPoints &&
+      getEntryFunctions(HA.getProjectIRDB(), EntryOpt).empty()) {
+    llvm::errs() << "None of the entry points is defined in the module!\n";
+    return 1;
+  }
+
   AnalysisController Controller{
       &HA,
       DataFlowAnalysisOpt,
-- 
2.43.0


From d07369cfb177022328c27731968daa96eff1dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:05 +0000
Subject: [PATCH 098/101] fix: phasar-cli: use a new output directory for every
 run

---
 tools/phasar-cli/phasar-cli.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tools/phasar-cli/phasar-cli.cpp b/tools/phasar-cli/phasar-cli.cpp
index 5f07a70..3ad828d 100644
--- a/tools/phasar-cli/phasar-cli.cpp
+++ b/tools/phasar-cli/phasar-cli.cpp
@@ -500,9 +500,16 @@ int main(int Argc, const char **Argv) {
   };
   if (!OutDirOpt.empty()) {
     // create directory for results
-    Controller.ResultDirectory /=
-        Controller.ProjectID + "-" + createTimeStamp();
-    std::filesystem::create_directory(Controller.ResultDirectory);
+    const auto DirName = Controller.ProjectID + "-" + createTimeStamp();
+    Controller.ResultDirectory /= DirName;
+    // The time stamp has a resolution of one second; do not mix up the results
+    // of several runs
+    for (unsigned Ctr = 1;
+         !std::filesystem::create_directory(Controller.ResultDirectory);
+         ++Ctr) {
+      Controller.ResultDirectory.replace_filename(DirName + "-" +
+                                                  std::to_string(Ctr));
+    }
   }
 
   Controller.emitRequestedHelperAnalysisResults();
-- 
2.43.0


From 141b49a5be3dc026fde67e0e147498077b23947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:03 +0000
Subject: [PATCH 099/101] fix: do not print the trace of the linear-constant
 report to stdout

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 0be79f9..3a77003 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -670,18 +670,18 @@ void IDELinearConstantAnalysis::stripBottomResults(
 IDELinearConstantAnalysis::lca_results_t
 IDELinearConstantAnalysis::getLCAResults(SolverResults<n_t, d_t, l_t> SR) {
   std::map<std::string, std::map<unsigned, LCAResult>> AggResults;
-  llvm::outs() << "\n==== Computing LCA Results ====\n";
+  PHASAR_LOG_LEVEL(DEBUG, "==== Computing LCA Results ====");
   for (const auto *F : ICF->getAllFunctions()) {
     std::string FName = getFunctionNameFromIR(F);
-    llvm::outs() << "\n-- Function: " << FName << " --\n";
+    PHASAR_LOG_LEVEL(DEBUG, "-- Function: " << FName << " --");
     std::map<unsigned, LCAResult> FResults;
     std::set<std::string> AllocatedVars;
     for (const auto *Stmt : ICF->getAllInstructionsOf(F)) {
       unsigned Lnr = getLineFromIR(Stmt);
-      llvm::outs() << "\nIR : " << NToString(Stmt) << "\nLNR: " << Lnr << '\n';
+      PHASAR_LOG_LEVEL(DEBUG, "IR : " << NToString(Stmt) << " LNR: " << Lnr);
       // We skip statements with no source code mapping
       if (Lnr == 0) {
-        llvm::outs() << "Skipping this stmt!\n";
+        PHASAR_LOG_LEVEL(DEBUG, "Skipping this stmt!");
         continue;
       }
       LCAResult *LcaRes = &FResults[Lnr];
@@ -699,7 +699,8 @@ IDELinearConstantAnalysis::getLCAResults(SolverResults<n_t, d_t, l_t> SR) {
       }
       LcaRes->IRTrace.push_back(Stmt);
       if (Stmt->isTerminator() && !ICF->isExitInst(Stmt)) {
-        llvm::outs() << "Delete result since stmt is Terminator or Exit!\n";
+        PHASAR_LOG_LEVEL(DEBUG,
+                         "Delete result since stmt is Terminator or Exit!");
         FResults.erase(Lnr);
       } else {
         // check results of succ(stmt)
@@ -709,16 +710,16 @@ IDELinearConstantAnalysis::getLCAResults(SolverResults<n_t, d_t, l_t> SR) {
         } else {
           // It's not a terminator inst, hence it has only a single successor
           const auto *Succ = ICF->getSuccsOf(Stmt)[0];
-          llvm::outs() << "Succ stmt: " << NToString(Succ) << '\n';
+          PHASAR_LOG_LEVEL(DEBUG, "Succ stmt: " << NToString(Succ));
           Results = SR.resultsAt(Succ, true);
         }
         stripBottomResults(Results);
         std::set<std::string> ValidVarsAtStmt;
         for (auto Res : Results) {
           auto VarName = getVarNameFromIR(Res.first);
-          llvm::outs() << "  D: " << DToString(Res.first)
-                       << " | V: " << LToString(Res.second)
-                       << " | Var: " << VarName << '\n';
+          PHASAR_LOG_LEVEL(DEBUG, "  D: " << DToString(Res.first)
+                                      << " | V: " << LToString(Res.second)
+                                      << " | Var: " << VarName);
           if (!VarName.empty()) {
             // Only store/overwrite values of variables from allocas or globals
             // unless there is no value stored for a variable
@@ -739,7 +740,7 @@ IDELinearConstantAnalysis::getLCAResults(SolverResults<n_t, d_t, l_t> SR) {
         for (auto It = LcaRes->VariableToValue.begin();
              It != LcaRes->VariableToValue.end();) {
           if (ValidVarsAtStmt.find(It->first) == ValidVarsAtStmt.end()) {
-            llvm::outs() << "Erase var: " << It->first << '\n';
+            PHASAR_LOG_LEVEL(DEBUG, "Erase var: " << It->first);
             It = LcaRes->VariableToValue.erase(It);
           } else {
             ++It;
-- 
2.43.0


From bc9d385f07e46a28ba5ce7e34833a60f2067399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:13 +0000
Subject: [PATCH 100/101] fix: report every use of an uninitialised variable at
 its own location

---
 .../Problems/IFDSUninitializedVariables.cpp   | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index f1ecacf..6f717a4 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -27,6 +27,9 @@
 #include "llvm/IR/Value.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <map>
+#include <string>
+#include <tuple>
 #include <utility>
 
 namespace psr {
@@ -435,25 +438,23 @@ void IFDSUninitializedVariables::emitTextReport(
 
 std::vector<IFDSUninitializedVariables::UninitResult>
 IFDSUninitializedVariables::aggregateResults() {
-  std::vector<IFDSUninitializedVariables::UninitResult> Results;
-  unsigned int LineNr = 0;
-
-  unsigned int CurrLineNr = 0;
-  UninitResult UR;
+  // The uses are aggregated by their source location. The order of
+  // UndefValueUses depends on the addresses of the instructions, so the uses of
+  // one location are not necessarily adjacent
+  std::map<std::tuple<std::string, unsigned, std::string>, UninitResult>
+      ResultAtLocation;
   for (const auto &User : UndefValueUses) {
-    // new line nr idicates a new uninit use on source code level
-    LineNr = getLineFromIR(User.first);
-    if (CurrLineNr != LineNr) {
-      CurrLineNr = LineNr;
-      UninitResult NewUR;
-      NewUR.Line = LineNr;
-      NewUR.FuncName = getFunctionNameFromIR(User.first);
-      NewUR.FilePath = getFilePathFromIR(User.first);
-      NewUR.SrcCode = getSrcCodeFromIR(User.first);
-      if (!UR.empty()) {
-        Results.push_back(UR);
-      }
-      UR = NewUR;
+    auto LineNr = getLineFromIR(User.first);
+    auto FuncName = getFunctionNameFromIR(User.first);
+    auto FilePath = getFilePathFromIR(User.first);
+    auto [It, Inserted] =
+        ResultAtLocation.try_emplace(std::tuple(FilePath, LineNr, FuncName));
+    auto &UR = It->second;
+    if (Inserted) {
+      UR.Line = LineNr;
+      UR.FuncName = FuncName;
+      UR.FilePath = FilePath;
+      UR.SrcCode = getSrcCodeFromIR(User.first);
     }
     // add current IR trace
     UR.IRTrace[User.first] = User.second;
@@ -465,8 +466,11 @@ IFDSUninitializedVariables::aggregateResults() {
       }
     }
   }
-  if (!UR.empty()) {
-    Results.push_back(UR);
+
+  std::vector<IFDSUninitializedVariables::UninitResult> Results;
+  Results.reserve(ResultAtLocation.size());
+  for (auto &Entry : ResultAtLocation) {
+    Results.push_back(std::move(Entry.second));
   }
   return Results;
 }
-- 
2.43.0


From 576bfee53928df09d6f002581fe9d60b6942a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 101/101] fix: keep printing local values by name after a
 function was printed

---
 lib/PhasarLLVM/Utils/LLVMShorthands.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
index 99f8095..4902d1a 100644
--- a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
@@ -151,6 +151,16 @@ llvm::ModuleSlotTracker &psr::getModuleSlotTrackerFor(const llvm::Value *V) {
   return ModulesToSlotTracker::getSlotTrackerForModule(M);
 }
 
+static void printValue(const llvm::Value *V, llvm::raw_ostream &OS) {
+  if (llvm::isa<llvm::Function>(V)) {
+    // Printing a function leaves the slot tracker without any local slots,
+    // although it still considers its current function as incorporated
+    V->print(OS);
+    return;
+  }
+  V->print(OS, getModuleSlotTrackerFor(V));
+}
+
 std::string psr::llvmIRToString(const llvm::Value *V) {
   if (!V) {
     return "<null>";
@@ -158,7 +168,7 @@ std::string psr::llvmIRToString(const llvm::Value *V) {
 
   std::string IRBuffer;
   llvm::raw_string_ostream RSO(IRBuffer);
-  V->print(RSO, getModuleSlotTrackerFor(V));
+  printValue(V, RSO);
   RSO << " | ID: " << getMetaDataID(V);
   RSO.flush();
   return llvm::StringRef(IRBuffer).ltrim().str();
@@ -170,7 +180,7 @@ std::string psr::llvmIRToStableString(const llvm::Value *V) {
   }
   std::string IRBuffer;
   llvm::raw_string_ostream RSO(IRBuffer);
-  V->print(RSO, getModuleSlotTrackerFor(V));
+  printValue(V, RSO);
   RSO.flush();
 
   auto IRBufferRef = llvm::StringRef(IRBuffer).ltrim();
-- 
2.43.0

