From 3fbf52dd791b23cc98a505397c85c6e67b0d4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 01/10] fix: tree nodes predict the most frequent class, not
 the first one

The Node constructor looked for the maximum in its count_per_class parameter
after moving it into the member of the same name, so it always saw an empty
vector and every node predicted the lowest class.
---
 src/models/impl/DecisionTreeImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..1f45b25 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -239,9 +239,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
 {
   // Find predicted class as the maximum element in the
   // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // The parameter has been moved from, hence use the member.
+  int idx = std::distance(this->count_per_class.begin(),
+                          std::max_element(this->count_per_class.begin(),
+                                           this->count_per_class.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From 0f9ac0206b91b2d5fae0a6f46aec8138cc76915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 02/10] fix: keep the split threshold between the values it
 separates

The float midpoint of two neighbouring values can round to the left value, or
overflow for large ones, and training samples were then predicted by the wrong
branch.
---
 src/models/impl/DecisionTreeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 1f45b25..7dba0ed 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -357,6 +357,11 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       split_it = It;
       split_feature_idx = feature_idx;
       split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      // The midpoint may overflow or round to the left value, keep it within
+      // (left, right] so that prediction follows the split.
+      if (!(feature_val_left < split_threshold &&
+            split_threshold <= feature_val_right))
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From c91669594b9dac454112802473167d9837310376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 03/10] fix: loading a decision tree replaces the classes and
 data of the old one

They were merged, so saving the loaded tree read past the end of its per-class
counts.
---
 src/models/impl/DecisionTreeImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 7dba0ed..63f3124 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -605,6 +605,10 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
 {
   Parser parser(is);
 
+  // Loading replaces any previous tree.
+  classes.clear();
+  data.clear();
+
   parser.getNextToken();
   parser.parseExpected("tree:");
 
-- 
2.43.0


From c68e4fc83de986aac8c97cb1e960eceef761a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 04/10] fix: training or loading a random forest replaces its
 trees

The new trees were appended to the old ones, which went on voting.
---
 src/models/impl/RandomForestImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..ae6befc 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -30,6 +30,9 @@ RandomForestImpl::RandomForestImpl(int num_classes,
 void RandomForestImpl::train(std::vector<std::vector<float>> &features,
                              std::vector<int> &responses)
 {
+  // Training replaces any previous trees.
+  rfc.clear();
+
   // Uniform random generator using Mersenne-Twister for randomness.
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
@@ -152,6 +155,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Loading replaces any previous trees.
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From 865cd723edf72f7ae88c449fe61edce6a905dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 05/10] fix: save tree and forest thresholds with full
 precision

With the default six digits a loaded model had other thresholds than the saved
one and predicted differently for features between them.
---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 63f3124..9c8ec97 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -182,6 +183,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Floats must read back exactly.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index ae6befc..9ced37f 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -106,6 +107,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Floats must read back exactly.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From 2f788955879507cbb85a833503432500266e68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 06/10] fix: separate the features of a stored dataset so that
 it can be loaded

load expects every feature in a token of its own, entries with several features
were written as one token and aborted the load.
---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..5588c46 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -101,8 +101,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From ca84fd0a91969f81b522bf7a4d4d9845dc7b3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 07/10] fix: store dataset features and metrics with full
 precision

With the default six digits a loaded dataset differed from the stored one.
---
 src/Dataset.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 5588c46..0fdcc5d 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,9 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Values must read back exactly.
+  const auto precision =
+      os.precision(std::numeric_limits<double>::max_digits10);
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -109,6 +114,7 @@ void Apollo::Dataset::store(std::ostream &os)
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
-- 
2.43.0


From f6645f36d5b54695fda8e8c13d11b9ee30f2844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 08/10] fix: PolicyNet::load drops the cached action
 probabilities

Probabilities computed before loading were used after it.
---
 src/models/PolicyNet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..f73d398 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -681,6 +681,9 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&rewardMovingAvg, sizeof(double));
   f.read((char *)&trainCount, sizeof(int));
 
+  // Forget the probabilities computed with the previous parameters.
+  actionProbabilityMap.clear();
+
   f.close();
 }
 
-- 
2.43.0


From 02818a50f9130e09aaaee8b9192c7bc927d916d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 09/10] fix: Kokkos integer ranges start at their first
 admissible value

The test for an open lower bound was inverted: closed ranges skipped their lower
bound and offered a value above the upper one, open ranges offered the excluded
bound.
---
 src/connectors/kokkos/kokkos-connector.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..a9da1d9 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -165,9 +165,8 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
   if (info->type == ValueType::kokkos_value_int64) {
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
-          (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+          (with_this.openLower ? (with_this.lower.int_value + 1)
+                               : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
-- 
2.43.0


From ead088e4b6cb5ecece0d9d23c62609cae006bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 10/10] fix: do not train the single model on an empty dataset

The tree models access the first sample without one.
---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..b263c7d 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // There is nothing to train on.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0

