From 66a0e0215d9883d52df4730cb99d9ab8cfd9ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 001/150] fix: search visits models by their targets, whatever
 the order of the partitions

---
 .../modeling/search/searcher.cpp              | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..fb240f1 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -4,6 +4,8 @@
  See accompanying file LICENSE
 */
 
+#include <algorithm>
+
 #include "searchers.h"
 
 using namespace ldt;
@@ -120,6 +122,11 @@ void Searcher::UpdateCurrent() {
         pCombinations->Partitions.at(PartitionIndices.Mat.Data[i])
             .at(ItemIndices.Mat.Data[i]);
   }
+
+  if (CheckForEmpty) // targets come first, whatever the order of the partitions
+    std::stable_partition(
+        CurrentIndices.Vec.begin(), CurrentIndices.Vec.end(),
+        [this](Ti a) { return a < this->pItems->LengthTargets; });
 }
 
 void Searcher::CheckStart() {
@@ -149,7 +156,9 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
 
     try {
       UpdateCurrent(); // e.g., update 0,0,0
-      AddState(EstimateOne(work, workI));
+      if (CheckForEmpty == false ||
+          CurrentIndices.Vec.at(0) < this->pItems->LengthTargets)
+        AddState(EstimateOne(work, workI));
     } catch (std::exception &ex) {
       AddState(std::string(ex.what()));
     } catch (std::string &ex) {
@@ -326,18 +335,22 @@ Ti Searcher::GetCount(bool effective) const {
     auto item_indices = VMatrix<Ti>(NumPartitions, 1);
     item_indices.Mat.SetValue(0);
 
+    auto is_empty = [&]() -> bool { // no target in the current combination
+      for (Ti i = 0; i < NumPartitions; i++)
+        if (pCombinations->Partitions.at(partition_indices.Mat.Data[i])
+                .at(item_indices.Mat.Data[i]) < this->pItems->LengthTargets)
+          return false;
+      return true;
+    };
+
     Ti c, T, free;
-    count = 1;
+    count = CheckForEmpty && is_empty() ? 0 : 1;
     while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
                      NumPartitions, partitionSizes, pCombinations->Partitions,
                      pCombinations->NumFixPartitions,
                      pCombinations->NumFixItems)) {
-      if (CheckForEmpty) {
-        auto c0 = pCombinations->Partitions.at(partition_indices.Mat.Data[0])
-                      .at(item_indices.Mat.Data[0]);
-        if (c0 >= this->pItems->LengthTargets)
-          continue;
-      }
+      if (CheckForEmpty && is_empty())
+        continue;
       count++;
     }
   }
-- 
2.43.0


From a0e20f6964d2c04c6ce2489f3e0153a0b868d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 002/150] fix: combined list of the best models is ordered by
 the metric

---
 src/ldt_statistics/modeling/search/modelset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..7200020 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -188,13 +188,15 @@ void ModelSet::CombineBests(
   auto k = summaries.at(0)->pItems->KeepBestCount;
   if (k <= 0)
     return;
+  // weights might be equal (e.g., due to underflow), compare the metrics
+  auto better = EstimationKeepComp(pMetrics->EvalIsPosOrientation.at(index1));
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
       for (auto &w : s->Bests) {
         for (Ti i = 0; i < k; i++) {
           if (i >= (Ti)result.size())
             result.push_back(w);
-          else if (w->Weight > result.at(i)->Weight)
+          else if (better(w, result.at(i)))
             result.insert(result.begin() + i, w);
           else
             continue;
-- 
2.43.0


From 80cee198ec839353859d63a1b3c473c7e3ff3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 003/150] fix: upper extreme bound of negative estimates

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 7200020..ac4dd10 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -254,7 +254,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From 0b456b4b228791f9696c1968995621c3bbfab064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 004/150] fix: zero weights do not destroy the running moments

---
 include/array.h                   | 29 ++++++++++++++++++++++++++---
 include/math/statistics/running.h |  3 +++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index d74f38d..1067dbf 100644
--- a/include/array.h
+++ b/include/array.h
@@ -527,6 +527,23 @@ public:
                              const Tw &M4_2, Tw &sumW, Tw &mean, Tw &M2, Tw &M3,
                              Tw &M4) {
 
+    if (sumW_1 == 0) { // there is no information in the first set
+      sumW = sumW_2;
+      mean = mean_2;
+      M2 = M2_2;
+      M3 = M3_2;
+      M4 = M4_2;
+      return;
+    }
+    if (sumW_2 == 0) { // there is no information in the second set
+      sumW = sumW_1;
+      mean = mean_1;
+      M2 = M2_1;
+      M3 = M3_1;
+      M4 = M4_1;
+      return;
+    }
+
     auto temp = sumW_1 + sumW_2;
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
@@ -568,6 +585,9 @@ public:
       ww = 1;
     }
 
+    if (ww == 0) // it has no information
+      return;
+
     auto delta = x - mean;
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
@@ -651,9 +671,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
diff --git a/include/math/statistics/running.h b/include/math/statistics/running.h
index 9fac1a2..e7a9a99 100644
--- a/include/math/statistics/running.h
+++ b/include/math/statistics/running.h
@@ -159,6 +159,9 @@ public:
         return;
     }
 
+    if (weight == 0) // it has no information
+      return;
+
     Tw m2, m3, m4;
 
     // convert to moments
-- 
2.43.0


From 7b43d490a5c83fd1a7ae6abb14901c0b3ddbb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 005/150] fix: products of small weights do not underflow in
 the running moments

---
 include/array.h                   | 35 ++++++++++++++++---------------
 include/math/statistics/running.h | 10 +++++----
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/array.h b/include/array.h
index 1067dbf..f3e55e2 100644
--- a/include/array.h
+++ b/include/array.h
@@ -548,29 +548,29 @@ public:
     Tv delta = mean_2 - mean_1;
     Tv delta2 = delta * delta;
 
+    // relative weights (products of small weights might underflow)
+    Tv r1 = sumW_1 / temp;
+    Tv r2 = sumW_2 / temp;
+
     mean = (sumW_1 * mean_1 + sumW_2 * mean_2) / temp;
 
     if constexpr (moments == 4) { // Pebay (2008). Formulas for Robust, One-Pass
                                   // Parallel..., Eq. 1.6
       M4 = M4_1 + M4_2 +
-           delta2 * delta2 * sumW_1 * sumW_2 *
-               (sumW_1 * sumW_1 - sumW_1 * sumW_2 + sumW_2 * sumW_2) /
-               (temp * temp * temp) +
-           6 * delta2 * (sumW_1 * sumW_1 * M2_2 + sumW_2 * sumW_2 * M2_1) /
-               (temp * temp) +
-           4 * delta * (sumW_1 * M3_2 - sumW_2 * M3_1) / temp;
+           delta2 * delta2 * sumW_1 * r2 * (r1 * r1 - r1 * r2 + r2 * r2) +
+           6 * delta2 * (r1 * r1 * M2_2 + r2 * r2 * M2_1) +
+           4 * delta * (r1 * M3_2 - r2 * M3_1);
     }
 
     if constexpr (moments >= 3) { // Pebay (2008). Formulas for Robust, One-Pass
                                   // Parallel..., Eq. 1.5
       M3 =
-          M3_1 + M3_2 +
-          delta * delta2 * sumW_1 * sumW_2 * (sumW_1 - sumW_2) / (temp * temp) +
-          3 * delta * (sumW_1 * M2_2 - sumW_2 * M2_1) / temp;
+          M3_1 + M3_2 + delta * delta2 * sumW_1 * r2 * (r1 - r2) +
+          3 * delta * (r1 * M2_2 - r2 * M2_1);
     }
 
     if constexpr (moments >= 2) {
-      M2 = M2_1 + M2_2 + delta2 * sumW_1 * sumW_2 / temp; // Eq. 1.4
+      M2 = M2_1 + M2_2 + delta2 * sumW_1 * r2; // Eq. 1.4
     }
 
     sumW = temp;
@@ -592,22 +592,23 @@ public:
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
 
+    // relative weights (products of small weights might underflow)
+    Tv r1 = sumW / temp;
+    Tv r2 = ww / temp;
+
     mean = (sumW * mean + ww * x) / temp;
 
     if constexpr (moments == 4) {
-      M4 += delta2 * delta2 * sumW * ww * (sumW * sumW - sumW * ww + ww * ww) /
-                (temp * temp * temp) +
-            6 * delta2 * (ww * ww * M2) / (temp * temp) +
-            4 * delta * (-ww * M3) / temp;
+      M4 += delta2 * delta2 * sumW * r2 * (r1 * r1 - r1 * r2 + r2 * r2) +
+            6 * delta2 * (r2 * r2 * M2) + 4 * delta * (-r2 * M3);
     }
 
     if constexpr (moments >= 3) {
-      M3 += delta * delta2 * sumW * ww * (sumW - ww) / (temp * temp) +
-            3 * delta * (-ww * M2) / temp;
+      M3 += delta * delta2 * sumW * r2 * (r1 - r2) + 3 * delta * (-r2 * M2);
     }
 
     if constexpr (moments >= 2) {
-      M2 += delta2 * sumW * ww / temp;
+      M2 += delta2 * sumW * r2;
     }
 
     sumW = temp;
diff --git a/include/math/statistics/running.h b/include/math/statistics/running.h
index e7a9a99..3c95149 100644
--- a/include/math/statistics/running.h
+++ b/include/math/statistics/running.h
@@ -54,7 +54,8 @@ public:
   /// otherwise skewness
   Tw GetSkewness() {
     if constexpr (moments >= 3) {
-      return SumWeights == 0 ? NAN : sqrt(SumWeights) * mM3 / pow(mM2, 1.5);
+      return SumWeights == 0 ? NAN
+                             : (mM3 / SumWeights) / pow(mM2 / SumWeights, 1.5);
     } else if constexpr (true) {
       return NAN;
     }
@@ -65,7 +66,8 @@ public:
   /// otherwise kurtosis. Note that it is not excess kurtosis
   Tw GetKurtosis() {
     if constexpr (moments == 4) {
-      return SumWeights == 0 ? NAN : SumWeights * mM4 / (mM2 * mM2) - 3;
+      return SumWeights == 0 ? NAN
+                             : (mM4 / SumWeights) / pow(mM2 / SumWeights, 2) - 3;
     } else if constexpr (true) {
       return NAN;
     }
@@ -174,7 +176,7 @@ public:
     }
 
     if constexpr (moments >= 3) {
-      m3 = pow(m2, 1.5) * skew / sqrt(weight);
+      m3 = pow(var, 1.5) * skew * weight;
       if constexpr (skipNAN) {
         if (std::isnan(m3))
           return;
@@ -182,7 +184,7 @@ public:
     }
 
     if constexpr (moments == 4) {
-      m4 = (kurt + 3) * (m2 * m2) / weight;
+      m4 = (kurt + 3) * (var * var) * weight;
       if constexpr (skipNAN) {
         if (std::isnan(m4))
           return;
-- 
2.43.0


From 85816be559718b3430e81c80533285e554746951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 006/150] fix: dates outside a list are ordered by their
 positions

---
 src/frequency/f_list.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..1992a2f 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -52,12 +52,10 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
   CheckClassEquality(*this, other);
-  auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
+  auto steps = Minus(other); // it also considers the positions of out-items
+  if (steps > 0)
     return 1;
-  else if (i1 < i2)
+  else if (steps < 0)
     return -1;
   return 0;
 }
-- 
2.43.0


From b9c49400f990abe490760675995041a0fa1aa599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 007/150] fix: a week range with one day has length 1

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..97c1c4d 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
-- 
2.43.0


From d345bddc1c859da31d84f02b4f4502f4c2ce2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 008/150] fix: no empty first part in partitions of equal size

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 24a4a13..4e701d3 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -129,7 +129,7 @@ void Array<Tw>::PartitionEqual(const std::vector<Tw> &data,
                                bool fromEnd) {
   result.clear();
   if (fromEnd) {
-    for (Ti i = (Ti)data.size(); i >= 0; i -= size) {
+    for (Ti i = (Ti)data.size(); i > 0; i -= size) {
       int start = std::max(i - size, 0);
       result.insert(result.begin(),
                     std::vector<Tw>(data.begin() + start, data.begin() + i));
-- 
2.43.0


From 30f70cfecaf8cc5d187dff0653faee5e13f39178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 009/150] fix: range of an empty array is not valid

---
 src/array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array.cpp b/src/array.cpp
index 4e701d3..017e678 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -31,6 +31,8 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length) {
 
   if constexpr (std::numeric_limits<Tw>::has_quiet_NaN) {
     Ti start, end;
+    if (length <= 0)
+      return IndexRange(1, 0);
     for (start = 0; start < length; start++)
       if (std::isnan(data[start]) == false)
         break;
@@ -56,6 +58,8 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length,
   if constexpr (std::numeric_limits<Tw>::has_quiet_NaN) {
     Ti start, end;
     hasMissing = false;
+    if (length <= 0)
+      return IndexRange(1, 0);
     for (start = 0; start < length; start++)
       if (std::isnan(data[start]) == false)
         break;
-- 
2.43.0


From cfa60c98cd38db1f8968d4e0cd37e6b04d9730dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 010/150] fix: text of a variable does not lose the digits of
 its values

---
 src/variable/variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..6a4aee9 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -92,7 +92,7 @@ template <typename Tw> std::string Variable<Tw>::ToString() const {
   ss << (sf == nullptr ? std::string("NA") : sf->ToString());
   ss << '\t';
 
-  ss << std::fixed << std::setprecision(16);
+  ss << std::setprecision(std::numeric_limits<Tw>::max_digits10);
   Ti c = Data.size();
   Ti i = 0;
   for (auto const &d : Data) {
-- 
2.43.0


From f71f5aa424ab75050c51a861f7bd14382fa768d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 011/150] fix: parsing a variable without fields

---
 src/variable/variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 6a4aee9..3ff515a 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -167,8 +167,10 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // Fields
     result.Fields.clear();
     for (Ti i = 4; i < (Ti)parts.size(); i++) {
+      if (i == 4 && parts.size() == 5 && parts.at(i).empty())
+        break; // there is no field
       auto j = parts.at(i).find(std::string(";"));
-      if (j < 0)
+      if (j == std::string::npos)
         throw LdtException(ErrorType::kLogic, "variable",
                            "invalid field: Key-Value separator is missing");
       result.Fields.insert(
-- 
2.43.0


From 7981ee576390473ecf1ca05cc57aeab07075e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 012/150] fix: conversion to a yearly series separates the
 years

---
 src/variable/variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 3ff515a..0268e3a 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -406,18 +406,20 @@ void Variable<Tw>::ConvertTo_XxYear(
 
     auto current_part = get_part(start.mDay, x);
     auto part = current_part;
+    Ti current_year = start.mDay.year();
 
     for (Ti i = 0; i < (Ti)Data.size(); i++) {
 
       auto day = start.mDay + boost::gregorian::date_duration(i);
       part = get_part(day, x);
 
-      if (part != current_part) {
+      if (part != current_part || day.year() != current_year) {
         result.Data.push_back(aggF(partdata));
         partdata.clear();
       }
       partdata.push_back(Data.at(i));
       current_part = part;
+      current_year = day.year();
     }
     if (partdata.size() > 0)
       result.Data.push_back(aggF(partdata));
-- 
2.43.0


From 19b494fe1c3b342bc18b6589f63081ffdcf82603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 013/150] fix: parts of a year are found by exact arithmetic

---
 src/variable/variable.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 0268e3a..5ec4385 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -376,12 +376,11 @@ void Variable<Tw>::ConvertTo_Weekly(
 }
 
 static Ti get_part(boost::gregorian::date date, Ti x) {
-  auto day_of_year = date.day_of_year();
-  int partition;
-  if (boost::gregorian::gregorian_calendar::is_leap_year(date.year()))
-    partition = ((day_of_year - 1) / 366.0) * x + 1;
-  else
-    partition = ((day_of_year - 1) / 365.0) * x + 1;
+  Ti day_of_year = date.day_of_year();
+  Ti length =
+      boost::gregorian::gregorian_calendar::is_leap_year(date.year()) ? 366
+                                                                      : 365;
+  Ti partition = ((day_of_year - 1) * x) / length + 1; // exact
   return partition;
 }
 
-- 
2.43.0


From 348bb4b220fa31ef7366f9fc01ef3da51b7b194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 014/150] fix: setting data of a matrix polynomial replaces the
 previous data

---
 include/math/polynomial.h                |  3 +++
 src/ldt_math/polynomials/mpolynomial.cpp | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/math/polynomial.h b/include/math/polynomial.h
index 36e4ff3..f665391 100644
--- a/include/math/polynomial.h
+++ b/include/math/polynomial.h
@@ -103,6 +103,9 @@ class LDT_EXPORT PolynomialM {
 private:
   bool isOwner = false;
 
+  /// @brief Removes the current coefficients
+  void Clear();
+
 public:
   /// @brief Coefficients of the polynomial
   std::vector<Matrix<Tv> *> Coefficients;
diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..3ddd35a 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -18,16 +18,18 @@ using namespace ldt;
 
 PolynomialM::PolynomialM() { Coefficients = std::vector<Matrix<Tv> *>(); }
 
-PolynomialM::~PolynomialM() {
+PolynomialM::~PolynomialM() { Clear(); }
+
+void PolynomialM::Clear() {
   if (isOwner) {
     for (auto i : Coefficients)
       delete i;
-    Coefficients.clear();
   }
+  Coefficients.clear();
+  isOwner = false;
 }
 
 void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
-  isOwner = false;
   Ti j = (Ti)a.size();
   // trim
   if (trim) {
@@ -39,6 +41,7 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
   if (j == 0)
     throw LdtException(ErrorType::kLogic, "mpoly", "length of 'a' must be > 0");
   j--;
+  Clear();
   for (int i = 0; i < j + 1; i++)
     Coefficients.push_back(a.at(i));
 }
@@ -46,6 +49,7 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
 Ti PolynomialM::Data(Ti degree, Ti m, Tv *data) {
 
   auto mm = m * m;
+  Clear();
   isOwner = true; // delete the list
   for (Ti i = 0; i < degree + 1; i++)
     Coefficients.push_back(
-- 
2.43.0


From 4772ee66ef111bbaca55ef6eb5c2b15b169c3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 015/150] fix: truncated power of a polynomial does not write
 out of its storage

---
 src/ldt_math/polynomials/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_math/polynomials/polynomial.cpp b/src/ldt_math/polynomials/polynomial.cpp
index 9010473..cd5d434 100644
--- a/src/ldt_math/polynomials/polynomial.cpp
+++ b/src/ldt_math/polynomials/polynomial.cpp
@@ -109,7 +109,7 @@ void PolynomialPower<Tw>::Calculate(const Polynomial<Tw> &a, Ti power,
   }
 
   Result.Coefficients.SetSubVector0(0, a.Coefficients, 0,
-                                    a.Coefficients.length());
+                                    std::min(length, a.Coefficients.length()));
   auto pm = PolynomialMultiply<Tw>(a_n, length - 1, maxLength);
   auto x = Matrix<Tw>(work, length, 1);
   for (Ti i = 1; i < power; i++) { // TODO: is there a direct formula?
-- 
2.43.0


From ee0cb85954d3714da67599a1ab52b04c3e7659f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 016/150] fix: pessimistic ROC moves horizontally before it
 moves vertically

---
 src/ldt_statistics/scoring/roc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/scoring/roc.cpp b/src/ldt_statistics/scoring/roc.cpp
index fb34cf0..3b7e8e5 100644
--- a/src/ldt_statistics/scoring/roc.cpp
+++ b/src/ldt_statistics/scoring/roc.cpp
@@ -63,10 +63,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     }
 
     if (std::abs(th - thPre) > options.Epsilon) { // push new point(s)
-      sumTP += verti; // overall vertical move (for the rectangle)
       sumFP += horiz;
       if (options.Pessimistic)
-        Points.push_back(std::make_tuple(sumFP, 0)); // no vertical move
+        Points.push_back(std::make_tuple(sumFP, sumTP)); // no vertical move
+      sumTP += verti; // overall vertical move (for the rectangle)
       Points.push_back(std::make_tuple(sumFP, sumTP));
       thPre = th;
       horiz = 0;
@@ -107,8 +107,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     // https://link.springer.com/article/10.1007/s00357-019-09345-1
   }
 
-  sumTP += verti;
   sumFP += horiz;
+  if (options.Pessimistic)
+    Points.push_back(std::make_tuple(sumFP, sumTP));
+  sumTP += verti;
   Points.push_back(std::make_tuple(sumFP, sumTP));
 
   if (normalizePoints) {
-- 
2.43.0


From e5add611e2370f39ce0f71538a0ebfa986a92319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 017/150] fix: cost tables must cover all the probabilities

---
 Rpackage/R/bin.R                              | 2 ++
 src/ldt_statistics/scoring/frequency_cost.cpp | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 0fd7878..703e624 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -480,6 +480,8 @@ check.cost.matrices <- function(costMatrices){
         stop("Values in the first column of a frequency cost matrix must be in [0,1].")
       if (any(diff(C[,1]) <= 0))
         stop("Values in the first column of a frequency cost matrix must be strinctly increasing.")
+      if (C[nrow(C),1] != 1)
+        stop("Last value in the first column of a frequency cost matrix must be 1.")
     }
   }
 }
diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..9f87cb2 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -42,7 +42,8 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
       j++;
       // first column of 'c' is the thresholds. e.g. [0.3, 0.7, 1] means four
       // probability bounds
-      for (rowIndex = 0; rowIndex < c.RowsCount; rowIndex++) {
+      // (last row is for the rest)
+      for (rowIndex = 0; rowIndex < c.RowsCount - 1; rowIndex++) {
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
@@ -78,7 +79,7 @@ void FrequencyCost<hasWeight>::Check(const Matrix<Tv> frequencyCost,
   Tv pre = 0;
   for (Ti i = 0; i < frequencyCost.RowsCount; i++) {
     auto d = frequencyCost.Get0(i, 0);
-    if (d < 0 || d > 1)
+    if (!(d >= 0 && d <= 1)) // NAN too
       throw LdtException(ErrorType::kLogic, "frequencycost",
                          "values in the first column of frequency cost matrix "
                          "must be in [0,1] range");
@@ -91,6 +92,10 @@ void FrequencyCost<hasWeight>::Check(const Matrix<Tv> frequencyCost,
     }
     pre = d;
   }
+  if (pre != 1)
+    throw LdtException(ErrorType::kLogic, "frequencycost",
+                       "invalid frequency cost matrix. The last value in the "
+                       "first column must be 1");
 }
 
 template class ldt::FrequencyCost<true>;
-- 
2.43.0


From 36efefa077a4a530b3ede84345a072bbab09fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 018/150] fix: discrete split uses the fixed training size and
 leaves test observations for every group

---
 src/ldt_statistics/data_split.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..7e42120 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -33,6 +33,14 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
   Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
                             : static_cast<Ti>(std::round(rows * trainRatio));
   Ti N1 = rows - N0;
+
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "training sample size is too low/high with respect to "
+                       "the available observations");
+  if (mTrainFixSize > 0) // share of each group in the training sample
+    mTrainRatio = static_cast<Tv>(N0) / rows;
+
   Sample0.SetData(storage, N0, cols);
   Sample1.SetData(&storage[N0 * cols], N1, cols);
 
@@ -92,7 +100,7 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
             ErrorType::kLogic, "datasplit",
             "invalid group length. All contain just 1 obs. Mi0=" +
                 std::to_string(Mi0));
-      if (Mi0 > Mi)
+      if (Mi0 >= Mi) // the test sample needs one too
         throw LdtException(
             ErrorType::kLogic, "datasplit",
             "invalid training percentage"); // percentage is too high
-- 
2.43.0


From 3143088e4ff4f3018b01d336922b1045196fa176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 019/150] fix: grouping removes columns by their own indexes
 and original distances

---
 src/ldt_statistics/clustering/group_data.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..5888188 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
@@ -48,7 +50,12 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
     }
   }
 
-  cluster.Calculate(distance.Result);
+  // clustering overrides the distances, but we need them for the threshold
+  auto distances =
+      std::vector<Tv>(distance.Result.Data,
+                      distance.Result.Data + distance.Result.length_array());
+  auto clusterDistances = MatrixSym<false>(distances.data(), mat.ColsCount);
+  cluster.Calculate(clusterDistances);
 
   // group
   for (Ti i = 0; i < groupCount; i++)
@@ -60,11 +67,13 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
     auto remove = std::set<size_t>();
     for (auto &g : this->Groups) {
       for (auto i = 0; i < (Ti)g->size(); i++) {
+        if (remove.find(i) != remove.end())
+          continue; // compare with the ones that we keep
         for (auto j = i + 1; j < (Ti)g->size(); j++) {
           auto dis = distance.Result.Get0(g->at(i), g->at(j));
           if (dis < removeThreshold) {
             remove.insert(j);
-            this->Removed.insert(j);
+            this->Removed.insert(g->at(j));
           }
         }
       }
-- 
2.43.0


From 26f5e257f2d7a9af78d19c42db20125abc05b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 020/150] fix: missing data of a previous time series is
 forgotten when new data is set

---
 src/matrix/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..e9ff9cf 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -85,6 +85,8 @@ template <bool byRow, typename Tw>
 void DatasetTs<byRow, Tw>::Data(Matrix<Tw> &data) {
   pData = &data;
   Ranges.clear();
+  HasMissingData = false;
+  WithMissingIndexes.clear();
 
   Ti count;
   if constexpr (byRow) {
-- 
2.43.0


From a43c735c3ad62475d452db5d2caa4a89fcb82689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 021/150] fix: sample variance divides by the length minus one

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..9e7a8a3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -86,7 +86,7 @@ std::tuple<double, double> Descriptive::MeanVariance(bool sample) {
       mean += s;
       m2 += diff * s * i;
     }
-    return std::tuple<double, double>(mean, sample ? m2 / L : m2 / (L - 1));
+    return std::tuple<double, double>(mean, sample ? m2 / (L - 1) : m2 / L);
   }
 }
 
-- 
2.43.0


From ee4636c53febf37879635ca30fb8ded42642a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 022/150] fix: mean that skips missing values divides by the
 number of used values

---
 src/matrix/matrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..c24ca2a 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2606,14 +2606,18 @@ template <typename Tw> Tw Matrix<Tw>::Mean(bool check_nan) const {
         Tw diff;
         me = 0;
         Tw s;
+        Ti j = 0;
         for (Ti i = 0; i < len; i++) {
           d = Data[i];
           if (std::isnan(d))
             continue;
           diff = d - me;
-          s = diff / (i + 1);
+          s = diff / (j + 1);
           me += s;
+          j++;
         }
+        if (j == 0)
+          me = NAN;
       } else {
         Tw d;
         Tw diff;
-- 
2.43.0


From 6f3cb2c1db77b950a5e0a62e299638fe7dc64dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 023/150] fix: Spearman correlation of columns without common
 observations is NAN

---
 src/ldt_statistics/correlation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index 13c6af0..f72c26f 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -166,9 +166,12 @@ void Correlation<checkNaN, type, method>::spearman(const Matrix<Tv> &mat,
           cols.at(1) = j;
           twoCols.Calculate(mat, &cols, twostorage);
           rankm.Calculate(twoCols.Result, rankcorrwork, rankstorage, false);
-          corr.Calculate(rankm.Result, rankcorrwork, corrstorage, adjustDoF,
-                         false);
-          s = corr.Result.Data[2];
+          if (twoCols.Result.RowsCount > 0) {
+            corr.Calculate(rankm.Result, rankcorrwork, corrstorage, adjustDoF,
+                           false);
+            s = corr.Result.Data[2];
+          } else
+            s = NAN;
           this->Result.Set0(i, j, s);
           this->ResultCounts.Set0(i, j, (Tv)twoCols.Result.RowsCount);
           if (setLower)
-- 
2.43.0


From acfdc5d78ac27b9460d6277bce7c146ff73716dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 024/150] fix: number of observations is set for the diagonal
 of a correlation matrix

---
 src/ldt_statistics/correlation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index f72c26f..fb16592 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -84,6 +84,11 @@ void Correlation<checkNaN, type, method>::pearson(const Matrix<Tv> &mat,
         this->ResultCounts.Set0(i, i, (Tv)count);
       } else if constexpr (type == CorrelationType::kCorrelation) {
         this->Result.Set0(i, i, 1);
+        Ti count = 0;
+        for (Ti k = 0; k < mat.RowsCount; k++)
+          if (std::isnan(mat.Get0(k, i)) == false)
+            count++;
+        this->ResultCounts.Set0(i, i, (Tv)count);
       }
 
       // set off diagonals
-- 
2.43.0


From 35ec3980c25f35d017810a5cc103a9c20bbcfa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 025/150] fix: correlation distance of perfectly correlated
 columns is zero

---
 src/ldt_statistics/clustering/distance.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 5573772..6a37e46 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -140,6 +140,9 @@ Distance<checkNan, method, corrMethod>::Distance(Ti rows, Ti cols) {
   }
 }
 
+// square root, where rounding errors might make the argument negative
+static Tv sqrt_n(Tv v) { return std::sqrt(v < 0 ? (Tv)0 : v); }
+
 template <bool checkNan, DistanceMethod method, CorrelationMethod corrMethod>
 void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
                                                        Tv *storage, Tv *work) {
@@ -161,11 +164,10 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
       for (Ti j = 0; j < data.ColsCount; j++) {
         if (i < j) {
           if constexpr (method == DistanceMethod::kCorrelation) {
-            this->Result.Set0(i, j,
-                              std::sqrt((1 - cor.Result.Get0(i, j)) / (Tv)2));
+            this->Result.Set0(i, j, sqrt_n((1 - cor.Result.Get0(i, j)) / (Tv)2));
           } else if constexpr (true) {
             this->Result.Set0(
-                i, j, std::sqrt(1 - std::pow(cor.Result.Get0(i, j), (Tv)2)));
+                i, j, sqrt_n(1 - std::pow(cor.Result.Get0(i, j), (Tv)2)));
           }
         }
       }
-- 
2.43.0


From 0d996016e9f2cd97667bdc0724c0490fe5e8f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 026/150] fix: sample variance and standard deviation of an
 array are not the population ones

---
 include/array.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f3e55e2..11f4a1b 100644
--- a/include/array.h
+++ b/include/array.h
@@ -803,6 +803,17 @@ public:
     }
   }
 
+  template <bool skipNAN>
+  static Tw SampleVariance(const Tw *data, const Ti &length) {
+    Ti count = 0;
+    for (Ti i = 0; i < length; i++)
+      if (skipNAN == false || std::isnan(data[i]) == false)
+        count++;
+    if (count < 2)
+      return NAN;
+    return Variance<false, skipNAN>(data, length) * count / (count - 1);
+  }
+
   template <bool skipNAN>
   static void GetDescriptive(const Tw *data, const Ti &length,
                              const DescriptiveType &type, Tw &result) {
@@ -824,13 +835,13 @@ public:
       result = Mean<false, skipNAN>(data, length);
       break;
     case DescriptiveType::kVariance: {
-      result = Variance<false, skipNAN>(data, length); // sample statistics
+      result = SampleVariance<skipNAN>(data, length); // sample statistics
     } break;
     case DescriptiveType::kVariancePop: {
       result = Variance<false, skipNAN>(data, length);
     } break;
     case DescriptiveType::kStd: {
-      result = Variance<false, skipNAN>(data, length);
+      result = SampleVariance<skipNAN>(data, length);
       result = std::sqrt(result);
     } break;
     case DescriptiveType::kStdPop: {
-- 
2.43.0


From b6024250847c347c8407f024a9cee407696a6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 027/150] fix: maximum distance of columns without common
 observations is not negative infinity

---
 src/ldt_statistics/clustering/distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/distance.cpp b/src/ldt_statistics/clustering/distance.cpp
index 6a37e46..8a16b9e 100644
--- a/src/ldt_statistics/clustering/distance.cpp
+++ b/src/ldt_statistics/clustering/distance.cpp
@@ -203,7 +203,7 @@ void Distance<checkNan, method, corrMethod>::Calculate(const Matrix<Tv> &data,
             }
             this->Result.Set0(i, j, sum);
           } else if constexpr (method == DistanceMethod::kMaximum) {
-            Tv max = -INFINITY, d;
+            Tv max = 0, d;
             for (Ti k = 0; k < data.RowsCount; k++) {
               d = std::abs(col1[k] - col2[k]);
               if constexpr (checkNan) {
-- 
2.43.0


From 200192501495d34a4ac7d2699d953a4de184acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 028/150] fix: sample variance without observations is NAN

---
 src/matrix/matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index c24ca2a..311ced9 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2691,7 +2691,7 @@ Tw Matrix<Tw>::Variance(Tw &me, bool sample, bool check_nan) const {
           m2 += diff * s * j;
           j++;
         }
-        var = sample ? m2 / (Tw)(j - 1) : m2 / j;
+        var = (sample && j > 0) ? m2 / (Tw)(j - 1) : m2 / j;
       } else {
         Tw d;
         Tw diff;
@@ -2773,7 +2773,7 @@ Tw Matrix<Tw>::VarianceColumn(Ti j, Tw &me, Ti &count, bool sample,
           m2 += diff * s * count;
           count++;
         }
-        var = sample ? m2 / (Tw)(count - 1) : m2 / count;
+        var = (sample && count > 0) ? m2 / (Tw)(count - 1) : m2 / count;
       } else {
         Tw d;
         Tw diff;
@@ -2838,7 +2838,7 @@ Tw Matrix<Tw>::CovarianceColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Ti &count,
           mean2 += (d2 - mean2) / count;
           m2 += dx * (d2 - mean2);
         }
-        covar = sample ? m2 / (count - 1) : m2 / count;
+        covar = (sample && count > 0) ? m2 / (count - 1) : m2 / count;
       } else {
         Tw d1, d2, m2 = 0, dx;
         count = 0;
-- 
2.43.0


From cc4405c493b90863be7bcc0e8c321e28aedfcc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 029/150] fix: scoring name 'rmspe' is not 'rmse'

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From 6d7f490f764a12987dd3c931665d557ab63413be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 030/150] fix: significance search without an insignificant
 coefficient left a zero restriction matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..fe2b1f0 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -311,7 +311,7 @@ void Sur::estim_search(Ti N, Ti m, Tv *work, Tv sigSearchMaxProb) {
   Ti k0 = x.ColsCount;
   Ti k0m = k0 * m;
   Ti q = 0, j;
-  pR->SetValue(0);
+  Matrix<Tv>::Diagonal(*pR); // no restriction
   auto sig_inds = std::vector<Ti>();
   Ti cs = k0m;
   for (mSigSearchIter = 0; mSigSearchIter < mSigSearchMaxIter;
-- 
2.43.0


From 3c02f4ca0acc0bc071caddd2813ec73bc70f2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 031/150] fix: condition number of a restricted SUR is not of
 the restricted matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index fe2b1f0..836cec7 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -249,7 +249,7 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
   RV_o_xtx.Dot(*pR, gamma_var); // R'[S^-1 o X'X]R
 
-  condition_number = RV_o_xtx.Norm('1');
+  condition_number = gamma_var.Norm('1');
   auto info = gamma_var.Inv0(); // [R'[S^-1 o X'X]R]^{-1}
   if (info != 0) {
     throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
-- 
2.43.0


From 7152da81872bbf965f7bfa911bc198fbac76f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 032/150] fix: seasonal lags that are also ordinary lags were
 added twice

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..89b4d1d 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -17,7 +17,8 @@ void ExpandPoly(Ti p, Ti P, Ti s, std::vector<Ti> &lags) {
     lags.push_back(i);
   if (s > 0)
     for (Ti i = s; i <= s * P; i += s)
-      lags.push_back(i);
+      if (i > p) // otherwise, it is already there
+        lags.push_back(i);
 }
 
 Ti ExpandPolyDiff_ws(Ti d, Ti D, Ti s) {
-- 
2.43.0


From e85f6a89abb8e1c93a45c1ea1b9c23f15d3314a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 033/150] fix: estimating a VARMA without details has no memory
 for the coefficients

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp      | 1 +
 .../modeling/time_series/varma/varma_sizes.cpp               | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..6ef43d6 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -460,6 +460,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     q = R->ColsCount;
 
   if (Sizes.HasMa == false && !R) {
+    Result.gamma.CopyTo00(Result.coef); // it is required in forecasting
     if (mDoDetails) {
       SetDetails(*this, R);
       // logarithm Likelihood
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 89b4d1d..6981f94 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -259,9 +259,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
 
+  coef.SetData(&storage[pos], g, f); // it is required in forecasting
+  pos += coef.length();
+
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From 81f48a4b72251bd448bc8e78256e583690ad55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 034/150] fix: MA representation of a pure MA model needs
 storage for one more matrix

---
 src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..be6119e 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -29,7 +29,7 @@ VarmaArma::VarmaArma(const VarmaSizes &sizes, Ti maInfCount) {
     StorageSize += maInfCount * mm;
 
     if (sizes.HasDiff == false && sizes.HasAr == false) {
-      // copy MA
+      StorageSize += mm; // copy MA, its degree is maInfCount
     } else {
 
       Ti arDiffDegree = sizes.ArMax;
-- 
2.43.0


From 5f1c5977f96efb01d91bec7c06b014f26395b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 035/150] fix: residuals of a VARMA without the variance of
 coefficients were not those of the estimate

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 6ef43d6..065b170 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -541,11 +541,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
                                      // have asked for second derivative
     Result.gammavar.Inv0();
     Result.gammavar.Multiply_in(2);
-
-    // update values
-    fun(Result.gamma);
   }
 
+  // update values, the last evaluation might not be at the optimum
+  fun(Result.gamma);
+
   // update sigma2, it is destroyed while calculating determinant
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
-- 
2.43.0


From 54b2295a034ffd409b6acf8cd6e511d3caa956ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 036/150] fix: forecasts of a short sample read memory before
 the data

---
 .../modeling/time_series/varma/varma_forecast.cpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index b3f0a37..616dd0c 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -63,7 +63,7 @@ void xtprime(Matrix<Tv> &xt, const Matrix<Tv> &forecast,
                      // sense of Eviews
     for (auto &l : sizes.MaLags) {
       auto ind = resid_ind + fRow - l;
-      if (ind < resid.ColsCount)
+      if (ind >= 0 && ind < resid.ColsCount)
         xt.SetSub0(sR, 0, resid, 0, ind, forecast.RowsCount, 1);
       sR += forecast.RowsCount;
     }
@@ -89,14 +89,14 @@ void VarmaForecast::Calculate(const Varma &estimate, const Matrix<Tv> *exo,
   Ti resid_ind = sizes.T - estimate.SampleEnd - sizes.ArMax_d;
   StartDiff = resid_ind;
   Ti x_ind = sizes.T - estimate.SampleEnd;
+  // check
+  if (resid_ind < 0)
+    throw LdtException(
+        ErrorType::kLogic, "varma-forecast",
+        "in forecast, end-sample must be larger than 'maxp+diff'");
   if (exoIsNew)
     x_ind = -sizes.ArMax_d;
   else {
-    // check
-    if (resid_ind < 0)
-      throw LdtException(
-          ErrorType::kLogic, "varma-forecast",
-          "in forecast, end-sample must be larger than 'maxp+diff'");
     if (sizes.ExoCount != 0 && (exo->ColsCount < x_ind + h_armax_d))
       throw LdtException(ErrorType::kLogic, "varma-forecast",
                          "in forecasting by VARMA, length of exogenous data is "
-- 
2.43.0


From f8930cc732f171857769d4bbcda82565e46e9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 037/150] fix: VARMA evaluation counts a date without a fitting
 horizon as a failed one

---
 .../modeling/time_series/varma/varma_simulation.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..0d48324 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -240,7 +240,6 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     if (cancel)
       return;
     useCurrentEstims = usePreviousEstim && success;
-    invalidCounts++;
     actIndex = T - se - 1;
     if (actIndex < 0)
       break;
@@ -256,6 +255,7 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     }
     if (colc <= 0)
       break; // no more forecasts
+    invalidCounts++;
 
     // estimate and forecast
     // update sizes by current sampleEnd. se is different which means Xt,
-- 
2.43.0


From 579334520da4843bc2ca563f55568c9bda3e301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 038/150] fix: VARMA evaluation with horizons which are not in
 increasing order

---
 .../time_series/varma/varma_simulation.cpp    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index 0d48324..c4d94af 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -5,6 +5,7 @@
 */
 
 #include "varma.h"
+#include <algorithm>
 
 using namespace ldt;
 
@@ -33,7 +34,7 @@ VarmaSimulation::VarmaSimulation(const VarmaSizes &sizes, Ti count,
             std::to_string(sizes.T));
 
   IsExtended = isExtended;
-  auto horizonMax = horizons.at(horizons.size() - 1);
+  auto horizonMax = *std::max_element(horizons.begin(), horizons.end());
 
   mDoForecastVar = false;
   for (auto &s : metrics)
@@ -167,8 +168,8 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
   auto metrics = *pMetrics;
   auto sizes = *pSizes;
   Ti hh = (Ti)horizons.size();
-  Ti hMin = horizons.at(0);
-  Ti hMax = horizons.at(hh - 1);
+  Ti hMin = *std::min_element(horizons.begin(), horizons.end());
+  Ti hMax = *std::max_element(horizons.begin(), horizons.end());
   auto T = data.ColsCount;
   Ti mm = (Ti)metrics.size();
   Ti yy = sizes.EqsCount; // number of endogenous data
@@ -349,8 +350,10 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
       // summation for calculating mean
       k = 0;
       for (auto &h : horizons) {
-        if (h > effectiveH)
+        if (h > effectiveH) {
+          k++;
           continue;
+        }
         for (Ti i = 0; i < temp.RowsCount; i++) {
           ResultAggs.Set0(c, i, ResultAggs.Get0(c, i) + temp.Get0(i, k));
         }
@@ -393,8 +396,8 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
   auto metrics = *pMetrics;
   auto sizes = *pSizes;
   Ti hh = (Ti)horizons.size();
-  Ti hMin = horizons.at(0);
-  Ti hMax = horizons.at(hh - 1);
+  Ti hMin = *std::min_element(horizons.begin(), horizons.end());
+  Ti hMax = *std::max_element(horizons.begin(), horizons.end());
 
   // we should get t:
   auto D = DatasetTs<false>(data.RowsCount, data.ColsCount, true, false);
@@ -573,8 +576,10 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
       // summation for calculating mean
       k = 0;
       for (auto &h : horizons) {
-        if (h > effectiveH)
+        if (h > effectiveH) {
+          k++;
           continue;
+        }
         if (KeepDetails) {
           for (int vi = 0; vi < yy; vi++)
             Details.push_back(std::make_tuple(
-- 
2.43.0


From e5830a4c54afa6274e885a03dc8f6ecb112a5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 039/150] fix: discrete choice evaluation uses the size of the
 given data

---
 .../modeling/discrete/discrete_choice_sim.cpp             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..d3ff495 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -111,7 +111,13 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  // size of the samples in the given data
+  Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
+                            : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
-- 
2.43.0


From 247072637e9b1b9cee1b259cf26af623b3b655df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 040/150] fix: Brier score of a discrete choice evaluation is
 the average over its splits

---
 .../modeling/discrete/discrete_choice_sim.cpp            | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index d3ff495..3399bc3 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -171,6 +171,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = 0;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -257,8 +258,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     }
 
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, brier = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
@@ -267,10 +267,10 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
         if constexpr (hasWeight) {
           wi = w1.Data[i];
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += brier / sum; // sum
     }
 
     if (costCount > 0) {
@@ -337,6 +337,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From d3e9af18b4db36eaed4f0133659c5d6d025476ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 041/150] fix: Brier score of a discrete choice evaluation is
 weighted only if it is requested

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 3399bc3..503b29f 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -265,7 +265,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
         i++;
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          wi = mWeightedEval ? w1.Data[i] : 1;
         }
         brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
-- 
2.43.0


From 9f06b8e3e1c0c219296302af38a9ba85eeccac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 042/150] fix: Brier score can be the only goal of a discrete
 choice evaluation

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 503b29f..e44229e 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
-- 
2.43.0


From 48cfa8670678c226efdef213787b3caa241e5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 043/150] fix: errors of a discrete choice evaluation were
 pointers to freed memory

---
 Rpackage/src/r_dc.cpp                                        | 2 +-
 include/math/statistics/inference/models/discrete_choice.h   | 4 ++--
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index ad55201..80d15bf 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -216,7 +216,7 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
     auto Ws = std::make_unique<double[]>(simmodel->WorkSize);
     auto WIs = std::make_unique<int[]>(simmodel->WorkSizeI);
     Ss = std::make_unique<double[]>(simmodel->StorageSize);
-    auto errors = std::set<const char *>();
+    auto errors = std::set<std::string>();
 
     bool cancel = false;
     simmodel->Calculate(
diff --git a/include/math/statistics/inference/models/discrete_choice.h b/include/math/statistics/inference/models/discrete_choice.h
index 507b8e8..f778c14 100644
--- a/include/math/statistics/inference/models/discrete_choice.h
+++ b/include/math/statistics/inference/models/discrete_choice.h
@@ -439,7 +439,7 @@ public:
                          const std::vector<Matrix<Tv>> *costMatrixes,
                          Tv *storage, Tv *work, Ti *workI, bool &cancel,
                          RocOptions &aucOptions, bool checkSizes = true,
-                         std::set<const char *> *errors = nullptr,
+                         std::set<std::string> *errors = nullptr,
                          Ti maxInvalidSim = INT32_MAX) = 0;
 };
 
@@ -507,7 +507,7 @@ public:
                          const std::vector<Matrix<Tv>> *costMatrixes,
                          Tv *storage, Tv *work, Ti *workI, bool &cancel,
                          RocOptions &aucOptions, bool checkSizes = true,
-                         std::set<const char *> *errors = nullptr,
+                         std::set<std::string> *errors = nullptr,
                          Ti maxInvalidSim = INT32_MAX) override;
 };
 
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index e44229e..b73f4ed 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -90,7 +90,7 @@ template <bool hasWeight, DiscreteChoiceModelType modelType,
 void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     const Matrix<Tv> &data, const std::vector<Matrix<Tv>> *costMatrixes,
     Tv *storage, Tv *work, Ti *workI, bool &cancel, RocOptions &aucOptions,
-    bool checkSizes, std::set<const char *> *errors, Ti maxInvalidSim) {
+    bool checkSizes, std::set<std::string> *errors, Ti maxInvalidSim) {
 
   if (cancel)
     return;
-- 
2.43.0


From 8d6aea5c9223261293b61c338d161375a8fe37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 044/150] fix: a split with a negative variance made the
 average CRPS of a SUR evaluation NAN

---
 src/ldt_statistics/modeling/linear/sur_simulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_simulation.cpp b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
index e7dfcb6..0d4ed84 100644
--- a/src/ldt_statistics/modeling/linear/sur_simulation.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_simulation.cpp
@@ -168,7 +168,8 @@ void SurSimulation::Calculate(Matrix<Tv> &data, Ti m, Tv *storage, Tv *work,
     if (mDoForecastVar) {
       bool cont = false;
       for (int i = 0; i < len; i++) {
-        if (std::isnan(Model.Projections.Variances.Data[i])) {
+        if (std::isnan(Model.Projections.Variances.Data[i]) ||
+            Model.Projections.Variances.Data[i] < 0) { // no real STD
           AddError("NAN in variance");
           cont = true;
           break;
-- 
2.43.0


From ced7b9533666bd06f804a36dc5bfe7ea897f3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 045/150] fix: predictions of a discrete choice model wrote out
 of the work array when they outnumber the observations

---
 .../modeling/discrete/discrete_choice_extended.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..e3e7a6b 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -56,7 +56,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     StorageSize +=
         mNumChoices * numForecast +
         numForecast * cols; // for copying forecast matrix (TODO: this is work)
-    WorkSize = std::max(WorkSize, rows + numChoices - 2);
+    WorkSize = std::max(WorkSize, numForecast + numChoices - 2);
   }
 
   if (doDetails) {                     // Auc and Cost
-- 
2.43.0


From 33e58e1842fe1ccc1a7d2c3eaf00fc969a86bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 046/150] fix: the condition number was not checked when
 another check or metric enabled the estimation

---
 src/ldt_statistics/modeling/search/summary.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 82e1fe3..a51c81c 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -91,13 +91,14 @@ void SearchModelChecks::Update(const SearchMetricOptions &metrics) {
 
   mCheckCN =
       metrics.MetricsOut.size() > 0 && std::isinf(MaxConditionNumber) == false;
-  mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
-                                   false; // note that maximum condition number
-                                          // does not affect estimation here
 
   if (Estimation == false && (metrics.MetricsIn.size() > 0 || checkN ||
                               checkDof || checkAic || checkSic || checkR2))
     Estimation = true;
+
+  mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
+                                   false; // note that maximum condition number
+                                          // does not affect estimation here
 }
 
 // #pragma endregion
-- 
2.43.0


From 35ebd411c5dbff895cc9af0519a52815cd0d0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 047/150] fix: a SUR search attached estimates to the wrong
 target when a group does not start with its targets

---
 src/ldt_statistics/modeling/search/searcher_reg.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/searcher_reg.cpp b/src/ldt_statistics/modeling/search/searcher_reg.cpp
index 58776bd..efa63de 100644
--- a/src/ldt_statistics/modeling/search/searcher_reg.cpp
+++ b/src/ldt_statistics/modeling/search/searcher_reg.cpp
@@ -4,6 +4,8 @@
  See accompanying file LICENSE
 */
 
+#include <algorithm>
+
 #include "searchers.h"
 
 using namespace ldt;
@@ -38,16 +40,20 @@ SearcherReg::SearcherReg(const SearchData &data,
       ColIndices.at(numPartitions) = data.NumEndo;
     // targets are in current indices and should be updated in the main loop
   } else {
+    // targets come first, whatever the order of the group
+    std::stable_partition(InnerIndices.begin(), InnerIndices.end(),
+                          [&items](Ti a) { return a < items.LengthTargets; });
+
     // put it in the first part of column indices
     for (Ti i = 0; i < (Ti)innerIndices.size(); i++)
-      ColIndices.at(i) = innerIndices.at(i);
+      ColIndices.at(i) = InnerIndices.at(i);
 
     // weights are after endogenous:
     if (this->pData->HasWeight)
       ColIndices.at(InnerIndices.size()) = this->pData->NumEndo;
 
     // we can set targets here
-    for (auto &a : innerIndices) {
+    for (auto &a : InnerIndices) {
       if (a < items.LengthTargets)
         TargetsPositions.push_back(a);
     }
-- 
2.43.0


From 2b2a8af66627f26ebc8414b55ed7cc2726ae0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 048/150] fix: a SUR search failed, or left out models,
 depending on the first variable of a group

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..55053b6 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -4,6 +4,8 @@
  See accompanying file LICENSE
 */
 
+#include <algorithm>
+
 #include "clustering.h"
 #include "sur.h"
 
@@ -214,7 +216,8 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (std::all_of(e.begin(), e.end(),
+                      [&items](Ti a) { return a >= items.LengthTargets; }))
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From 276911771c028d8e375f2990a5d12a01896143c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 049/150] fix: a search used the Box-Cox parameter of another
 variable when a model does not have the first ones

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp        | 7 ++++++-
 .../modeling/time_series/varma/varma_modelset.cpp          | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 55053b6..081d78b 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -96,6 +96,11 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     return "";
 
   if (Model.WorkSize > 0) { // otherwise, not initialized
+    std::vector<Tv> lambdas; // of the variables of this model
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &a : InnerIndices)
+        lambdas.push_back(this->pData->Lambdas.at(a));
+
     Model.Calculate(
         Data.Result, InnerIndices.size(), &work[s],
         &work[s + Model.StorageSize], SigSearchMaxIter > 0 ? &R : nullptr,
@@ -103,7 +108,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..0fe1822 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -220,6 +220,11 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
   if (this->pMetrics->SimFixSize > 0 && this->pMetrics->MetricsOut.size() > 0) {
     auto count0 = Model.mCount;
 
+    std::vector<Tv> lambdas; // of the variables of this model
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &a : this->CurrentIndices.Vec)
+        lambdas.push_back(this->pData->Lambdas.at(a));
+
     if (this->pOptions->RequestCancel)
       return "";
 
@@ -230,7 +235,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From b1a66b6ce0a9531cb738fd8d8c0b41e5986830c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 050/150] fix: a discrete choice search wrote out of the
 integer work array

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..e8d6cb7 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,7 +177,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
+                    &work[s + Model.StorageSize], workI,
                     this->pOptions->RequestCancel, *pAucOptions,
                     this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
                     nullptr, INT32_MAX);
-- 
2.43.0


From 3387c820904ae2eed68f506a2799584bbef96f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 051/150] fix: the first of the in-sample Brier, AUC and
 frequency cost of a discrete choice search was not calculated

---
 .../modeling/discrete/discrete_choice_modelset.cpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index e8d6cb7..f5c7cd8 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -199,13 +199,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -224,7 +224,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -235,7 +235,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
-- 
2.43.0


From 0c9a04d8101109a330e1ba83a4b7bb87549150ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 052/150] fix: cost tables of a discrete choice search were not
 checked when frequency cost is the first metric

---
 .../modeling/discrete/discrete_choice_modelset.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index f5c7cd8..6f83fdf 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -417,9 +417,9 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
+  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >=
                  0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) >= 0) {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From e18b0f5289e72a6af2a1cb7d67ca779efbf91092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 053/150] fix: in-sample scores of a discrete choice search
 used rows beyond the sample when data is missing

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 6f83fdf..9a3508a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -201,7 +201,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From fbf5e8380f8119aec24e7ea33ef852746804b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 054/150] fix: the degrees of freedom check of a discrete
 choice search was off by twice the number of choices

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 9a3508a..1e0034e 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -139,7 +139,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - num_exo - (this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 8c0124ab41b922a28be53648e1a7003ebb1c0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 055/150] fix: the minimum number of valid simulations was
 ignored in a discrete choice search

---
 .../modeling/discrete/discrete_choice_modelset.cpp           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 1e0034e..d2dacfd 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -178,9 +178,8 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
                     &work[s + Model.StorageSize], workI,
-                    this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    this->pOptions->RequestCancel, *pAucOptions, true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From 6d262c617582586da296aadcc5f779af3cbd9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 056/150] fix: the degrees of freedom check of a VARMA search
 did not count the lags and the coefficients

---
 .../modeling/time_series/varma/varma_modelset.cpp              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 0fe1822..427e96b 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -124,7 +124,8 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > ycount - X.RowsCount)
+          this->pChecks->MinDof >
+              ycount - Sizes.ArMax_d - Sizes.NumParamsEq)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 6dd00bf5f9e56401eabd3aa40ca7db0e9658a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 057/150] fix: a VARMA search checked the bounds of the
 predictions at the horizons of the evaluation only

---
 .../modeling/time_series/varma/varma_modelset.cpp             | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 427e96b..816fef0 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -183,9 +183,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         for (auto &t : this->CurrentIndices.Vec) { // is it a target?
           i++;
           if (t < this->pItems->LengthTargets) {
-            Ti j = -1;
-            for (auto &h : this->pMetrics->Horizons) {
-              j++;
+            for (Ti h = 1; h <= mMaxHorizonCheck; h++) {
 
               if (this->pOptions->RequestCancel)
                 return "";
-- 
2.43.0


From 345ef6376ea1dabae4c1effc4c0b80cedad3d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 058/150] fix: simulations that no horizon fits counted as
 valid in the check of a VARMA search

---
 .../modeling/time_series/varma/varma_modelset.cpp              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 816fef0..6ff467c 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -239,6 +239,9 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
                          "number of valid simulations is 0");
+    if (Model.ValidCounts < this->pChecks->MinOutSim)
+      throw LdtException(ErrorType::kLogic, "varma-modelset",
+                         "model check: minimum valid simulations");
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
-- 
2.43.0


From 71662df96b6ee5ed753b139e82918213a8726b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 059/150] fix: a VARMA search wrote out of its work array when
 another variable is longer than the first one

---
 .../modeling/time_series/varma/varma_modelset.cpp          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 6ff467c..94bd4eb 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -353,9 +353,10 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   if (ExoIndexes.size() == 0)
     ExoIndexes.resize(1); // add empty for loop
 
-  auto T = source.Ranges.at(0).EndIndex +
-           1; // The first target determines the number of observations
-              // (this is required for out-of-sample exogenous data)
+  Ti T = 0; // the longest endogenous variable determines the number of
+            // observations (this is required for out-of-sample exogenous data)
+  for (Ti i = 0; i < items.LengthEndogenous; i++)
+    T = std::max(T, source.Ranges.at(i).EndIndex + 1);
 
   for (auto const &s : combinations.Sizes) {
     if (s <= 0)
-- 
2.43.0


From 9940a9a5a260ed53d30de244b3e1bdfd080bd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 060/150] fix: a VARMA search accepted an exogenous variable in
 a partition of the endogenous ones

---
 .../modeling/time_series/varma/varma_modelset.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 94bd4eb..5fc6599 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -330,7 +330,7 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   // check group indexes and create sizes array
   for (auto const &b : combinations.Partitions) {
     for (auto &a : b) {
-      if (a > items.LengthEndogenous)
+      if (a >= items.LengthEndogenous)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "invalid endogenous group element (it is larger "
                            "than the number "
-- 
2.43.0


From 759043e4caddc049f8e70d014f23bfb9fbe53c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 061/150] fix: get.indexation took the position of a name in
 the whole matrix for its position among the endogenous or exogenous variables

---
 Rpackage/R/data.R | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index c55c3dd..8b0cb7f 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -590,6 +590,10 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     stop("Invalid number of target variables (=",combinations$numTargets,
          "). It cannot be larger than the number of endogenous variables (=", data$numEndo, ").")
 
+  # indices are relative to the endogenous or to the exogenous variables
+  endo_names <- colnames(data$data)[seq_len(data$numEndo)]
+  exo_names <- colnames(data$data)[ncol(data$data) - data$numExo + seq_len(data$numExo)]
+
   colnames_to_index <- function(names, colnames) {
     indices <- match(names, colnames)
     if (any(is.na(indices))) {
@@ -638,9 +642,9 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     combinations$partitions <-
       lapply(combinations$partitions,
              function(x){
-               j <- if (is.character(x)) {colnames_to_index(x, colnames(data$data))}
+               j <- if (is.character(x)) {colnames_to_index(x, if (isInnerExogenous) endo_names else exo_names)}
                else {sort(as.integer(x))}
-               if (any(j) < 1)
+               if (any(j < 1))
                  stop("Zero or negative index in partitions.")
                if (isInnerExogenous && any(j > data$numEndo))
                  stop("Invalid index in partitions(=", j,"). Make sure they are less than the number of endogenous variables (=", data$numEndo, ").")
@@ -659,7 +663,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
     lapply(combinations$innerGroups,
            function(x){
              j <- if (is.character(x))
-             {colnames_to_index(x, colnames(data$data))}
+             {colnames_to_index(x, if (isInnerExogenous) exo_names else endo_names)}
              else
              {sort(as.integer(x))}
              if (any(j < 1))
-- 
2.43.0


From 5686b879d4de389d99d4e7dd2643f35935b1d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 062/150] fix: get.data gave columns of NA, or a column twice,
 for endogenous names that are unknown or repeated

---
 Rpackage/R/data.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 8b0cb7f..f3b0043 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -106,6 +106,8 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     }
     if (is.character(endogenous)){ # reorder columns
       idx <- match(endogenous, colnames(data))
+      if (any(is.na(idx)) || anyDuplicated(idx) > 0)
+        stop("'endogenous' must contain distinct names of columns of data.")
       data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx))]
     }
 
-- 
2.43.0


From 916f6ac711ab4a36887ae2f333054608b5fc5066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 063/150] fix: get.data accepted a negative number of
 endogenous variables

---
 Rpackage/R/data.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index f3b0043..24045b6 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -75,8 +75,8 @@ get.data <- function(data, endogenous = 1, equations = NULL,
 
     stopifnot(is.number(endogenous) || is.character(endogenous))
     numEndo <- ifelse(is.numeric(endogenous), as.integer(endogenous), length(endogenous))
-    if (numEndo == 0)
-      stop("Number of endogenous variables cannot be zero.")
+    if (numEndo < 1)
+      stop("Number of endogenous variables cannot be zero or negative.")
     if (numEndo > ncol(data))
       stop("Invalid number of endogenous variables. It is larger than the number of columns in data.")
     numExo <- ncol(data) - numEndo
-- 
2.43.0


From 177dea2de137b5f18c92830dc8a78837c1c46fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 064/150] fix: get.data failed for data with one column and an
 endogenous name

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 24045b6..6f570cc 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -108,7 +108,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
       idx <- match(endogenous, colnames(data))
       if (any(is.na(idx)) || anyDuplicated(idx) > 0)
         stop("'endogenous' must contain distinct names of columns of data.")
-      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx))]
+      data <- data[, c(idx, setdiff(seq_len(ncol(data)), idx)), drop = FALSE]
     }
 
     if (addIntercept){
-- 
2.43.0


From 9d7ed69fc32caa4623623a449d44ba3e1387528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 065/150] fix: get.data failed for weights without exogenous
 variables

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 6f570cc..2819da8 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -167,7 +167,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
     stopifnot(all(weights != 0))
     stopifnot(is.numeric(weights) || (is.matrix(weights) && ncol(weights) == 1))
     stopifnot(length(weights) == nrow(data))
-    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,(numEndo+1):ncol(data),drop=FALSE])
+    data <- cbind(data[,1:numEndo,drop=FALSE], weights, data[,-(1:numEndo),drop=FALSE])
     colnames(data)[numEndo+1] <- "(Weights)"
   }
 
-- 
2.43.0


From 21be36f92ed0d1cb8c3ae9a385a3c32a27f7f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 066/150] fix: get.data did not see an intercept in data with
 two columns

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 2819da8..81565fe 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -70,7 +70,7 @@ get.data <- function(data, endogenous = 1, equations = NULL,
   startFreq <- attr(data, "ldtf")
   if (is.null(equations)) { # use endogenous
     data <- as.matrix(data)
-    if (ncol(data) > 2 && get.data.check.intercept(data[,2:ncol(data)]) != -1 && addIntercept)
+    if (ncol(data) > 1 && get.data.check.intercept(data[,-1,drop=FALSE]) != -1 && addIntercept)
       stop("Data already contains intercept. 'addIntercept' argument cannot be TRUE.")
 
     stopifnot(is.number(endogenous) || is.character(endogenous))
-- 
2.43.0


From 19b2037c0fe2c64302c4bb8512d1831fc080a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 067/150] fix: get.data failed for a column with ones and
 missing observations

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 81565fe..7019bae 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -288,7 +288,7 @@ get.data.check.discrete <- function(data, colIndex = 1){
 #'
 get.data.check.intercept <- function(matrix) {
   for (i in seq_len(ncol(matrix))) {
-    if (all(matrix[, i] == 1))
+    if (isTRUE(all(matrix[, i] == 1)))
       return(i)
   }
   return(-1)
-- 
2.43.0


From 71c5d6fcceefa696ddc1d0014d92289fedd54778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 068/150] fix: equations with missing observations failed or
 moved observations to other rows

---
 Rpackage/R/data.R | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 7019bae..3eb9fec 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -319,7 +319,7 @@ get.data.check.intercept <- function(matrix) {
 #' matrix_data <- ldt:::eqList2Matrix(equations, data, addIntercept = TRUE)
 #' print(matrix_data)
 #'
-#' @importFrom stats model.matrix model.response model.frame
+#' @importFrom stats model.matrix model.response model.frame na.pass
 eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
 
   stopifnot(inherits(equations, "formula") || is.list(equations))
@@ -341,12 +341,14 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
       stop("Duplicate response variable '", rv, "' found in equations.")
     response_vars <- c(response_vars, rv)
 
-    model_mat <- model.matrix(eq, data)
+    # keep rows with missing observations; rows of different equations must match
+    model_frame <- model.frame(eq, data, na.action = na.pass)
+    model_mat <- model.matrix(eq, model_frame)
     if ("(Intercept)" %in% colnames(model_mat)) # remove intercept
       model_mat <- model_mat[, colnames(model_mat) != "(Intercept)", drop = FALSE]
 
     # Add the response variable as a column of the matrix
-    rvdata <- model.response(model.frame(eq, data))
+    rvdata <- model.response(model_frame)
     model_mat <- cbind(rvdata, model_mat)
     colnames(model_mat)[1] <- rv
 
-- 
2.43.0


From 68c814833144980205531bd48dc8d4c53337bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 069/150] fix: equations with one variable failed

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 3eb9fec..cf59830 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -361,7 +361,7 @@ eqList2Matrix <- function(equations, data, addIntercept = FALSE) {
     }
   }
 
-  res <- res[, c(response_vars, setdiff(colnames(res), response_vars))]
+  res <- res[, c(response_vars, setdiff(colnames(res), response_vars)), drop = FALSE]
 
   if (addIntercept) {
     intercept <- rep(1, nrow(res))
-- 
2.43.0


From 741f7d10e21b5fe55f45ec5680bdeb4db61e8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 070/150] fix: get.data.keep.complete returned a vector when
 one complete row remains

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index cf59830..7941b9f 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -253,7 +253,7 @@ get.data.keep.complete <- function(data, warn = TRUE){
   if (length(incomplete_rows) > 0) {
     if (warn)
       warning(paste("Removed rows with missing observations: ", paste(incomplete_rows, collapse = ", ")))
-    data$data <- data$data[-incomplete_rows, ]
+    data$data <- data$data[-incomplete_rows, , drop = FALSE]
     data$obsCount <- nrow(data$data)
   }
   data
-- 
2.43.0


From 95591bf56b16f7be2eaa3ed60374ac12b2b0fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 071/150] fix: merged searches lost the failure messages that
 the first search does not have

---
 Rpackage/R/steps.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index e00ca4e..53ea959 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -147,6 +147,7 @@ combine.search <- function(list, method) {
 
       if (added == FALSE){
         ind <- length(result$counts$failedDetails) + 1
+        result$counts$failedDetails[[ind]] <- f
       }
     }
 
-- 
2.43.0


From 8544a952033038b5ee880c1c4e2f1b9f4c032127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 072/150] fix: merged searches lost best models and items when
 the first search has fewer of them, or none

---
 Rpackage/R/steps.R | 65 ++++++++++------------------------------------
 1 file changed, 13 insertions(+), 52 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 53ea959..9d17ccf 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -151,62 +151,20 @@ combine.search <- function(list, method) {
       }
     }
 
-    new_best_models <- newR$results[which(sapply(newR$results, function(item) item$typeName == "best model"))]
-    new_best_coefs <-newR$results[which(sapply(newR$results, function(item) startsWith(item$typeName, "best item for")))]
+    # best models and best items
+    is_best <- function(item) item$typeName == "best model" || startsWith(item$typeName, "best item for")
+    bests <- Filter(is_best, c(result$results, newR$results))
+    bests <- split(bests, vapply(bests, function(item) paste(item$evalName, item$targetName, item$typeName, sep = "\r"), ""))
+    result$results <- Filter(function(item) !is_best(item), result$results)
+
     new_inclusions <- newR$results[which(sapply(newR$results, function(item) item$typeName == "inclusion"))]
     new_cdfs <- newR$results[which(sapply(newR$results, function(item) item$typeName == "cdf"))]
     new_mixtures <- newR$results[which(sapply(newR$results, function(item) item$typeName == "mixture"))]
     new_extremebounds <- newR$results[which(sapply(newR$results, function(item) item$typeName == "extreme bound"))]
 
-    dealt_with <- list()
-    to_be_added <- list()
-
     j <- 0
     for (item in result$results){
       j <- j + 1
-      if (length(item) == 1 && is.na(item))
-        next
-
-      is_pos_oriented <- is.metric.pos.orien(item$evalName)
-      eval_target_type <- paste0(item$evalName, "_", item$targetName, "_", item$typeName)
-
-      if (item$typeName == "best model"){
-        if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_models[which(sapply(new_best_models, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
-
-          current_best_models <- result$results[ids]
-          result$results[ids] <- NA
-          bms <- append(current_best_models, nbm)
-          nbms <- bms[order(sapply(bms, function(b) b$value$metric),
-                            decreasing = is_pos_oriented)][1:length(ids)]
-          for (k in 1:length(nbms)) #update info
-            nbms[[k]]$info <- k-1
-          to_be_added[[length(to_be_added) + 1]] <- nbms
-
-          dealt_with[[length(dealt_with) + 1]] <- eval_target_type
-        }
-        #else we have already deal with them
-      }
-
-      if (startsWith(item$typeName, "best item for")){
-        if (item$info == 0 && !eval_target_type %in% dealt_with){
-          nbm <- new_best_coefs[which(sapply(new_best_coefs, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName && item$typeName == new_item$typeName))]
-          ids <- which(sapply(result$results, function(new_item) length(new_item) != 1 && new_item$typeName == item$typeName && item$evalName == new_item$evalName && item$targetName == new_item$targetName))
-
-          current_best_coefs <- result$results[ids]
-          result$results[ids] <- NA
-          bms <- append(current_best_coefs, nbm)
-          nbms <- bms[order(sapply(bms, function(b) b$value$metric), decreasing = is_pos_oriented)][1:min(list[[1]]$info$items$bestK,length(bms))]
-          for (k in 1:length(nbms)) #update info
-            nbms[[k]]$info <- k-1
-          to_be_added[[length(to_be_added) + 1]] <- nbms
-
-          dealt_with[[length(dealt_with) + 1]] <- eval_target_type
-        }
-        #else we have already deal with them
-      }
-
       if (item$typeName == "inclusion"){
         nbm <- new_inclusions[which(sapply(new_inclusions, function(new_item) item$evalName == new_item$evalName && item$targetName == new_item$targetName))]
         if (length(nbm) == 1)
@@ -233,10 +191,13 @@ combine.search <- function(list, method) {
 
     }
 
-    result$results <- result$results[which(sapply(result$results, function(r)length(r) != 1))]
-    for (a in to_be_added)
-      result$results <- append(result$results, a)
-
+    for (items in bests) {
+      ord <- order(sapply(items, function(b) b$value$metric), decreasing = is.metric.pos.orien(items[[1]]$evalName))
+      items <- items[ord][seq_len(min(list[[1]]$info$items$bestK, length(items)))]
+      for (k in seq_along(items)) #update info
+        items[[k]]$info <- k - 1
+      result$results <- append(result$results, items)
+    }
 
     # Add All (if this affects performance, we can move it to after the loop.)
     newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
-- 
2.43.0


From 8f36e7015ac8711c3bbfaa042b4d54a849276f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 073/150] fix: merging failed when a search has no results

---
 Rpackage/R/steps.R | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 9d17ccf..01c9d22 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -157,10 +157,10 @@ combine.search <- function(list, method) {
     bests <- split(bests, vapply(bests, function(item) paste(item$evalName, item$targetName, item$typeName, sep = "\r"), ""))
     result$results <- Filter(function(item) !is_best(item), result$results)
 
-    new_inclusions <- newR$results[which(sapply(newR$results, function(item) item$typeName == "inclusion"))]
-    new_cdfs <- newR$results[which(sapply(newR$results, function(item) item$typeName == "cdf"))]
-    new_mixtures <- newR$results[which(sapply(newR$results, function(item) item$typeName == "mixture"))]
-    new_extremebounds <- newR$results[which(sapply(newR$results, function(item) item$typeName == "extreme bound"))]
+    new_inclusions <- Filter(function(item) item$typeName == "inclusion", newR$results)
+    new_cdfs <- Filter(function(item) item$typeName == "cdf", newR$results)
+    new_mixtures <- Filter(function(item) item$typeName == "mixture", newR$results)
+    new_extremebounds <- Filter(function(item) item$typeName == "extreme bound", newR$results)
 
     j <- 0
     for (item in result$results){
@@ -200,7 +200,7 @@ combine.search <- function(list, method) {
     }
 
     # Add All (if this affects performance, we can move it to after the loop.)
-    newModels <- newR$results[which(sapply(newR$results, function(item) item$typeName == "model"))]
+    newModels <- Filter(function(item) item$typeName == "model", newR$results)
     result$results <- c(result$results, newModels)
 
   }
-- 
2.43.0


From f4fcadf8507871dd39858fe893ce79d937bacb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 074/150] fix: merged distribution values were NaN for items
 that one of the searches does not have

---
 Rpackage/R/steps.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 01c9d22..a0167c9 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -59,7 +59,8 @@ combine.search <- function(list, method) {
       ind <- which(n == firstNames)
       if (length(ind) > 0) {
         ind <- ind[[1]]
-        first[[ind, 1]] <- first[[ind, 1]] + second[[j, 1]] * second[[j, 3]]
+        # the mean of an item without information is NaN
+        first[[ind, 1]] <- sum(first[[ind, 1]], second[[j, 1]] * second[[j, 3]], na.rm = TRUE)
         first[[ind, 2]] <- first[[ind, 2]] + second[[j, 2]]
         first[[ind, 3]] <- first[[ind, 3]] + second[[j, 3]]
       }
-- 
2.43.0


From a0ad0d6bb24403db812f0c9a6441a38affc71c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 075/150] fix: merged tables lost the rows that the first
 search does not have

---
 Rpackage/R/steps.R | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index a0167c9..d6603d5 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -21,6 +21,10 @@ combine.search <- function(list, method) {
   else if (length(list) == 1)
     return(list[[1]])
 
+  # adds the rows of 'second' with new names
+  add_rows <- function(first, second)
+    rbind(first, second[!(rownames(second) %in% rownames(first)), , drop = FALSE])
+
   cmb_inclusion <- function(A1, A2) {
 
     if(any((is.na(A1[, 1]) | is.nan(A1[, 1])) & A1[, 2] != 0) |
@@ -45,7 +49,7 @@ combine.search <- function(list, method) {
       result[i, 1] <- weighted_mean
       result[i, 2] <- total_count
     }
-    result
+    add_rows(result, A2)
   }
 
   cmb_cdf <- function(first, second) {
@@ -66,7 +70,7 @@ combine.search <- function(list, method) {
       }
     }
     first[, 1] <- first[, 1] / first[, 3] # convert back to mean
-    return(first)
+    return(add_rows(first, second))
   }
 
   cmb_extremebound <- function(first, second) {
@@ -83,7 +87,7 @@ combine.search <- function(list, method) {
         first[[ind, 2]] <- max(first[[ind, 2]], second[[j, 2]])
       }
     }
-    return(first)
+    return(add_rows(first, second))
   }
 
   cmb_mixture <- function(first, second) {
@@ -118,7 +122,7 @@ combine.search <- function(list, method) {
       }
     }
 
-    return(first)
+    return(add_rows(first, second))
   }
 
   result <- list[[1]]
-- 
2.43.0


From 682497c9cba6eca6792147beadf474470a8ec556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 076/150] fix: search in steps ignored the requested numbers of
 variables

---
 Rpackage/R/steps.R | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index d6603d5..d463d2c 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -305,7 +305,8 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     size_i <- sizes[[i]]
-    num_var_i <- ifelse(is.na(counts[[i]]), ncol(data_i$data), num_var_i) # it is generally less than number of columns in data
+    vars_i <- setdiff(colnames(data_i$data), "(Weights)") # variables that are left
+    num_var_i <- ifelse(is.na(counts[[i]]), length(vars_i), min(counts[[i]], length(vars_i)))
 
     if (num_var_i < length(fixed_names)){
       stop("Invalid 'stepsNumVariables'. Requested number of variables (=", num_var_i ,") in this step is less than the number of fixed variables (names=", paste0(fixed_names, collapse = "; "),")")
@@ -334,11 +335,11 @@ search.steps <- function(method, isInnerExogenous, ...) {
     }
 
     names_i <- NULL
-    if (num_var_i == ncol(data_i$data))
-      names_i <- colnames(data_i$data)
+    if (num_var_i == length(vars_i))
+      names_i <- vars_i
     else{ # we should remove some variables from the data using previous estimation
       if (i == 1){
-        names_i <- colnames(data_i$data)[1:num_var_i]
+        names_i <- vars_i[1:num_var_i]
         warning("Variables are removed from the analysis in the first step, without evaluation. It is recommended to use 'NA' as the first element of 'stepsNumVariables' argument.")
       }
       else{
-- 
2.43.0


From 37e8e9195c88748554049063c5c10c8e2c80ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 077/150] fix: search in steps failed for weighted data or
 without exogenous variables

---
 Rpackage/R/steps.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index d463d2c..0156c20 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -276,7 +276,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
 
   endo_names <- colnames(dots$data$data)[1:dots$data$numEndo]
   target_names <- endo_names[1:dots$combinations$numTargets]
-  exo_names <- colnames(dots$data$data)[(dots$data$numEndo + ifelse(dots$data$hasWeight,2,1)):ncol(dots$data$data)]
+  exo_names <- utils::tail(colnames(dots$data$data), dots$data$numExo)
 
   fixed_names <- c(target_names, fixedNames)
 
@@ -365,7 +365,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
     pre_exo_names <- exo_names_i
 
     if (dots$data$hasWeight) # insert weights
-      names_i <- append(names, "(Weights)", after = length(endo_names_i))
+      names_i <- append(names_i, "(Weights)", after = length(endo_names_i))
     indices_i <- match(names_i, colnames(data_i$data))
     if (any(is.na(indices_i)))
       stop("A selected variable is not present in the 'data'!")
-- 
2.43.0


From 965984ffe21cbe7139abe7d888dcef0d1faf257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 078/150] fix: search in steps lost fixed variables and the
 order of endogenous and exogenous variables

---
 Rpackage/R/steps.R | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 0156c20..eca323c 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -278,7 +278,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
   target_names <- endo_names[1:dots$combinations$numTargets]
   exo_names <- utils::tail(colnames(dots$data$data), dots$data$numExo)
 
-  fixed_names <- c(target_names, fixedNames)
+  fixed_names <- unique(c(target_names, fixedNames))
 
   # first target and first metric
   tName <- target_names[1]
@@ -339,7 +339,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
       names_i <- vars_i
     else{ # we should remove some variables from the data using previous estimation
       if (i == 1){
-        names_i <- vars_i[1:num_var_i]
+        names_i <- unique(c(fixed_names, vars_i))[1:num_var_i]
         warning("Variables are removed from the analysis in the first step, without evaluation. It is recommended to use 'NA' as the first element of 'stepsNumVariables' argument.")
       }
       else{
@@ -348,12 +348,14 @@ search.steps <- function(method, isInnerExogenous, ...) {
         inclusion <- values[which(sapply(values, function(y){y$typeName == "inclusion"}))][[1]]
         if (is.null(inclusion))
           stop("'inclusion' matrix is missing in the current step.")
-        sorted_inclusion <- inclusion$value[order(inclusion$value[,1], decreasing = TRUE),]
-        names_i <- unique(c(fixed_names, rownames(sorted_inclusion)[1:(num_var_i)]))
+        sorted_inclusion <- inclusion$value[order(inclusion$value[,1], decreasing = TRUE), , drop = FALSE]
+        names_i <- unique(c(fixed_names, rownames(sorted_inclusion)))
         names_i <- names_i[1:num_var_i]
       }
     }
 
+    names_i <- vars_i[vars_i %in% names_i] # keep the order of the data
+
     # use 'names_i' to adjust data and combinations:
     endo_names_i <- intersect(names_i, endo_names)
     exo_names_i <- intersect(names_i, exo_names)
-- 
2.43.0


From 2227bad4b7fd755eece59325c750e36392a3897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 079/150] fix: search of binary models in steps could remove
 the intercept

---
 Rpackage/R/steps.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index eca323c..98c2875 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -279,6 +279,8 @@ search.steps <- function(method, isInnerExogenous, ...) {
   exo_names <- utils::tail(colnames(dots$data$data), dots$data$numExo)
 
   fixed_names <- unique(c(target_names, fixedNames))
+  if (method == "bin") # models must have intercept
+    fixed_names <- unique(c(fixed_names, "(Intercept)"))
 
   # first target and first metric
   tName <- target_names[1]
-- 
2.43.0


From cd30cb665a8e47cd7c74a95d000ac9303c638820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 080/150] fix: partitions and inner groups in later steps
 referred to wrong or removed variables

---
 Rpackage/R/steps.R | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index 98c2875..f9742dd 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -228,7 +228,7 @@ adjust_indices_after_remove <- function(indicesList, removedIndices){
     return(indicesList)
   lapply(indicesList, function(indices){
     di <- setdiff(indices, removedIndices)
-    sapply(di, function(x) x - sum(removedIndices < x))
+    vapply(di, function(x) x - sum(removedIndices < x), 0)
   })
 }
 
@@ -292,9 +292,6 @@ search.steps <- function(method, isInnerExogenous, ...) {
   }
   estims <- list()
 
-  pre_endo_names <- endo_names
-  pre_exo_names <- exo_names
-
   # Main Loop
   for (i in c(1:length(sizes))) {
     if(i == 1) {
@@ -361,12 +358,7 @@ search.steps <- function(method, isInnerExogenous, ...) {
     # use 'names_i' to adjust data and combinations:
     endo_names_i <- intersect(names_i, endo_names)
     exo_names_i <- intersect(names_i, exo_names)
-    endo_names_removed_i <- setdiff(endo_names_i, pre_endo_names)
-    exo_names_removed_i <- setdiff(exo_names_i, pre_exo_names)
-    endo_indices_removed_i <- match(endo_names_removed_i, pre_endo_names)
-    exo_indices_removed_i <- match(exo_names_removed_i, pre_exo_names)
-    pre_endo_names <- endo_names_i
-    pre_exo_names <- exo_names_i
+    removed_i <- setdiff(vars_i, names_i)
 
     if (dots$data$hasWeight) # insert weights
       names_i <- append(names_i, "(Weights)", after = length(endo_names_i))
@@ -375,28 +367,28 @@ search.steps <- function(method, isInnerExogenous, ...) {
       stop("A selected variable is not present in the 'data'!")
 
     if (length(indices_i) != ncol(data_i$data)){
-      data_i$data <- data_i$data[, indices_i]
+      data_i$data <- data_i$data[, indices_i, drop = FALSE]
       data_i$numEndo <- length(endo_names_i)
       data_i$numExo <- length(exo_names_i)
     }
 
     combinations_i$sizes <- size_i
-    if (isInnerExogenous){
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, exo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, endo_indices_removed_i - 1)
-    }else{
-      combinations_i$innerGroups <- adjust_indices_after_remove(combinations_i$innerGroups, endo_indices_removed_i-1)
-      combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, exo_indices_removed_i - 1)
-    }
+    # zero-based indices of the removed variables
+    removed_indices_i <- match(removed_i, vars_i) - 1
+    combinations_i$innerGroups <- unique(adjust_indices_after_remove(combinations_i$innerGroups, removed_indices_i))
+    combinations_i$partitions <- adjust_indices_after_remove(combinations_i$partitions, removed_indices_i)
+    is_empty <- lengths(combinations_i$partitions) == 0
+    combinations_i$numFixPartitions <- combinations_i$numFixPartitions - sum(utils::head(is_empty, combinations_i$numFixPartitions))
+    combinations_i$partitions <- combinations_i$partitions[!is_empty]
     # reset:
     # zero-based indexation and moving exogenous indices:
     # see the end of get.indexation function
-    for (j in c(1:length(combinations_i$partitions))){
+    for (j in seq_along(combinations_i$partitions)){
       combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] + 1
       if (isInnerExogenous == FALSE)
         combinations_i$partitions[[j]] <- combinations_i$partitions[[j]] - data_i$numEndo
     }
-    for (j in c(1:length(combinations_i$innerGroups))){
+    for (j in seq_along(combinations_i$innerGroups)){
       combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] + 1
       if (isInnerExogenous)
         combinations_i$innerGroups[[j]] <- combinations_i$innerGroups[[j]] - data_i$numEndo
@@ -409,8 +401,8 @@ search.steps <- function(method, isInnerExogenous, ...) {
     if (printMsg){
       rec.print.list(list(
         `selected variables` = names_i,
-        `removed endogenous` = endo_names_removed_i,
-        `removed exogenous` = exo_names_removed_i
+        `removed endogenous` = intersect(removed_i, endo_names),
+        `removed exogenous` = intersect(removed_i, exo_names)
       ), "        ")
     }
     if (method == "rfunc")
-- 
2.43.0


From 656bfdb62cd1861af79dcca01b8383ecc20d6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 081/150] fix: unknown names in 'stepsFixedNames' were accepted
 next to a known one

---
 Rpackage/R/data.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/data.R b/Rpackage/R/data.R
index 7941b9f..701151a 100644
--- a/Rpackage/R/data.R
+++ b/Rpackage/R/data.R
@@ -625,7 +625,7 @@ get.indexation <- function(combinations, data, isInnerExogenous) {
       stop("Invalid value in stepsNumVariables. Make sure they are whether 'NA' or less than the number of variables.")
 
     if (!is.null(combinations$stepsFixedNames) && length(combinations$stepsFixedNames) != 0){
-      if (!any(combinations$stepsFixedNames %in% colnames(data$data)))
+      if (!all(combinations$stepsFixedNames %in% colnames(data$data)))
         stop("Invalid item in 'stepsFixedNames'. Make sure they are valid names of variables.")
     }
     else
-- 
2.43.0


From 59c7dc2e8fab4034c09094031179af1d2b62e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 082/150] fix: weights were never used in the evaluations of a
 binary search

---
 Rpackage/src/r_dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 80d15bf..fb52497 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -50,7 +50,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
 
   UpdateOptions(items, metrics, modelChecks, metrics_, items_, checks_,
                 metricsNames, length1, data_.NumExo, combinations_.NumTargets,
-                data_.NumEndo, false, true, "Coefficients", false);
+                data_.NumEndo, false, true, "Coefficients", true);
 
   auto targetNames = std::vector<std::string>(
       colNames.begin(), colNames.begin() + items_.LengthTargets);
-- 
2.43.0


From c7a53ea5a5b1082334152c6e27ebbdb095236b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 083/150] fix: estimation of a binary model ignored the
 optimization options

---
 Rpackage/src/r_dc.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index fb52497..e59fa6a 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -173,6 +173,14 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
       hasPcaX ? &pcaOptionsX0 : nullptr,
       costMatrices_.size() > 0 ? &costMatrices_ : nullptr, weightedEval);
 
+  auto setNewton = [&newton_](ldt::Newton &optim) {
+    optim.IterationMax = newton_.IterationMax;
+    optim.TolFunction = newton_.TolFunction;
+    optim.TolGradient = newton_.TolGradient;
+    optim.UseLineSearch = newton_.UseLineSearch;
+  };
+  setNewton(model.Model->Optim);
+
   auto W = std::make_unique<double[]>(model.WorkSize);
   auto S = std::make_unique<double[]>(model.StorageSize);
 
@@ -212,6 +220,7 @@ SEXP EstimDc(List data, std::string linkFunc, SEXP pcaOptionsX,
         hasPcaX ? &pcaOptionsX0 : nullptr, weightedEval);
     simmodel->SimulationMax = simFixSize;
     simmodel->Seed = simSeed;
+    setNewton(simmodel->Optim);
 
     auto Ws = std::make_unique<double[]>(simmodel->WorkSize);
     auto WIs = std::make_unique<int[]>(simmodel->WorkSizeI);
-- 
2.43.0


From e80dc6751918132449b7b2dd9ed7de7c5dc8381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 084/150] fix: simulations of discrete choice models without
 probabilities were counted as valid

---
 .../modeling/discrete/discrete_choice_sim.cpp               | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b73f4ed..89d6c7f 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -253,6 +253,12 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     if (cancel)
       return;
 
+    if (model.PredProbs.Any(NAN)) { // e.g., the classes are separable
+      if (errors)
+        errors->insert("probability is nan");
+      continue;
+    }
+
     y1.SetData(split.Sample1.Data);
     if constexpr (hasWeight) {
       w1.SetData(&split.Sample1.Data[this->N1]);
-- 
2.43.0


From a61cd53ebcb6e622fdc7db2586106009a141d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 085/150] fix: summary of an SUR search transformed the data
 again

---
 Rpackage/R/sur.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index 426e980..01cdd42 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -226,8 +226,9 @@ estim.sur.from.search <- function(searchResult, endogenous, exogenous, extra, ..
   data <- get.data(search_data$data[,c(endogenous, exogenous), drop = FALSE],
                    endogenous = length(endogenous),
                    weights = NULL,
-                   lambdas = search_data$lambdas,
+                   lambdas = NULL, # don't transform again
                    addIntercept = FALSE,...)
+  data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))]
 
   estim.sur(
     data = data,
-- 
2.43.0


From 34c26eacddbfb5a6e6954ebc61259cebcc4d5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 086/150] fix: summary of a VARMA search used transformations
 of other variables

---
 Rpackage/R/varma.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index ce0ae33..2f20a8f 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -281,7 +281,7 @@ estim.varma.from.search <- function(searchResult, endogenous, exogenous, extra,
                    lambdas = NULL, #don't transform again
                    addIntercept = FALSE,...)
   attr(data, "ldt.new.appended") <- attr(search_data, "ldt.new.appended")
-  data$lambdas <- search_data$lambdas #correct value
+  data$lambdas <- search_data$lambdas[match(endogenous, colnames(search_data$data))] #correct value
 
   estim.varma(
     data = data,
-- 
2.43.0


From 2aa09391963696a3c8ca3ad4f51b0e2ed019cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 087/150] fix: estimation of a binary model evaluated rows with
 missing observations

---
 Rpackage/R/bin.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 703e624..292c214 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -202,6 +202,7 @@ estim.bin <- function(data,
                       weightedEval = FALSE,
                       simMaxConditionNumber = Inf) {
   stopifnot(is.list(data))
+  data <- get.data.keep.complete(data)
 
   numChoices <- get.data.check.discrete(data,1)
 
-- 
2.43.0


From 56b7b5d359fcdd2d2f2f68edba7507357a215082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 088/150] fix: numbers of reported models were not protected
 from the garbage collector

---
 Rpackage/src/r_ldt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..f8c2bc1 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -460,7 +460,7 @@ add_CoefInfo(const std::string &eName, const std::string &tName,
   for (auto &b : list) {
     j++;
 
-    std::vector<SEXP> value;
+    std::vector<RObject> value; // (protected from the garbage collector)
     std::vector<std::string> names;
 
     value.push_back(wrap(b->Metric));
-- 
2.43.0


From 012b95e3f95f1a8ff70f99415814d0f941cfef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 089/150] fix: test of a summary failed for infinite metrics

---
 Rpackage/R/g.summary.R | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.summary.R b/Rpackage/R/g.summary.R
index cc34af0..ff716be 100644
--- a/Rpackage/R/g.summary.R
+++ b/Rpackage/R/g.summary.R
@@ -1,5 +1,12 @@
 
 
+# whether two numbers are different (infinite or missing numbers equal themselves)
+is.inconsistent <- function(x, y) {
+  if (is.finite(x) && is.finite(y))
+    return(abs(x - y) > 1e-8)
+  !(is.na(x) && is.na(y)) && !isTRUE(x == y)
+}
+
 get.metric.from.estim <- function(model, metricName, targetName) {
   row <- which(rownames(model$metrics) == metricName)
   if (length(row) != 1)
@@ -55,7 +62,7 @@ summary.ldt.search.item <- function(object, searchResult = NULL, test = FALSE, .
     if (test){
 
       metric <- get.metric.from.estim(res, object$evalName, object$targetName)
-      if (abs(metric - object$value$metric)>1e-8){
+      if (is.inconsistent(metric, object$value$metric)){
         print(object)
         stop(paste0("Inconsistent metric: target=",object$targetName,
                     ", metric=", object$evalName,
@@ -80,14 +87,14 @@ summary.ldt.search.item <- function(object, searchResult = NULL, test = FALSE, .
           var <- res$prediction$vars[row, col]
         }
 
-        if (abs(mean - object$value$mean)>1e-8)
+        if (is.inconsistent(mean, object$value$mean))
           stop(paste0("Inconsistent mean: target=",object$targetName,
                       ", metric=", object$evalName,
                       ", search mean=", object$value$mean,
                       ", estimation mean=", mean))
 
 
-        if (abs(var - object$value$var)>1e-8)
+        if (is.inconsistent(var, object$value$var))
           stop(paste0("Inconsistent variance: target=",object$targetName,
                       ", metric=", object$evalName,
                       ", search var=", object$value$var,
-- 
2.43.0


From 6e93bacb5f6c560f8b99db1ec24ef6c7eaba46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 090/150] fix: sequence to the last date of a date-list did not
 end

---
 Rpackage_F/src/r_frequency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index e6c43c7..b7660dc 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -482,7 +482,9 @@ std::vector<std::string> Sequence_F(SEXP from, SEXP to, int by)
   std::vector<boost::gregorian::date> listItemsDate;
   auto F = GetFreqFromSEXP(from, listItems, listItemsDate);
   auto f = F.get();
-  auto T = GetFreqFromSEXP(to, listItems, listItemsDate);
+  std::vector<std::string> listItems2;
+  std::vector<boost::gregorian::date> listItemsDate2;
+  auto T = GetFreqFromSEXP(to, listItems2, listItemsDate2);
   auto t = T.get();
 
   auto fromNewer = f->IsNewerThan(*t);
-- 
2.43.0


From 80394c8e2f6feb3f5fa46fbc11c947a572b4990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 091/150] fix: next.freq did not move beyond the items of a
 list

---
 Rpackage_F/src/r_frequency.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index b7660dc..8a0d453 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -248,16 +248,20 @@ GetFreqFromSEXP(SEXP value, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     getCh(f["items"], listItems);
-    return std::make_unique<FrequencyList<std::string>>(
-        as<std::string>(f["value"]), &listItems);
+    auto F = std::make_unique<FrequencyList<std::string>>("", &listItems);
+    FrequencyList<std::string>::Parse0(as<std::string>(f["value"]), "Ls",
+                                       fclass, *F, nullptr);
+    return F;
   }
   case FrequencyClass::kListDate: {
     getCh(f["items"], listItems);
     for (auto const &d : listItems)
       listItemsDate.push_back(boost::gregorian::date_from_iso_string(d));
-    return std::make_unique<FrequencyList<boost::gregorian::date>>(
-        boost::gregorian::date_from_iso_string(as<std::string>(f["value"])),
-        &listItemsDate);
+    auto F = std::make_unique<FrequencyList<boost::gregorian::date>>(
+        boost::gregorian::date(), &listItemsDate);
+    FrequencyList<boost::gregorian::date>::Parse0(
+        as<std::string>(f["value"]), "Ld", fclass, *F, nullptr);
+    return F;
   }
 
   case FrequencyClass::kHourly: {
@@ -409,7 +413,7 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
 
   case FrequencyClass::kListString: {
     auto f = dynamic_cast<FrequencyList<std::string> const &>(*F);
-    auto dd = F_ListString(listItems, f.mValue);
+    auto dd = F_ListString(listItems, f.ToString());
     return dd;
   }
 
@@ -419,7 +423,7 @@ SEXP To_SEXP(Frequency *F, std::vector<std::string> &listItems,
         listItems.push_back(boost::gregorian::to_iso_string(d));
     }
     auto f = dynamic_cast<FrequencyList<boost::gregorian::date> const &>(*F);
-    auto dd = F_ListDate(listItems, boost::gregorian::to_iso_string(f.mValue));
+    auto dd = F_ListDate(listItems, f.ToString());
     return dd;
   }
 
-- 
2.43.0


From 7b441637b62ce2eb9027edda5b6df61d5385b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 092/150] fix: get.class.id0 did not return the class id of a
 list

---
 Rpackage_F/src/r_frequency.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage_F/src/r_frequency.cpp b/Rpackage_F/src/r_frequency.cpp
index 8a0d453..b5b94ba 100644
--- a/Rpackage_F/src/r_frequency.cpp
+++ b/Rpackage_F/src/r_frequency.cpp
@@ -312,7 +312,7 @@ List ToString_F0(SEXP value) {
   std::vector<boost::gregorian::date> listItemsDate;
   auto F = GetFreqFromSEXP(value, listItems, listItemsDate);
   List I = List::create(_["value"] = F.get()->ToString(),
-                        _["class"] = F.get()->ToClassString(),
+                        _["class"] = F.get()->ToClassString(true),
                         _["classType"] = ToString(F.get()->mClass));
   return I;
 }
-- 
2.43.0


From d760d419b5a2d5317dc48214fcfc07551e3f22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 093/150] fix: row names of a variable failed

---
 Rpackage_F/R/variable.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage_F/R/variable.R b/Rpackage_F/R/variable.R
index 178603f..5b72c31 100644
--- a/Rpackage_F/R/variable.R
+++ b/Rpackage_F/R/variable.R
@@ -149,7 +149,7 @@ row.names.ldtv <- function(x){
   if (any(class(x$startFrequency) == "ldtf") == FALSE) {
     stop("invalid frequency class")
   }
-  res <- get.seq(x$startFrequency, length(x$data))
+  res <- get.seq0(x$startFrequency, length(x$data))
   res
 }
 
-- 
2.43.0


From 725fced6770d8a1bf40ee0e133e3f33c6b47c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 094/150] fix: start frequency of bound variables lost the
 items of a list

---
 Rpackage_F/src/r_variable.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Rpackage_F/src/r_variable.cpp b/Rpackage_F/src/r_variable.cpp
index 9498080..f3d02ce 100644
--- a/Rpackage_F/src/r_variable.cpp
+++ b/Rpackage_F/src/r_variable.cpp
@@ -195,11 +195,8 @@ List BindVariables(SEXP varList, bool interpolate, bool adjustLeadLags,
   }
   rownames(res) = wrap(rns);
 
-  std::vector<std::string> listItems0;
-  std::vector<boost::gregorian::date> listItemsDate0;
-
   res.attr("ldtf") =
-      To_SEXP(vs.StartFrequency.get(), listItems0, listItemsDate0);
+      To_SEXP(vs.StartFrequency.get(), listItems.at(0), listItemsDate.at(0));
 
   auto L = List::create(_["data"] = res, _["info"] = info);
   return L;
-- 
2.43.0


From 83c4e5a354108680b0764b90790854098250641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 095/150] fix: long-run growth failed for series shorter than
 the trimming

---
 Rpackage_F/R/helpers.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 15b6a4a..280edd1 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -166,7 +166,7 @@ get.longrun.growth <- function(data, continuous = FALSE, isPercentage = FALSE,
   }
 
   if (is.na.zero(start, skipZero) && trimStart > 0) {
-    for (i in c(1:(trimStart + 1))) {
+    for (i in c(1:min(trimStart + 1, N))) {
       I <- i
       start <- data[[I]]
       if (is.na.zero(start, skipZero) == FALSE) {
@@ -179,7 +179,7 @@ get.longrun.growth <- function(data, continuous = FALSE, isPercentage = FALSE,
   }
 
   if (is.na.zero(end, skipZero) && trimEnd > 0) {
-    for (i in c(1:trimEnd)) {
+    for (i in seq_len(min(trimEnd, N - 1))) {
       J <- N - i
       end <- data[[J]]
       if (is.na.zero(end, skipZero) == FALSE) {
-- 
2.43.0


From db2bf50b3a232faf36a27f0cf4b3720d19b7f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 096/150] fix: strategies for removing missing data stopped at
 the first useless one

---
 Rpackage_F/R/helpers.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 280edd1..74ee02e 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -55,8 +55,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     rowRemove <- which(rowSums(is.na(mat)) > 0)
     if (length(rowRemove) == Nrow){
       if (printMsg)
-        cat("    breaking the loop. All rows are removed after removing the columns\n")
-      break # all rows will be removed
+        cat("    skipped. All rows are removed after removing the columns\n")
+      next # all rows will be removed, but not when more columns are removed
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
@@ -88,8 +88,8 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
     colRemove <- which(colSums(is.na(mat)) > 0)
     if (length(colRemove) == Ncol){
       if (printMsg)
-        cat("    breaking the loop. All columns are removed after removing the rows\n")
-      break
+        cat("    skipped. All columns are removed after removing the rows\n")
+      next
     }
     result[[length(result) + 1]] <- list(
       nRows = Nrow - length(rowRemove),
-- 
2.43.0


From 6f9714c349209e9294738f9764600170b029a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 097/150] fix: search for strategies failed when nothing can be
 kept

---
 Rpackage_F/R/helpers.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Rpackage_F/R/helpers.R b/Rpackage_F/R/helpers.R
index 74ee02e..b2632cb 100644
--- a/Rpackage_F/R/helpers.R
+++ b/Rpackage_F/R/helpers.R
@@ -104,6 +104,9 @@ remove.na.strategies <- function(data, countFun = function(nRows, nCols) nRows *
                  ", ncol=",Ncol - length(colRemove), "\n"))
   }
 
+  if (length(result) == 0)
+    return(result)
+
   inx <- sort(sapply(result, function(r) countFun(r$nRows, r$nCols)),
               index.return = TRUE, decreasing = TRUE
   )
-- 
2.43.0


From c56e301d0577b77d949a44d874b1125c4bce5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:04 +0000
Subject: [PATCH 098/150] fix: Newton without line search used the gradient of
 the starting point in every step

---
 src/ldt_math/optimization/newton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..b9130af 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -145,6 +145,7 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
-- 
2.43.0


From 48a5308b003724ad446478c4602a56fc7aaa532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:04 +0000
Subject: [PATCH 099/150] fix: rows with missing data were counted in the Brier
 score of discrete choice models

---
 .../modeling/discrete/discrete_choice_extended.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index e3e7a6b..891d671 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -84,7 +84,6 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
   // if (PredProbs && !xForecast)
 
   Ti numForecast = xForecast ? xForecast->RowsCount : 0;
-  Ti numObs = data.RowsCount;
   Ti numExo = data.ColsCount - (mHasWeight ? 2 : 1);
 
   auto temp = DiscreteChoiceExtended(
@@ -149,8 +148,9 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    // (rows with missing data are not used, see 'Data')
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
@@ -171,14 +171,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     if (mModelType == DiscreteChoiceModelType::kBinary) {
       if (aucOptions.Costs.Data) {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, true>>(numObs);
+          auc0 = std::make_unique<ROC<true, true>>(count);
         else
-          auc0 = std::make_unique<ROC<false, true>>(numObs);
+          auc0 = std::make_unique<ROC<false, true>>(count);
       } else {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, false>>(numObs);
+          auc0 = std::make_unique<ROC<true, false>>(count);
         else
-          auc0 = std::make_unique<ROC<false, false>>(numObs);
+          auc0 = std::make_unique<ROC<false, false>>(count);
       }
     } else {
       throw LdtException(ErrorType::kLogic, "dc-extended",
-- 
2.43.0


From 251c925c459a81dad2d10ea4ccb228b3c3a1018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 100/150] fix: an exact number of principal components larger
 than their number wrote beyond the data

---
 src/ldt_statistics/pca.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index a79726f..8a273fb 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -187,6 +187,10 @@ void PcaAnalysisOptions::CalculateForModel(PcaAnalysis &model, Matrix<Tv> &data,
 
   // copy required number of columns to the useMat
   auto cutoff_col = this->GetFinalCount(model);
+  if (cutoff_col > model.Stds.length())
+    throw LdtException(ErrorType::kLogic, "pca",
+                       "invalid 'ExactCount' in PCA options. It is larger than "
+                       "the number of principal components");
   model.PCs.Restructure0(model.PCs.RowsCount, cutoff_col);
   pcaMat.CopyFrom00(model.PCs); // don't check size
   data.Restructure0(
-- 
2.43.0


From 6f2585d273e6f31fbd4be19d106e471fb48df0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 101/150] fix: memory for the new values of SUR with principal
 components was that of the components

---
 src/ldt_statistics/modeling/linear/sur_extended.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index 7373d14..5e65a8a 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -42,13 +42,12 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     PcaX = PcaAnalysis(N, k, numProjections, true, true, true, true);
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
+    if (numProjections > 0)
+      StorageSize += numProjections * k; // copy X (before PCA)
     // update number of exogenous data
     k = std::min(k,
                  pcaOptionsX->CutoffCountMax +
                      pcaOptionsX->IgnoreFirstCount); // for estimating the model
-
-    if (numProjections > 0)
-      StorageSize += numProjections * k; // copy X
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
-- 
2.43.0


From 24cc399ddc144ed835f19464da3eba100a2b27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 102/150] fix: VARMA with principal components divided the data
 and set the restrictions by the number of columns before or after PCA,
 whichever was wrong

---
 .../math/statistics/inference/models/varma.h  |  2 ++
 .../time_series/varma/varma_extended.cpp      | 25 +++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/math/statistics/inference/models/varma.h b/include/math/statistics/inference/models/varma.h
index ade40b0..f6adcd3 100644
--- a/include/math/statistics/inference/models/varma.h
+++ b/include/math/statistics/inference/models/varma.h
@@ -356,6 +356,8 @@ class LDT_EXPORT VarmaExtended {
   bool mCalcVariance = false;
   bool mHasPcaY = false;
   bool mHasPcaX = false;
+  Ti mDataEqsCount = 0; // number of columns in data, i.e., before PCA
+  Ti mDataExoCount = 0;
 
 public:
   bool mCheckNan = false;
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
index 1f95cb2..b4c518d 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
@@ -24,6 +24,8 @@ VarmaExtended::VarmaExtended(
   mHorizon = fHorizon;
 
   Sizes = VarmaSizes(sizes); // it changes in the PCA
+  mDataEqsCount = Sizes.EqsCount;
+  mDataExoCount = Sizes.ExoCount;
 
   StorageSize = 0;
   WorkSize = 0;
@@ -99,7 +101,10 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
         ErrorType::kLogic, "varma-extended",
         "reserved maximum number of horizon is lower that the given horizon");
 
-  auto temp = VarmaExtended(Sizes, mRestriction, mCheckNan, mDoDetails,
+  auto dataSizes = VarmaSizes(Sizes);
+  dataSizes.EqsCount = mDataEqsCount;
+  dataSizes.ExoCount = mDataExoCount;
+  auto temp = VarmaExtended(dataSizes, mRestriction, mCheckNan, mDoDetails,
                             mCalcVariance, horizon, pPcaOptionsY, pPcaOptionsX,
                             &Model.Result.Optim.Options);
   if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
@@ -129,10 +134,10 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
   Ti count = Data.Result.RowsCount; // note that sample end will be effective
                                     // in the Varma estimation
   Tv *d = Data.Result.Data;
-  Y.SetData(d, count, Sizes.EqsCount); // since variables are in columns and
-                                       // matrix is column-major
-  if (Sizes.ExoCount > 0)
-    X.SetData(&d[Sizes.EqsCount * count], count, Sizes.ExoCount);
+  Y.SetData(d, count, mDataEqsCount); // since variables are in columns and
+                                      // matrix is column-major
+  if (mDataExoCount > 0)
+    X.SetData(&d[mDataEqsCount * count], count, mDataExoCount);
 
   if (mHasPcaY) { // change data for Y
     pPcaOptionsY->CalculateForModel(PcaY, Y, work, &storage[p], nullptr);
@@ -140,7 +145,7 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
   }
 
   auto useExoForecast = Matrix<Tv>();
-  if (Sizes.ExoCount > 0) { // change data for X
+  if (mDataExoCount > 0) { // change data for X
     if (horizon > 0) {
       if (data.RowsCount <= Data.End + horizon - sampleEnd)
         throw LdtException(
@@ -149,7 +154,7 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
       useExoForecast.SetData(&storage[p], horizon, X.ColsCount);
       p += horizon * X.ColsCount;
       useExoForecast.SetSub(0, 0, data, Data.End + 1 - sampleEnd,
-                            Sizes.EqsCount, horizon, X.ColsCount);
+                            mDataEqsCount, horizon, X.ColsCount);
     }
     if (mHasPcaX) {
       pPcaOptionsX->CalculateForModel(PcaX, X, work, &storage[p],
@@ -158,6 +163,12 @@ void VarmaExtended::Calculate(Matrix<Tv> &data, Tv *storage, Tv *work,
     }
   }
 
+  if (mHasPcaY || mHasPcaX) { // number of components
+    Sizes.EqsCount = Y.ColsCount;
+    Sizes.ExoCount = mDataExoCount > 0 ? X.ColsCount : 0;
+    Sizes.UpdateChanged();
+  }
+
   // restrictions
 
   Restriction = VarmaRestriction(Sizes, mRestriction);
-- 
2.43.0


From 31a38d2b5c3eee6085ca2e31454afcfce486648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 103/150] fix: the maximum number of principal components
 restricted an exact number in the size of models

---
 include/math/statistics/pca.h                        |  6 ++++++
 .../modeling/discrete/discrete_choice_extended.cpp   |  4 +---
 src/ldt_statistics/modeling/linear/sur_extended.cpp  |  8 ++------
 .../modeling/time_series/varma/varma_extended.cpp    | 12 ++++--------
 src/ldt_statistics/pca.cpp                           |  5 +++++
 5 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/math/statistics/pca.h b/include/math/statistics/pca.h
index 37b4a58..17ab6a0 100644
--- a/include/math/statistics/pca.h
+++ b/include/math/statistics/pca.h
@@ -107,6 +107,12 @@ public:
   /// @return Final count
   Ti GetFinalCount(const PcaAnalysis &model) const;
 
+  /// @brief Gets the maximum number of columns after using this option.
+  /// 'CutoffCountMax' restricts the result of 'CutoffRate' and not 'ExactCount'
+  /// @param cols Number of columns of the data
+  /// @return Maximum number of columns (including the ignored ones)
+  Ti GetMaxColumns(Ti cols) const;
+
   /// @brief Ignores the first columns, Calculate PCs and updates/restructure
   /// 'data'.
   /// @param model An estimated model
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index 891d671..a4d8566 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -42,9 +42,7 @@ DiscreteChoiceExtended::DiscreteChoiceExtended(
     StorageSize += Pca.StorageSize;
     WorkSize = std::max(WorkSize, Pca.WorkSize);
 
-    numExo = std::min(
-        numExo, pcaOptions->CutoffCountMax +
-                    pcaOptions->IgnoreFirstCount); // for estimating the model
+    numExo = pcaOptions->GetMaxColumns(numExo); // for estimating the model
   }
 
   Model = DiscreteChoiceBase::GetFromType(modelType, distType, rows, numExo,
diff --git a/src/ldt_statistics/modeling/linear/sur_extended.cpp b/src/ldt_statistics/modeling/linear/sur_extended.cpp
index 5e65a8a..981dc92 100644
--- a/src/ldt_statistics/modeling/linear/sur_extended.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_extended.cpp
@@ -31,9 +31,7 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     StorageSize += PcaY.StorageSize;
     WorkSize = std::max(WorkSize, PcaY.WorkSize);
     // update number of equations
-    m = std::min(m,
-                 pcaOptionsY->CutoffCountMax +
-                     pcaOptionsY->IgnoreFirstCount); // for estimating the model
+    m = pcaOptionsY->GetMaxColumns(m); // for estimating the model
   }
 
   if (mHasPcaX) {
@@ -45,9 +43,7 @@ SurExtended::SurExtended(Ti N, Ti m, Ti k, bool isRestricted, bool checkNan,
     if (numProjections > 0)
       StorageSize += numProjections * k; // copy X (before PCA)
     // update number of exogenous data
-    k = std::min(k,
-                 pcaOptionsX->CutoffCountMax +
-                     pcaOptionsX->IgnoreFirstCount); // for estimating the model
+    k = pcaOptionsX->GetMaxColumns(k); // for estimating the model
   }
 
   Model = Sur(N, m, k, isRestricted, doDetails, maxSigSearchIter);
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
index b4c518d..cc1d648 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp
@@ -46,10 +46,8 @@ VarmaExtended::VarmaExtended(
     StorageSize += PcaY.StorageSize;
     WorkSize = std::max(WorkSize, PcaY.WorkSize);
     // update number of equations
-    Sizes.EqsCount =
-        std::min(Sizes.EqsCount,
-                 pcaOptionsY->CutoffCountMax +
-                     pcaOptionsY->IgnoreFirstCount); // for estimating the model
+    Sizes.EqsCount = pcaOptionsY->GetMaxColumns(
+        Sizes.EqsCount); // for estimating the model
   }
 
   if (mHasPcaX) {
@@ -64,10 +62,8 @@ VarmaExtended::VarmaExtended(
     StorageSize += PcaX.StorageSize;
     WorkSize = std::max(WorkSize, PcaX.WorkSize);
     // update number of exogenous data
-    Sizes.ExoCount =
-        std::min(Sizes.ExoCount,
-                 pcaOptionsX->CutoffCountMax +
-                     pcaOptionsX->IgnoreFirstCount); // for estimating the model
+    Sizes.ExoCount = pcaOptionsX->GetMaxColumns(
+        Sizes.ExoCount); // for estimating the model
   }
   if (mHasPcaY || mHasPcaX)
     Sizes.UpdateChanged(); // updata MAstart, etc.
diff --git a/src/ldt_statistics/pca.cpp b/src/ldt_statistics/pca.cpp
index 8a273fb..c10c525 100644
--- a/src/ldt_statistics/pca.cpp
+++ b/src/ldt_statistics/pca.cpp
@@ -232,6 +232,11 @@ void PcaAnalysisOptions::CheckValidity() {
   }
 }
 
+Ti PcaAnalysisOptions::GetMaxColumns(Ti cols) const {
+  return std::min(cols, (ExactCount != 0 ? ExactCount : CutoffCountMax) +
+                            IgnoreFirstCount);
+}
+
 Ti PcaAnalysisOptions::GetFinalCount(const PcaAnalysis &model) const {
   {
     if (ExactCount != 0)
-- 
2.43.0


From cc59b75b33a1d9038fc78e6d1922000dba49db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:08 +0000
Subject: [PATCH 104/150] fix: the backward distance between two days of a week
 was larger than a week

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 97c1c4d..cf2e351 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -248,7 +248,7 @@ Ti DayOfWeekRange::Distance(DayOfWeek start, DayOfWeek end, bool forward) {
     if (s >= e)
       return s - e;
     else
-      return 7 - s + e;
+      return 7 - e + s;
   }
 }
 
-- 
2.43.0


From 71add241127f182327d45acbc922f974964679d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:49 +0000
Subject: [PATCH 105/150] fix: get.varma.params named the intercept differently
 from its documentation

---
 Rpackage/R/varma.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index 2f20a8f..e8da306 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -802,7 +802,7 @@ get.varma.params <- function(coef, numAR = 1, numMA = 0,
 
 
 
-  return(list(arList = ar, integer = int,
+  return(list(arList = ar, intercept = int,
               exoCoef = exog, maList = ma))
 }
 
-- 
2.43.0


From d7ab4ab1f9e03673a31a6388a24ca13c8d189f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:50 +0000
Subject: [PATCH 106/150] fix: dates of VARMA predictions ignored the frequency
 of the data and missing observations at the end

---
 Rpackage/R/g.regression.R | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index bcf2834..dfca571 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -300,10 +300,8 @@ predict.ldt.estim.varma <- function(object,
   if (is.null(object$prediction) || is.null(object$prediction$means))
     stop("Predictions are not available. Make sure you requested prediction in the 'estim.varma(...)' function.")
 
-  added <- attr(object$info$data, "ldt.new.appended")
-  ldata <- nrow(object$info$data$data)
-  if (!is.null(added) && added > 0)
-    ldata <- nrow(object$info$data$data) - added
+  # predictions start after the last observation used in the estimation
+  ldata <- max(estimRows(object))
 
   aY <- object$info$data$data[1:ldata,
                               colnames(object$estimations$Y), drop=FALSE]#don't use Y (It is differenced in integrated models)
@@ -313,7 +311,7 @@ predict.ldt.estim.varma <- function(object,
 
   hasVar = !is.null(object$prediction$vars)
   if (is.null(startFrequency))
-    startFrequency = object$info$startFrequency
+    startFrequency = object$info$data$startFrequency
   if (is.null(startFrequency))
     startFrequency = tdata::f.cross.section(1)
 
-- 
2.43.0


From 9c45e51e12fc491716200616e82b6c9ef1cc9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:50 +0000
Subject: [PATCH 107/150] fix: predict failed for projections of discrete
 choice models

---
 Rpackage/R/g.regression.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index dfca571..9053b8d 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -262,8 +262,12 @@ predict.ldt.estim <- function(object, ...){
     stop("Invalid class. An 'ldt.estim' object is expected.")
 
   res <- list()
-  res$means <- object$projection$means
-  res$vars <- object$projection$vars
+  if (is.matrix(object$projection)) # probabilities in discrete choice models
+    res$means <- object$projection
+  else {
+    res$means <- object$projection$means
+    res$vars <- object$projection$vars
+  }
 
   res$method <- attr(object, "method")
   res$newX <- object$info$data$newX
-- 
2.43.0


From 66bdc90feb7cf55b1c5157a3565088b678aa7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:50 +0000
Subject: [PATCH 108/150] fix: coefs.table lost dependent variables whose
 displayed name differs from the name

---
 Rpackage/R/g.prints.R | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 878a7e6..916ab00 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -605,8 +605,6 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     depList <- unique(unlist(lapply(estimList, function(e) colnames(e$estimations$coefs))))
   else
     depList <- as.character(depList)
-  depList <- lapply(depList, function(n) textFun(n, "dname"))
-
   col_names <- unlist(lapply(seq_along(col_names), function(i) {
     rep(col_names[i], sum(colnames(estimList[[i]]$estimations$coefs) %in% depList))
   }))
@@ -640,7 +638,7 @@ coefs.table <- function(estimList, depList = NULL, tableFun = "coef_star", forma
     for (d in depList){
       if (!d %in% colnames(e$estimations$coefs)) next
       j <- j + 1
-      r_table[1, j] <- d
+      r_table[1, j] <- textFun(d, "dname")
 
       ns <- row.names(e$estimations$coefs)
       i <- 0
-- 
2.43.0


From 824865d73848dbee93548cff3451ef1832b3c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:50 +0000
Subject: [PATCH 109/150] fix: residuals, fitted values and plots failed for
 VARMA, weighted data and single equations, and standardized by the deviation
 of all equations

---
 Rpackage/R/g.plots.R      |  2 +-
 Rpackage/R/g.regression.R | 38 ++++++++++++++++++++++----------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index b922da7..683e876 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -57,7 +57,7 @@ plot.ldt.estim <- function(x,
   stopifnot(type %in% c(1, 2, 3, 4, 5, 6))
 
   fitted <- fitted(x, equation = equation)
-  fitted <- fitted - min(fitted)
+  fitted <- fitted - min(fitted, na.rm = TRUE)
   if (type == 1)
     residuals <- resid(x, equation = equation, standardized = FALSE, pearson = TRUE)
   else
diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 9053b8d..669fdeb 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -90,6 +90,13 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 }
 
 
+# Rows of data with a residual: in VARMA, observations are lost at the beginning (lags and differences)
+# and missing or new observations at both ends are not used in the estimation
+estimRows <- function(object){
+  last <- max(which(stats::complete.cases(object$info$data$data)))
+  seq.int(to = last, length.out = nrow(object$estimations$resid))
+}
+
 hatvalues0 <- function(object, equation, addNA = TRUE){
   #TODO:can be more efficient
   method <- tolower(attr(object, "method"))
@@ -100,8 +107,9 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
   res <- diag(H)
 
   if (addNA && method == "varma"){
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
-    res <- c(rep(NA, omit_obs), res)
+    hii <- rep(NA_real_, nrow(object$info$data$data))
+    hii[estimRows(object)] <- res
+    res <- hii
   }
   res
 }
@@ -159,23 +167,21 @@ residuals.ldt.estim <- function(object, equations = NULL, standardized = FALSE,
     resid <- object$estimations$resid[, equations, drop=FALSE]
 
   if (standardized) {
-    for (i in equations){
-      hii <- hatvalues0(object, equation = i, addNA = FALSE)
-      s <- sd(resid)
-      if (object$info$data$hasWeight){
-        weights <- object$info$data[,object$info$data$numEndo + 1]
-        resid[,i] <- resid[,i] / (s * weights * sqrt(1 - hii))
-      }
-      else{
-        resid[,i] <- resid[,i] / (s * sqrt(1 - hii))
-      }
+    weights <- 1
+    if (object$info$data$hasWeight)
+      weights <- object$info$data$data[,object$info$data$numEndo + 1]
+    for (j in seq_along(equations)){
+      hii <- hatvalues0(object, equation = equations[j], addNA = FALSE)
+      resid[,j] <- resid[,j] / (sd(resid[,j]) * sqrt(weights * (1 - hii)))
     }
   }
 
-  omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid) # for VARMA
-  if (method == "varma")
-    resid <- rbind(matrix(NA, ncol = ncol(resid), nrow = omit_obs), resid)
-
+  if (method == "varma"){
+    all_resid <- matrix(NA_real_, nrow = nrow(object$info$data$data), ncol = ncol(resid),
+                        dimnames = list(NULL, colnames(resid)))
+    all_resid[estimRows(object),] <- resid
+    resid <- all_resid
+  }
 
   resid
 }
-- 
2.43.0


From 510980cb7c7f3b901b8d1816ca436af9073e1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 110/150] fix: Cook's distance used another power of the
 leverage and a single coefficient; plot 6 did not draw the ratio of the
 leverage

---
 Rpackage/R/g.plots.R      |  1 +
 Rpackage/R/g.regression.R | 29 +++++++++--------------------
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/Rpackage/R/g.plots.R b/Rpackage/R/g.plots.R
index 683e876..b6dcde1 100644
--- a/Rpackage/R/g.plots.R
+++ b/Rpackage/R/g.plots.R
@@ -134,6 +134,7 @@ plot.ldt.estim <- function(x,
   }
   else if (type == 6) {
     x_data <- hatvalues0(x, equation = equation)
+    x_data <- x_data / (1 - x_data)
     y_data <- cooks.distance0(x, equation = equation)
     args <- modifyList(list(main = "Cook's dist vs Leverage/(1-Leverage)", xlab = "Leverage/(1-Leverage)", ylab = "Cook's distance",
                             ylim = expand_lim(y_data, fix_min = 0)), args)
diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 669fdeb..4afe614 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -115,28 +115,17 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
 }
 
 cooks.distance0 <- function(object, equation, addNA = TRUE){
-  method <- tolower(attr(object, "method"))
-  omit_obs <- 0
-  if (method == "varma")
-    omit_obs <- nrow(object$info$data) - nrow(object$estimations$resid)
-
-  h <- hatvalues0(object, equation, FALSE)
-  r <- residuals.ldt.estim(object, equation)
-  if (omit_obs > 0)
-    r <- r[(omit_obs+1):length(r)]
-
-  mse <- sum(r^2)/length(r)
-  c <- coef.ldt.estim(object, equations = equation, removeZeroRest = TRUE)
-  p <- length(c[1])
-  if (object$info$data$hasWeight){
+  if (object$info$data$hasWeight)
     stop("Cook's distance is not implemented for weighted observations.") # couldn't find a reference
-  }
-  else
-    res <- r^2 * h / (p*mse*(1-h^2))
 
-  if (addNA && omit_obs > 0)
-    res <- c(rep(NA, omit_obs), res)
-  res
+  h <- hatvalues0(object, equation, addNA)
+  r <- as.numeric(residuals.ldt.estim(object, equation))
+  if (addNA == FALSE)
+    r <- r[!is.na(r)]
+
+  mse <- mean(r^2, na.rm = TRUE)
+  p <- ncol(exogenous(object, equation)) # number of estimated coefficients
+  r^2 * h / (p*mse*(1-h)^2)
 }
 
 #' Extract Residuals Data
-- 
2.43.0


From 3ff3d03c711b46f2de69bb3c9fe06e91978a5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 111/150] fix: coef and exogenous of a single equation lost
 their shape and failed with zero restrictions

---
 Rpackage/R/g.regression.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 4afe614..96f2223 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -53,7 +53,7 @@ exogenous <- function(object, equation = 1, ...){
   X <- object$estimations$X
   if (!is.null(object$estimations$isRestricted)){
     not_restricted <- as.logical(1 - object$estimations$isRestricted[,equation])
-    X <- X[,not_restricted]
+    X <- X[,not_restricted, drop=FALSE]
   }
   X
 }
@@ -75,7 +75,7 @@ exogenous <- function(object, equation = 1, ...){
 #' @export
 coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...){
   equations <- checkEquation(object, equations, FALSE)
-  c <- object$estimations$coefs[, equations]
+  c <- object$estimations$coefs[, equations, drop=FALSE]
   if (removeZeroRest == FALSE ||
       is.null(object$estimations$isRestricted) ||
       sum(object$estimations$isRestricted) == 0)
@@ -83,8 +83,8 @@ coef.ldt.estim <- function(object, equations = NULL, removeZeroRest = FALSE, ...
 
   result <- list()
   for (j in 1:ncol(c)){
-    notRest <- as.logical(1 - object$estimations$isRestricted[,j])
-    result[[colnames(c)[j]]] <- c[,j,drop=FALSE][notRest]
+    notRest <- as.logical(1 - object$estimations$isRestricted[,equations[j]])
+    result[[colnames(c)[j]]] <- c[notRest,j]
   }
   result
 }
-- 
2.43.0


From 12aa7c3af5cc318cb801539291ab520a183dfd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:39 +0000
Subject: [PATCH 112/150] fix: leverages failed for an equation with all its
 coefficients restricted to zero

---
 Rpackage/R/g.regression.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Rpackage/R/g.regression.R b/Rpackage/R/g.regression.R
index 96f2223..d0bae98 100644
--- a/Rpackage/R/g.regression.R
+++ b/Rpackage/R/g.regression.R
@@ -103,8 +103,12 @@ hatvalues0 <- function(object, equation, addNA = TRUE){
 
   X <- exogenous(object, equation = equation) # it takes PCA and restrictions into account
 
-  H <- X %*% solve(t(X) %*% X) %*% t(X)
-  res <- diag(H)
+  if (ncol(X) == 0) # all coefficients of the equation are restricted to zero
+    res <- rep(0, nrow(X))
+  else {
+    H <- X %*% solve(t(X) %*% X) %*% t(X)
+    res <- diag(H)
+  }
 
   if (addNA && method == "varma"){
     hii <- rep(NA_real_, nrow(object$info$data$data))
-- 
2.43.0


From 8dc88004adce099944eb14067eed3f0f7bf0b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:49 +0000
Subject: [PATCH 113/150] fix: sim.varma failed without intercept for several
 equations, lost the drawn lags of one side and returned fewer rows for
 non-seasonal data

---
 Rpackage/R/varma.R | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/varma.R b/Rpackage/R/varma.R
index e8da306..861e284 100644
--- a/Rpackage/R/varma.R
+++ b/Rpackage/R/varma.R
@@ -511,6 +511,8 @@ sim.varma <- function(sigma = 2L, arList = 1L, maList = 0L,
     sAr = seasonalCoefs[[1]]
     sMa = seasonalCoefs[[3]]
     isSeasonal <-  s > 1
+    if (!isSeasonal)
+      D = 0
   }
 
   arimaPolyZeros <- NULL
@@ -520,7 +522,7 @@ sim.varma <- function(sigma = 2L, arList = 1L, maList = 0L,
 
   # Generate random AR coefficients if arList is an integer
   if (is.integer(arList) && length(arList) == 1) {
-    if (isSeasonal)
+    if (!is.null(arimaPolyZeros))
       arList <- lapply(arimaPolyZeros$ar_poly, function(x) if(x==1) matrix(rnorm(p^2)*0.1, p, p) else matrix(0, p, p))
     else
       arList <- lapply(seq_len(arList), function(x) matrix(rnorm(p^2)*0.1, p, p))
@@ -528,7 +530,7 @@ sim.varma <- function(sigma = 2L, arList = 1L, maList = 0L,
 
   # Generate random MA coefficients if maList is an integer
   if (is.integer(maList) && length(maList) == 1) {
-    if (isSeasonal)
+    if (!is.null(arimaPolyZeros))
       maList <- lapply(arimaPolyZeros$ma_poly, function(x) if(x==1) diag(rnorm(1)*0.1, p, p) else matrix(0, p, p))
     else
       maList <- lapply(seq_len(maList), function(x) diag(rnorm(1)*0.1, p, p))
@@ -551,8 +553,11 @@ sim.varma <- function(sigma = 2L, arList = 1L, maList = 0L,
   }
 
   # Generate a random intercept if intercept is TRUE
-  if (is.logical(intercept) && intercept) {
-    intercept <- matrix(rnorm(p), ncol = 1)
+  if (is.logical(intercept)) {
+    if (intercept)
+      intercept <- matrix(rnorm(p), ncol = 1)
+    else
+      intercept <- NULL
   }
 
   # Check the dimensions of the input arguments
-- 
2.43.0


From 557dccbab925bc6f1c40d8b3d7d5e09d750ca6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:49 +0000
Subject: [PATCH 114/150] fix: rand.mnormal failed when one of the parameters
 is random and the other is the default

---
 Rpackage/R/statistics.R | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Rpackage/R/statistics.R b/Rpackage/R/statistics.R
index c7ebfce..5662e2d 100644
--- a/Rpackage/R/statistics.R
+++ b/Rpackage/R/statistics.R
@@ -492,15 +492,12 @@ rand.mnormal <- function(n, mu = NULL,
                          sigma = NULL,
                          p = NULL,
                          byRow = TRUE) {
-  if (length(mu) == 1 && is.na(mu) && length(sigma) == 1 && is.na(sigma)) {
+  random_mu <- length(mu) == 1 && is.na(mu)
+  random_sigma <- length(sigma) == 1 && is.na(sigma)
+  if ((is.null(mu) || random_mu) && (is.null(sigma) || random_sigma)) {
     if (is.null(p)) stop("Please specify the dimension 'p' of the distribution")
-    mu <- runif(p)
-    x <- matrix(rnorm(p * p), ncol = p)
-    sigma <- crossprod(x)
-  } else if (is.null(mu) && is.null(sigma)) {
-    if (is.null(p)) stop("Please specify the dimension 'p' of the distribution")
-    mu <- rep(0, p)
-    sigma <- diag(p)
+    mu <- if (random_mu) runif(p) else rep(0, p)
+    sigma <- if (random_sigma) crossprod(matrix(rnorm(p * p), ncol = p)) else diag(p)
   } else if (length(mu) == 1 && is.na(mu)) {
     p <- ncol(sigma)
     mu <- runif(p)
-- 
2.43.0


From 60b9326ca7d080aa82a34852b0709330dcec3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:49 +0000
Subject: [PATCH 115/150] fix: sim.bin failed with a single coefficient or
 integer values, and could remove the wrong observations

---
 Rpackage/R/bin.R | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Rpackage/R/bin.R b/Rpackage/R/bin.R
index 292c214..d25ce7b 100644
--- a/Rpackage/R/bin.R
+++ b/Rpackage/R/bin.R
@@ -371,13 +371,10 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
   }
 
   # Generate the exogenous variables
-  if (nVar == 0) {
-    x <- matrix(1, ncol = 1, nrow = nObs * sampleFactor)
-    colnames(x) <- c("Intercept")
-  } else {
-    x <- cbind(1, matrix(rnorm(nObs * sampleFactor * (nVar - 1)), ncol = nVar - 1))
-    colnames(x) <- c("Intercept", paste0("X", seq_len(nVar - 1)))
-  }
+  if (nVar == 0)
+    stop("At least one coefficient (the intercept) is required.")
+  x <- cbind(1, matrix(rnorm(nObs * sampleFactor * (nVar - 1)), nrow = nObs * sampleFactor, ncol = nVar - 1))
+  colnames(x) <- c("Intercept", if (nVar > 1) paste0("X", seq_len(nVar - 1)))
 
   # Calculate the probability of choosing option 1
   if (probit) {
@@ -410,7 +407,7 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
   nPos <- round(nObs * pPos)
   posToRemove <- sum(y) - nPos
   if (posToRemove > 0) {
-    posIndexes <- sample(which(y == 1), posToRemove)
+    posIndexes <- which(y == 1)[sample.int(sum(y), posToRemove)]
     y <- y[-posIndexes, , drop = FALSE]
     x <- x[-posIndexes, , drop = FALSE]
     w <- w[-posIndexes, , drop = FALSE]
@@ -423,7 +420,7 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
   # Remove excess negative observations
   negToRemove <- sum(!y) - (nObs - nPos)
   if (negToRemove > 0) {
-    negIndexes <- sample(which(y == 0), negToRemove)
+    negIndexes <- which(y == 0)[sample.int(sum(!y), negToRemove)]
     y <- y[-negIndexes, , drop = FALSE]
     x <- x[-negIndexes, , drop = FALSE]
     w <- w[-negIndexes, , drop = FALSE]
@@ -435,10 +432,12 @@ sim.bin <- function(coef = 2L, nObs = 100, probit = FALSE,
 
   if (toNumeric){
     y = matrix(as.numeric(y), ncol = 1)
-    w = matrix(as.numeric(w), ncol = 1)
+    if (!is.null(w))
+      w = matrix(as.numeric(w), ncol = 1)
   }
   colnames(y) <- "Y"
-  colnames(w) <- "W"
+  if (!is.null(w))
+    colnames(w) <- "W"
   p1 = matrix(p1, ncol = 1)
   colnames(p1) <- "P1"
 
-- 
2.43.0


From 44019ceace3bc9ec72373890af0047219839fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:24 +0000
Subject: [PATCH 116/150] fix: option 'pessimistic' of the ROC was ignored

---
 Rpackage/src/r_ldt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index f8c2bc1..fad9af4 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -273,6 +273,7 @@ void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
   options.LowerThreshold = as<double>(rocOptionsR["lowerThreshold"]);
   options.UpperThreshold = as<double>(rocOptionsR["upperThreshold"]);
   options.Epsilon = as<double>(rocOptionsR["epsilon"]);
+  options.Pessimistic = as<bool>(rocOptionsR["pessimistic"]);
 
   if (rocOptionsR["costs"] != R_NilValue) {
     auto costs0 = as<NumericVector>(rocOptionsR["costs"]);
-- 
2.43.0


From 98c49a6a2cdf70c395e814d6667f16a63f45d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:24 +0000
Subject: [PATCH 117/150] fix: s.cluster.h overwrote the distances of the user

---
 Rpackage/src/r_clustering.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_clustering.cpp b/Rpackage/src/r_clustering.cpp
index 2b61f8a..e3fa6e9 100644
--- a/Rpackage/src/r_clustering.cpp
+++ b/Rpackage/src/r_clustering.cpp
@@ -46,7 +46,8 @@ List ClusterH(NumericVector distances, std::string linkage) {
   HClusterLinkage linkage0 = FromString_HClusterLinkage(linkage.c_str());
 
   auto cluster = HClusterBase::GetFromType(linkage0, numVariables);
-  auto mdistances = MatrixSym<false>(&distances[0], numVariables);
+  auto copy = clone(distances); // it is overwritten in the calculations
+  auto mdistances = MatrixSym<false>(&copy[0], numVariables);
   cluster->Calculate(mdistances);
 
   // lets send similar output to R
-- 
2.43.0


From 82ac1d476bdd6a90a6972d879b1577384b17349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:24 +0000
Subject: [PATCH 118/150] fix: s.combine.stats4 treated the kurtosis as excess
 kurtosis

---
 Rpackage/R/steps.R            | 6 +++---
 Rpackage/src/r_statistics.cpp | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/Rpackage/R/steps.R b/Rpackage/R/steps.R
index f9742dd..de48ad8 100644
--- a/Rpackage/R/steps.R
+++ b/Rpackage/R/steps.R
@@ -104,19 +104,19 @@ combine.search <- function(list, method) {
         mix <- s.combine.stats4(
           list(
             mean = first[[ind, 1]], variance = first[[ind, 2]],
-            skewness = first[[ind, 3]], kurtosis = first[[ind, 4]],
+            skewness = first[[ind, 3]], kurtosis = first[[ind, 4]] + 3, # it is excess kurtosis
             count = first[[ind, 5]], weight = first[[ind, 6]]
           ),
           list(
             mean = second[[j, 1]], variance = second[[j, 2]],
-            skewness = second[[j, 3]], kurtosis = second[[j, 4]],
+            skewness = second[[j, 3]], kurtosis = second[[j, 4]] + 3,
             count = second[[j, 5]], weight = second[[j, 6]]
           )
         )
         first[ind, 1] <- mix$mean
         first[ind, 2] <- mix$variance
         first[ind, 3] <- mix$skewness
-        first[ind, 4] <- mix$kurtosis
+        first[ind, 4] <- mix$kurtosis - 3
         first[ind, 5] <- mix$count
         first[ind, 6] <- mix$weight
       }
diff --git a/Rpackage/src/r_statistics.cpp b/Rpackage/src/r_statistics.cpp
index e4e7274..fcec09a 100644
--- a/Rpackage/src/r_statistics.cpp
+++ b/Rpackage/src/r_statistics.cpp
@@ -199,13 +199,16 @@ List CombineStats4(List list1, List list2)
 // clang-format on
 {
   auto r = RunningMoments<4, true, true, Tv>();
+  // 'RunningMoments' works with excess kurtosis
   r.Combine(list1["mean"], list1["variance"], list1["skewness"],
-            list1["kurtosis"], list1["weight"], list1["count"]);
+            as<double>(list1["kurtosis"]) - 3, list1["weight"],
+            list1["count"]);
   r.Combine(list2["mean"], list2["variance"], list2["skewness"],
-            list2["kurtosis"], list2["weight"], list2["count"]);
+            as<double>(list2["kurtosis"]) - 3, list2["weight"],
+            list2["count"]);
   auto L = List::create(
       _["mean"] = r.GetMean(), _["variance"] = r.GetVariance(),
-      _["skewness"] = r.GetSkewness(), _["kurtosis"] = r.GetKurtosis(),
+      _["skewness"] = r.GetSkewness(), _["kurtosis"] = r.GetKurtosis() + 3,
       _["weight"] = r.SumWeights, _["count"] = r.Count);
   return L;
 }
-- 
2.43.0


From 33262e117e1d6f5f8bceaa6ddedb432625af6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:24 +0000
Subject: [PATCH 119/150] fix: s.pca failed for integer values in 'newX'

---
 Rpackage/src/r_statistics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Rpackage/src/r_statistics.cpp b/Rpackage/src/r_statistics.cpp
index fcec09a..5e09864 100644
--- a/Rpackage/src/r_statistics.cpp
+++ b/Rpackage/src/r_statistics.cpp
@@ -219,11 +219,12 @@ List GetPca(NumericMatrix x, bool center, bool scale, SEXP newX) {
   auto mx = ldt::Matrix<double>(&x[0], x.nrow(), x.ncol());
   auto mnewX = ldt::Matrix<double>();
   bool hasNewX = newX != R_NilValue;
+  NumericMatrix newX_;
   if (hasNewX) {
-    if (is<NumericMatrix>(newX) == false)
+    if (is<NumericMatrix>(newX) == false && is<IntegerMatrix>(newX) == false)
       throw LdtException(ErrorType::kLogic, "R-statistics",
                          "'newX' must be a 'numeric matrix'");
-    NumericMatrix newX_ = as<NumericMatrix>(newX);
+    newX_ = as<NumericMatrix>(newX);
     mnewX.SetData(&newX_[0], newX_.nrow(), newX_.ncol());
   }
 
-- 
2.43.0


From d0e7b973f7427539b0cafc0851f995629ac0fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:56 +0000
Subject: [PATCH 120/150] fix: s.roc read outside the costs when there are
 fewer costs than observations

---
 Rpackage/src/r_statistics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Rpackage/src/r_statistics.cpp b/Rpackage/src/r_statistics.cpp
index 5e09864..d9274bb 100644
--- a/Rpackage/src/r_statistics.cpp
+++ b/Rpackage/src/r_statistics.cpp
@@ -107,6 +107,10 @@ List GetRoc(SEXP y, SEXP scores, SEXP weights, List options) {
   ldt::RocOptions options_;
   UpdateRocOptions(options, options_);
 
+  if (options_.Costs.Data && options_.Costs.length() != N)
+    throw LdtException(ErrorType::kLogic, "R-statistics",
+                       "unequal number of observations in 'y' and 'costs'");
+
   std::unique_ptr<RocBase> auc0;
   if (hasWeight) {
     if (options_.Costs.Data) {
-- 
2.43.0


From 505b92fb1fcf471f1181e56c712e9d3ceaf923b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:53 +0000
Subject: [PATCH 121/150] fix: Nelder-Mead could return points outside the
 given bounds

---
 src/ldt_math/optimization/nelder_mead.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 592d8cd..7aedfc9 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -54,9 +54,24 @@ void NelderMead::Minimize(
     }
   }
 
+  // outside the bounds, use the value at the nearest point inside and a penalty
+  // (therefore, the restricted solution is never worse than the simplex)
+  auto inside = std::make_unique<Tv[]>(n);
+  auto insideMat = Matrix<Tv>(inside.get(), n, 1);
+  auto clip = [&](const Matrix<Tv> &x) {
+    for (Ti i = 0; i < n; i++) {
+      insideMat.Data[i] = x.Data[i];
+      if (lower && insideMat.Data[i] < lower->Data[i])
+        insideMat.Data[i] = lower->Data[i];
+      if (upper && insideMat.Data[i] > upper->Data[i])
+        insideMat.Data[i] = upper->Data[i];
+    }
+  };
+
   std::function<Tv(const Matrix<Tv> &)> f = [&](const Matrix<Tv> &x) -> Tv {
     try {
-      return objective(x) +
+      clip(x);
+      return objective(insideMat) +
              penaltyMultiplier * PenaltyFunction(x, lower, upper);
     } catch (...) {
       return INFINITY;
@@ -207,7 +222,8 @@ void NelderMead::Minimize(
 
   Result.SetData(storage, n, 1);
   Array<Tv>::MinIndex<false>(values.Data, n + 1, temp, best_index);
-  simplex[best_index].CopyTo00(Result);
+  clip(simplex[best_index]);
+  insideMat.CopyTo00(Result);
   Min = f(Result);
 }
 
-- 
2.43.0


From 5c74d21cfe0ba2d0b4e829756427e3b05ad1f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:53 +0000
Subject: [PATCH 122/150] fix: kurtosis was ignored in estimating the
 parameters of S-shaped GLDs

---
 .../distributions/distribution_gld.cpp           | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/distributions/distribution_gld.cpp b/src/ldt_statistics/distributions/distribution_gld.cpp
index 34027d1..7f0cb26 100644
--- a/src/ldt_statistics/distributions/distribution_gld.cpp
+++ b/src/ldt_statistics/distributions/distribution_gld.cpp
@@ -430,9 +430,17 @@ DistributionGld::GetFromMoments(Tv mean, Tv variance, Tv skewness,
         } else if (x.Data[1] > 2 + DBL_EPSILON && x.Data[0] > 1 + DBL_EPSILON &&
                    x.Data[0] < 2 - DBL_EPSILON) {
           // ok
-        } else // what is a good penalty?!
-          penalty +=
-              std::pow(1.5 - x.Data[0], 2) + std::pow(1.5 - x.Data[1], 2);
+        } else { // distance from the nearest region
+          auto out = [](Tv v, Tv low, Tv up) -> Tv {
+            return v < low ? low - v : v > up ? v - up : 0.0;
+          };
+          penalty =
+              1e3 *
+              (1.0 + std::min(std::pow(out(x.Data[0], 2, INFINITY), 2) +
+                                  std::pow(out(x.Data[1], 1, 2), 2),
+                              std::pow(out(x.Data[1], 2, INFINITY), 2) +
+                                  std::pow(out(x.Data[0], 1, 2), 2)));
+        }
 
         GetMs(x.Data[0], x.Data[1], m1, m2, m3, m4);
         auto v = m2 - m1 * m1;
@@ -441,7 +449,7 @@ DistributionGld::GetFromMoments(Tv mean, Tv variance, Tv skewness,
         auto exc_kurt = -3.0 + (m4 - 4.0 * m1 * m3 + 6.0 * m1 * m1 * m2 -
                                 3.0 * std::pow(m1, 4.0)) /
                                    std::pow(v, 2.0);
-        return penalty * std::pow(ex_kurtosis - exc_kurt, 2.0) +
+        return penalty + std::pow(ex_kurtosis - exc_kurt, 2.0) +
                std::pow(skew - skewness, 2.0);
       };
       break;
-- 
2.43.0


From df3ba753779402854a85e2426e8370921cde397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:17 +0000
Subject: [PATCH 123/150] fix: multiply every column in DotDiag of a matrix
 that is not square

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From c803c5cc2eddaafb5a131232f087011eb66a1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:17 +0000
Subject: [PATCH 124/150] fix: fill the whole column in SetColumnFromRow of a
 matrix that is not square

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 311ced9..f448f42 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1499,7 +1499,7 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
-- 
2.43.0


From 6acbda8958fe72ff34d2d1c7178fe1fc67c6be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:17 +0000
Subject: [PATCH 125/150] fix: return the last element in Matrix::Last

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index f448f42..d2f1f6a 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
-- 
2.43.0


From fd8255639ab87457e94a830be2e48d22682a40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:25 +0000
Subject: [PATCH 126/150] fix: refuse a storage that is too small in
 Matrix::GetSub

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index d2f1f6a..a73f7c0 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1210,7 +1210,7 @@ void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
   auto storreqrow = rowcount + storagerowstart;
   auto storreqcol = colcount + storaecolstart;
 
-  if (storage.RowsCount > storreqrow || storage.ColsCount > storreqcol)
+  if (storage.RowsCount != storreqrow || storage.ColsCount != storreqcol)
     throw std::invalid_argument("inconsistent size in get sub (1). ");
 
   GetSub0(rowstart, colstart, rowcount, colcount, storage, storagerowstart,
-- 
2.43.0


From f977031eba349ce15e51a3cbd523d8bbfc5e1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:09 +0000
Subject: [PATCH 127/150] fix: divide by the number of used observations in the
 variances of CorrelationColumn

---
 src/matrix/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index a73f7c0..af4e0f9 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2914,8 +2914,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * (count - 1);
           w2 += dx2 * s2 * (count - 1);
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = (sample && count > 0) ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = (sample && count > 0) ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
-- 
2.43.0


From c1de389faaca21ae5d84b19f403efa5a4a768d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 128/150] fix: asking a distribution for its maximum returned
 its minimum

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4172310..95f1e7d 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -186,7 +186,7 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   case ldt::DistributionProperty::kMinimum:
     return GetMinimum();
   case ldt::DistributionProperty::kMaximum:
-    return GetMinimum();
+    return GetMaximum();
   case ldt::DistributionProperty::kMedian:
     return GetMedian();
   case ldt::DistributionProperty::kMode:
-- 
2.43.0


From 35f3027fc4807fa5eaf64f242d080b643062d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 129/150] fix: standard deviation of the log-normal
 distribution

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 95f1e7d..74e0b1c 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -468,8 +468,6 @@ template <DistributionType type> Tv Distribution<type>::GetVariance() {
 template <DistributionType type> Tv Distribution<type>::GetSandardDeviation() {
   if constexpr (type == DistributionType::kNormal) {
     return mParam2;
-  } else if constexpr (type == DistributionType::kLogNormal) {
-    return (Tv)1 / mParam1;
   } else if constexpr (true) {
     return (Tv)std::sqrt(GetVariance());
   }
-- 
2.43.0


From 8ec358a82f7804f5dc46fafd5201b138875384c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 130/150] fix: discrete distributions gave a probability to
 values that are not integers

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 74e0b1c..9df947e 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -870,8 +870,9 @@ void Distribution<type>::GetPmfSupport(Tv *x, Tv *Value, bool log, Ti length,
 }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
-  if (x < GetMinimum() ||
-      x > GetMaximum()) // impossible event -> zero probability event
+  if (x < GetMinimum() || x > GetMaximum() ||
+      (IsDiscrete() &&
+       x != std::floor(x))) // impossible event -> zero probability event
     return (Tv)0;
 
   if constexpr (type == DistributionType::kNormal) {
@@ -935,8 +936,9 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
 }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
-  if (x < GetMinimum() ||
-      x > GetMaximum()) // impossible event -> zero probability event
+  if (x < GetMinimum() || x > GetMaximum() ||
+      (IsDiscrete() &&
+       x != std::floor(x))) // impossible event -> zero probability event
   {
     if constexpr (std::numeric_limits<Tv>::has_infinity) {
       return -std::numeric_limits<Tv>::infinity();
-- 
2.43.0


From d90cb6d97d9fc6290359d6606aed711c81ff6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 131/150] fix: distribution functions of discrete distributions
 between integers and at the ends of the support

---
 .../distributions/distributions_uni.cpp               | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 9df947e..b3237b3 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1043,6 +1043,9 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   if (std::isinf(x) && x < (Tv)0)
     return (Tv)0;
 
+  if (IsDiscrete())
+    x = std::floor(x); // it changes only at the integers
+
   if constexpr (type == DistributionType::kNormal) {
     return 0.5 * erfc((mParam1 - x) / (mParam2 * c_sqrt2));
   } else if constexpr (type == DistributionType::kLogNormal) {
@@ -1069,12 +1072,18 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
     return std::min((Tv)1,
                     (std::floor(x) - mParam1 + 1) / (mParam2 - mParam1 + 1));
   } else if constexpr (type == DistributionType::kPoisson) {
+    if (mParam1 == 0)
+      return (Tv)1;
     return (Tv)1 - Math_GammaP(x + 1, mParam1);
   } else if constexpr (type == DistributionType::kGeometric) {
     return (Tv)1 - std::pow(1 - mParam1, x + 1);
   } else if constexpr (type == DistributionType::kBernoulli) {
-    return x == (Tv)0 ? (Tv)0 : x == 1 ? 1 : 1 - mParam1;
+    return x == (Tv)0 ? 1 - mParam1 : (Tv)1;
   } else if constexpr (type == DistributionType::kBinomial) {
+    if (x >= mParam2 || mParam1 == 0)
+      return (Tv)1;
+    if (mParam1 == 1)
+      return (Tv)0;
     // using kF
     auto d1 = (Tv)2 * (mParam2 - x);
     auto d2 = (Tv)2 * (x + 1);
-- 
2.43.0


From 03de258a3461e75e744e3e84ef5d254d84c47dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:06 +0000
Subject: [PATCH 132/150] fix: densities and their logarithms at the ends of
 the support

---
 .../distributions/distributions_uni.cpp       | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index b3237b3..a05cab4 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -197,6 +197,9 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   }
 }
 
+// a * log(b), where zero times anything is zero
+static Tv XLogY(Tv a, Tv b) { return a == 0 ? (Tv)0 : a * std::log(b); }
+
 Tv Sign(Tv a) {
   if (a > 0)
     return (Tv)1;
@@ -870,7 +873,7 @@ void Distribution<type>::GetPmfSupport(Tv *x, Tv *Value, bool log, Ti length,
 }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
-  if (x < GetMinimum() || x > GetMaximum() ||
+  if (x < GetMinimum() || x > GetMaximum() || std::isinf(x) ||
       (IsDiscrete() &&
        x != std::floor(x))) // impossible event -> zero probability event
     return (Tv)0;
@@ -879,6 +882,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     auto n = (x - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kLogNormal) {
+    if (x == 0)
+      return (Tv)0;
     auto n = (std::log(x) - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
@@ -897,6 +902,10 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kExponential) {
     return mParam1 * std::exp(-mParam1 * x);
   } else if constexpr (type == DistributionType::kF) {
+    if (x == 0) // the limit
+      return mParam1 > 2    ? (Tv)0
+             : mParam1 == 2 ? (Tv)1
+                            : std::numeric_limits<Tv>::infinity();
     return std::sqrt(std::pow(mParam1 * x, mParam1) *
                      std::pow(mParam2, mParam2) /
                      std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
@@ -915,7 +924,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return x >= mParam1 && x <= mParam2 ? 1 / (mParam2 - mParam1 + 1) : 0;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::exp(-mParam1 + (x * std::log(mParam1)) -
+    return std::exp(-mParam1 + XLogY(x, mParam1) -
                     std::lgamma(x + 1)); // or exp(pdf_ln)
   } else if constexpr (type == DistributionType::kGeometric) {
     return std::pow(1 - mParam1, x) * mParam1;
@@ -936,7 +945,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
 }
 
 template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
-  if (x < GetMinimum() || x > GetMaximum() ||
+  if (x < GetMinimum() || x > GetMaximum() || std::isinf(x) ||
       (IsDiscrete() &&
        x != std::floor(x))) // impossible event -> zero probability event
   {
@@ -953,6 +962,8 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     auto n = (x - mParam1) / mParam2;
     return ((Tv)-0.5 * n * n) - std::log(mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kLogNormal) {
+    if (x == 0)
+      return -std::numeric_limits<Tv>::infinity();
     auto a = (std::log(x) - mParam1) / mParam2;
     return (Tv)-0.5 * a * a - std::log(x * mParam2) - c_ln_sqrt2Pi;
   } else if constexpr (type == DistributionType::kT) {
@@ -961,28 +972,17 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
            std::lgamma(mParam1 / (Tv)2) - (Tv)0.5 * std::log(mParam1 * c_pi);
   } else if constexpr (type == DistributionType::kChi2) {
     auto dof2 = mParam1 / 2;
-    return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
+    return -x / (Tv)2 + XLogY(dof2 - 1, x) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
-    if (x == 0) {
-      if constexpr (std::numeric_limits<Tv>::has_infinity) {
-        return -std::numeric_limits<Tv>::infinity();
-      } else if constexpr (true) {
-        throw LdtException(
-            ErrorType::kLogic, "distributions",
-            "type requires infinity but it is missing"); // kT must have
-                                                         // infinity
-      }
-    }
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
-    return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
+    return (-mParam1 * std::log(mParam2)) + XLogY(mParam1 - 1, x) -
            (x / mParam2) - std::lgamma(mParam1);
   } else if constexpr (type == DistributionType::kBeta) {
     auto d = std::lgamma(mParam1 + mParam2) - std::lgamma(mParam1) -
              std::lgamma(mParam2);
-    return d + (mParam1 - (Tv)1) * std::log(x) +
-           (mParam2 - 1) * std::log(1 - x);
+    return d + XLogY(mParam1 - (Tv)1, x) + XLogY(mParam2 - 1, 1 - x);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if (x >= mParam1 && x <= mParam2)
       return -std::log(mParam2 - mParam1 + (Tv)1);
@@ -997,9 +997,9 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
       }
     }
   } else if constexpr (type == DistributionType::kPoisson) {
-    return -mParam1 + (x * std::log(mParam1)) - std::lgamma(x + (Tv)1);
+    return -mParam1 + XLogY(x, mParam1) - std::lgamma(x + (Tv)1);
   } else if constexpr (type == DistributionType::kGeometric) {
-    return x * std::log(1 - mParam1) + std::log(mParam1);
+    return XLogY(x, 1 - mParam1) + std::log(mParam1);
   } else if constexpr (type == DistributionType::kBernoulli) {
     if (x == 0) {
       return std::log(1 - mParam1);
@@ -1026,7 +1026,7 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     } // TODO: a logarithm version of binomial_coefficient ?!
     return std::log(Math_BinomialCoefficient<Tv>((unsigned int)mParam2,
                                                  (unsigned int)x)) +
-           (x * std::log(mParam1)) + ((mParam2 - x) * std::log(1 - mParam1));
+           XLogY(x, mParam1) + XLogY(mParam2 - x, 1 - mParam1);
   } else if constexpr (true) {
     return std::log(GetPdfOrPmf(x));
   }
-- 
2.43.0


From 40984830353b9082516d87aced4217c99d130cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:06 +0000
Subject: [PATCH 133/150] fix: densities of t, chi-squared, F, gamma and beta
 were NaN or zero for large parameters

---
 .../distributions/distributions_uni.cpp       | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index a05cab4..fbda53b 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -887,15 +887,11 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
     auto n = (std::log(x) - mParam1) / mParam2;
     return std::exp(-0.5 * n * n) / (x * c_sqrt_2Pi * mParam2);
   } else if constexpr (type == DistributionType::kT) {
-    auto g = (mParam1 + 1) / (Tv)2;
-    return std::tgamma(g) * std::pow(1 + x * x / mParam1, -g) /
-           (std::tgamma(mParam1 / 2) * std::sqrt(mParam1 * c_pi));
+    return std::exp(GetPdfOrPmfLog(x)); // gamma function overflows
   } else if constexpr (type == DistributionType::kChi2) {
     if (std::isinf(mParam1))
       return (Tv)0;
-    auto dof2 = mParam1 / (Tv)2;
-    return std::exp(-x / 2) * std::pow(x, dof2 - 1) /
-           (std::pow(2, dof2) * std::tgamma(dof2));
+    return std::exp(GetPdfOrPmfLog(x)); // gamma function overflows
   } else if constexpr (type == DistributionType::kUniformCon) {
     auto n = (mParam2 - mParam1);
     return (Tv)1 / n;
@@ -906,17 +902,15 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmf(Tv x) {
       return mParam1 > 2    ? (Tv)0
              : mParam1 == 2 ? (Tv)1
                             : std::numeric_limits<Tv>::infinity();
-    return std::sqrt(std::pow(mParam1 * x, mParam1) *
-                     std::pow(mParam2, mParam2) /
-                     std::pow((mParam1 * x) + mParam2, mParam1 + mParam2)) /
-           (x * Math_Beta(mParam1 / 2, mParam2 / 2));
+    auto u = mParam1 / (Tv)2;
+    auto v = mParam2 / (Tv)2;
+    auto r = mParam1 * x / mParam2; // in logarithms, because powers overflow
+    return std::exp(u * std::log(r) - (u + v) * std::log1p(r) - std::log(x) +
+                    std::lgamma(u + v) - std::lgamma(u) - std::lgamma(v));
   } else if constexpr (type == DistributionType::kGamma) {
-    return std::pow(mParam2, -mParam1) * std::pow(x, mParam1 - 1) *
-           std::exp(-x / mParam2) / std::tgamma(mParam1);
+    return std::exp(GetPdfOrPmfLog(x)); // gamma function overflows
   } else if constexpr (type == DistributionType::kBeta) {
-    auto d = std::tgamma(mParam1 + mParam2) /
-             (std::tgamma(mParam1) * std::tgamma(mParam2));
-    return d * std::pow(x, mParam1 - 1) * std::pow(1 - x, mParam2 - 1);
+    return std::exp(GetPdfOrPmfLog(x)); // gamma function overflows
   } else if constexpr (type == DistributionType::kGldFkml) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From be9769d3a6914879408882b0330cf183f9babf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:06 +0000
Subject: [PATCH 134/150] fix: samples of F ignored its second parameter, and
 single draws of GLD were uniform

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index fbda53b..c9c320e 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1312,7 +1312,7 @@ void Distribution<type>::GetSample(Tv *storage, Ti length, unsigned int seed) {
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     for (i = 0; i < length; i++)
       storage[i] = Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
@@ -1385,7 +1385,7 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     std::exponential_distribution<Tv> Dst(mParam1);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kF) {
-    std::fisher_f_distribution<Tv> Dst(mParam1);
+    std::fisher_f_distribution<Tv> Dst(mParam1, mParam2);
     return Dst(eng);
   } else if constexpr (type == DistributionType::kGamma) {
     std::gamma_distribution<Tv> Dst(mParam1, mParam2);
@@ -1397,7 +1397,8 @@ Tv Distribution<type>::GetSample1(std::mt19937 &eng) {
     // return Dst(eng);
   } else if constexpr (type == DistributionType::kGldFkml) {
     std::uniform_real_distribution<Tv> Dst(0, 1); // generate p
-    return Dst(eng);
+    return DistributionGld::GetQuantile(Dst(eng), mParam1, mParam2, mParam3,
+                                        mParam4);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From 444cc3664be47c3ab58d056bcf33281ca357fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 135/150] fix: quantiles of discrete distributions that are not
 the inverse of the distribution function, or not found

---
 .../distributions/distributions_uni.cpp       | 38 +++++++------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index c9c320e..c38195a 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1139,38 +1139,28 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
   } else if constexpr (type == DistributionType::kGldFkml) {
     return DistributionGld::GetQuantile(p, mParam1, mParam2, mParam3, mParam4);
   } else if constexpr (type == DistributionType::kUniformDis) {
-    Tv d = mParam1 + p * (mParam2 - mParam1);
-    return std::floor(d);
+    // the smallest value whose distribution function is not less than p
+    return mParam1 + std::ceil(p * (mParam2 - mParam1 + 1)) - (Tv)1;
   } else if constexpr (type == DistributionType::kPoisson ||
                        type == DistributionType::kGeometric ||
                        type == DistributionType::kBernoulli ||
                        type == DistributionType::kBinomial) {
 
-    //
-    auto tryN = 100;
+    // start from the approximation of the normal distribution
     auto m = GetMean();
-    auto sd = GetVariance();
-    auto norm = Distribution<DistributionType::kNormal>(m, sd);
-    auto q = std::min(GetMaximum(),
-                      std::max(GetMinimum(), std::floor(norm.GetQuantile(p))));
-
-    auto c0 = GetCdf(q);
-    if (c0 > p) {
-      // decrease value of q until cdf is smaller
-      for (int i = 0; i < tryN; i++) {
+    auto sd = GetSandardDeviation();
+    if (std::isfinite(m) && std::isfinite(sd)) {
+      auto norm = Distribution<DistributionType::kNormal>(m, sd);
+      auto q =
+          std::min(GetMaximum(),
+                   std::max(GetMinimum(), std::floor(norm.GetQuantile(p))));
+
+      // the smallest value whose distribution function is not less than p
+      while (q > GetMinimum() && GetCdf(q - 1) >= p)
         q--;
-        c0 = GetCdf(q);
-        if (c0 < p)
-          return (q + 1);
-      }
-    } else { // cdf < p
-      // increase value of q until cdf is larger than p
-      for (int i = 0; i < tryN; i++) {
+      while (q < GetMaximum() && GetCdf(q) < p)
         q++;
-        c0 = GetCdf(q);
-        if (c0 >= p)
-          return q;
-      }
+      return q;
     }
 
     // return NaN
-- 
2.43.0


From 240faa6955cc4ab5554e1ea05f256fa1c06d14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 136/150] fix: medians and modes outside the support, and the
 mode of the beta distribution

---
 .../distributions/distributions_uni.cpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index c38195a..67ec5f0 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -682,8 +682,8 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return (mParam1 + mParam2) / (Tv)2;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::floor(mParam1 + (Tv)1 / 3 -
-                      ((Tv)0.02 / mParam1)); // see wikipedia
+    return std::max((Tv)0, std::floor(mParam1 + (Tv)1 / 3 -
+                                      ((Tv)0.02 / mParam1))); // see wikipedia
   } else if constexpr (type == DistributionType::kGeometric) {
     if (mParam1 == 0) {
       if constexpr (std::numeric_limits<Tv>::has_infinity) {
@@ -695,7 +695,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
                                                          // infinity
       }
     } else if (mParam1 == (Tv)1) {
-      return 1;
+      return 0;
     } else {
       return std::ceil(-c_ln2 / std::log(1 - mParam1)) - (Tv)1;
     }
@@ -751,12 +751,12 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
   } else if constexpr (type == DistributionType::kBeta) {
     if (mParam1 == (Tv)1 && mParam2 == (Tv)1)
       return 0.5; // any value in (0,1))
-    if (mParam1 <= (Tv)1 && mParam2 > (Tv)0)
+    if (mParam1 <= (Tv)1 && mParam2 >= (Tv)1)
       return 0;
-    if (mParam1 > (Tv)1 && mParam2 <= (Tv)0)
+    if (mParam1 >= (Tv)1 && mParam2 <= (Tv)1)
       return (Tv)1;
-    if (mParam1 < 1 && mParam2 < 0)
-      return (Tv)1; // or 0
+    if (mParam1 < 1 && mParam2 < 1)
+      return 0; // or 1
     return (mParam1 - 1) / (mParam1 + mParam2 - (Tv)2);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
@@ -774,7 +774,7 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
            : mParam1 > 0.5   ? (Tv)1
                              : (Tv)0; // for 0.5, 1 is also mode
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor((mParam2 + 1) * mParam1);
+    return std::min(mParam2, std::floor((mParam2 + 1) * mParam1));
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From 6696012b0ee9b091e61e5427c0975a1019c5c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:47 +0000
Subject: [PATCH 137/150] fix: support of mixtures of discrete distributions on
 negative values

---
 src/ldt_statistics/distributions/mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/mixture.cpp b/src/ldt_statistics/distributions/mixture.cpp
index 007df17..e9c4d71 100644
--- a/src/ldt_statistics/distributions/mixture.cpp
+++ b/src/ldt_statistics/distributions/mixture.cpp
@@ -259,7 +259,7 @@ Ti DistributionMixture::GetPmfSupportSize(Tv &min, Tv &max) {
   // for (Ti i = 0; i < pDistributions->size(); i++)
   //	pDistributions->at(i)->GetPmfSupportIncrement();
   Tv min0 = std::numeric_limits<Tv>::max();
-  Tv max0 = std::numeric_limits<Tv>::min();
+  Tv max0 = std::numeric_limits<Tv>::lowest();
   Ti siz = (Ti)pDistributions->size();
   for (Ti i = 0; i < siz; i++) {
     min0 = std::fmin(min0, pDistributions->at(i)->GetMinimum());
-- 
2.43.0


From 11634a74223a7e09dba420e84d15155e24bdcc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:47 +0000
Subject: [PATCH 138/150] fix: counts of a histogram at the edges of its bins

---
 .../distributions/histogram.cpp               | 35 ++++++-------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 3c62f94..85c1ab1 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -23,33 +23,18 @@ void fill(Matrix<Tv> *sorteddata, Matrix<Tv> *axis, Matrix<Ti> *storageCount) {
 
   for (i = 0; i < m; i++) {
     d = sorteddata->Data[i];
-    if (i == m - 1) { // the last one
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d <= a) { //  <= for the last one
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
+    added = false;
+    for (p = j; p < n; p++) {
+      a = axis->Data[p];
+      if (d < a || (p == n - 1 && d == a)) { // the last bin has its upper edge
+        storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
+        j = p; // don't check others
+        added = true;
+        break;
       }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
-    } else {
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d < a) {
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
-      }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
     }
+    if (added == false)
+      storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
   }
 }
 
-- 
2.43.0


From e7b55b01f62334021ad8b898f5af80903891d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:20 +0000
Subject: [PATCH 139/150] fix: a histogram with one bin counted the data
 outside its limits

---
 src/ldt_statistics/distributions/histogram.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 85c1ab1..964ec2d 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -109,9 +109,7 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
   if (bincount == 1) {
     storageAxis->Data[0] = min;
     storageAxis->Data[1] = max;
-    storageCount->Data[0] = 0;
-    storageCount->Data[1] = L;
-    storageCount->Data[2] = 0;
+    fill(data, storageAxis, storageCount);
   } else {
 
     if (std::isnan(step)) {
-- 
2.43.0


From e733745c0ae9f35cade2a017d7622a5c851341b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:20 +0000
Subject: [PATCH 140/150] fix: number of bins of a histogram could be zero or
 not finite

---
 src/ldt_statistics/distributions/histogram.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 964ec2d..ec30624 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -90,13 +90,14 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
       if (std::isnan(step)) {
         if (bincount == 0)
           bincount = static_cast<Ti>(
-              ((max - min) < DBL_EPSILON)
+              ((max - min) < DBL_EPSILON || iqr == 0)
                   ? 1
-                  : (std::pow(L, 1.0 / 3.0) * (max - min) /
-                     (2.0 * iqr))); // I use the relative min,max not the
+                  : std::max(1.0, std::pow(L, 1.0 / 3.0) * (max - min) /
+                                      (2.0 * iqr))); // I use the relative min,max not the
                                     // absolute ones
       } else                        // get bincount from given 'step'
-        bincount = static_cast<Ti>(std::ceil((max - min) / step));
+        bincount =
+            std::max((Ti)1, static_cast<Ti>(std::ceil((max - min) / step)));
     }
     if (min == max) { // generally, 1 element case. If min and max are given and
                       // equal, we throw exception
-- 
2.43.0


From d6987fb266567b9b78ea1dbb653ed4042f291de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:20 +0000
Subject: [PATCH 141/150] fix: refuse a limit of a histogram that is on the
 wrong side of the other one

---
 src/ldt_statistics/distributions/histogram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index ec30624..c2d216e 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -87,6 +87,10 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
         throw LdtException(ErrorType::kLogic, "histogram",
                            "data is 'NAN' or contains 'NaN'"); // nan found
 
+      if (max < min)
+        throw LdtException(ErrorType::kLogic, "histogram",
+                           "invalid min/max for histogram");
+
       if (std::isnan(step)) {
         if (bincount == 0)
           bincount = static_cast<Ti>(
-- 
2.43.0


From 0fda23af8d599c1441b3f2020b03660edc492eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:51 +0000
Subject: [PATCH 142/150] fix: distribution function of empirical103 decreased
 in the tails

---
 src/ldt_statistics/distributions/empirical103.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 4298391..d78b322 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -25,10 +25,10 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
   // deal with tails
   if (x <= Quantiles[0]) { // calculate last change and use it
     shift =
-        (x - Quantiles[0]) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
+        (Quantiles[0] - x) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
     y = 0.0001;
   } else if (x >= Quantiles[102]) {
-    shift = (x - Quantiles[102]) * (0.9999 - 0.999) /
+    shift = (Quantiles[102] - x) * (0.9999 - 0.999) /
             (Quantiles[102] - Quantiles[101]);
     y = 0.9999;
   }
@@ -61,7 +61,7 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
     shift = (d - x) * h / (Quantiles[i] - Quantiles[i - 1]);
   }
   Tv res = y - shift;
-  return res;
+  return std::min((Tv)1, std::max((Tv)0, res));
 }
 
 Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
-- 
2.43.0


From 5fb7e134f4c0c46e608ab6af16a4cac926c52b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:51 +0000
Subject: [PATCH 143/150] fix: quantiles of empirical103 near 0.29, 0.57 and
 0.58 were of the previous percent

---
 src/ldt_statistics/distributions/empirical103.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index d78b322..f81d047 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -103,8 +103,9 @@ Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
       d = 0.99;
       h = 0.999 - 0.99;
     } else {                         // e.g. p=0.244   =>    0.24<p<0.25
-      d = std::floor(p * 100) / 100; // floor
-      i = (Ti)(d * 100) + 1;
+      i = (Ti)std::floor(p * 100); // floor
+      d = i / 100.0;
+      i++;
       h = 0.01;
     }
     shift = (p - d) * (Quantiles[i + 1] - Quantiles[i]) / h;
-- 
2.43.0


From ddb3373b6218856e06bcaf5fd7190efd5416d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:51 +0000
Subject: [PATCH 144/150] fix: combining empirical103 distributions that are
 far from each other

---
 .../distributions/empirical103.cpp            | 61 +++++++++----------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index f81d047..ffbc572 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -132,42 +132,37 @@ void DistributionEmpirical103::Combine(
     return;
   }
 
-  // we find an x which minimizes the distance between prob and weighted
-  // average of the quantiles
-  Tv prob = NAN;
-  std::function<Tv(const Tv &)> objective = [&weight, &prob, &dists,
-                                             &weights](const Tv &x) -> Tv {
+  // the weighted average of the distribution functions at x
+  auto average = [&weight, &dists, &weights](Tv x) -> Tv {
     Tv wa = 0;
-    if (!weights)
-      for (Ti j = 0; j < (Ti)dists.size(); j++)
-        wa += weight * dists.at(j).GetCDFApprox(x);
-    else
-      for (Ti j = 0; j < (Ti)dists.size(); j++)
-        wa += weights[j] * dists.at(j).GetCDFApprox(x);
-    return std::abs(wa - prob);
+    for (Ti j = 0; j < (Ti)dists.size(); j++)
+      wa += (weights ? weights[j] : weight) * dists.at(j).GetCDFApprox(x);
+    return wa;
   };
 
-  // x cannot be less than start
-  Tv start;
-
   for (Ti i = 0; i < 103; i++) {
-    prob = i == 0     ? 0.0001
-           : i == 1   ? 0.001
-           : i == 101 ? 0.999
-           : i == 102 ? 0.9999
-                      : (i - 1) / 100.0;
-
-    if (i == 0) { // let start to be the minimum of all distributions
-      Tv mi = INFINITY;
-      for (Ti j = 0; j < (Ti)dists.size(); j++)
-        if (mi > dists.at(j).Quantiles[0])
-          mi = dists.at(j).Quantiles[0];
-      start = mi;
+    Tv prob = i == 0     ? 0.0001
+              : i == 1   ? 0.001
+              : i == 101 ? 0.999
+              : i == 102 ? 0.9999
+                         : (i - 1) / 100.0;
+
+    // it increases from at most 'prob' at the smallest quantile to at least
+    // 'prob' at the largest one
+    Tv low = INFINITY, high = -INFINITY;
+    for (Ti j = 0; j < (Ti)dists.size(); j++) {
+      low = std::min(low, dists.at(j).Quantiles[i]);
+      high = std::max(high, dists.at(j).Quantiles[i]);
     }
-    auto optim_x =
-        NelderMead::Minimize1(objective, start, 0.1, 500, 1e-8, start, NAN);
-    start = std::get<0>(optim_x);
-
-    result[i] = start;
+    for (Ti k = 0; k < 200; k++) {
+      Tv mid = low + (high - low) / 2;
+      if (mid <= low || mid >= high)
+        break;
+      if (average(mid) < prob)
+        low = mid;
+      else
+        high = mid;
+    }
+    result[i] = high;
   }
-}
\ No newline at end of file
+}
-- 
2.43.0


From c08abf4bb6b241b96ce82ba188978db58962e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:08 +0000
Subject: [PATCH 145/150] fix: printing an equation without significant or
 estimated coefficients

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 916ab00..3a97fce 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -303,7 +303,7 @@ print.ldt.estim <- function(x, ...) {
 
     ms <- max(ifelse(df[,4] < .001, 3,
                      ifelse(df[,4] < .01, 2,
-                            ifelse(df[,4] < .1, 1, 0))), na.rm = TRUE)
+                            ifelse(df[,4] < .1, 1, 0))), 1, na.rm = TRUE)
     stars <- logical(nrow(df))
     for (i in seq_len(nrow(df))){
       if (!is.null(x$estimations$isRestricted) && x$estimations$isRestricted[i,dep_var] == 1)
-- 
2.43.0


From db55785e8dd29b048217bd31b2ae850edd3e8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:08 +0000
Subject: [PATCH 146/150] fix: significant extreme bounds were never printed

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 3a97fce..865ce80 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -191,7 +191,7 @@ print.ldt.search <- function(x, ...) {
           }
 
           if (x$info$items$extremeMultiplier > 0){
-            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))]
+            extremeB <- values[which(sapply(values, function(y){startsWith(y$typeName, "extreme")}))][[1]]
             cat(indent, "Extreme bounds (significant):\n")
             sig <- extremeB$value[which(extremeB$value[,1]>0 | extremeB$value[,2]<0),,drop=FALSE]
             if (!is.null(sig)  && nrow(sig) > 0){
-- 
2.43.0


From 67511301c25d8998c181dd829ec30f2a16c77fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:08 +0000
Subject: [PATCH 147/150] fix: name of a single equation model

---
 Rpackage/R/sur.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/sur.R b/Rpackage/R/sur.R
index 01cdd42..04118c3 100644
--- a/Rpackage/R/sur.R
+++ b/Rpackage/R/sur.R
@@ -253,7 +253,7 @@ estim.sur.model.string <- function(obj){
   nms <- paste(colnames(y), collapse = ", ")
   if (ncol(y) == 1)
     paste0("Linear Model")
-  if (sum(obj$estimations$isRestricted) == 0)
+  else if (sum(obj$estimations$isRestricted) == 0)
       paste0("Unrestricted SUR: ", nms)
   else
     paste0("SUR: ", nms)
-- 
2.43.0


From 16cc20325842c99e91e2e4519abd934ace823f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:08 +0000
Subject: [PATCH 148/150] fix: printing a summary of a search with coefficients
 or predictions

---
 Rpackage/R/g.prints.R | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 865ce80..2415852 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -82,6 +82,25 @@ print.ldt.list <- function(x, ...) {
 }
 
 
+# mean and variance of a coefficient or prediction ("best item for ...") in
+# an item of a search, which might be replaced by the estimated model in a summary
+search.item.moments <- function(item, method) {
+  res <- item$value
+  if (!inherits(res, "ldt.estim"))
+    return(list(mean = res$mean, var = res$var))
+
+  name <- sub(".*'([^']*)'.*", "\\1", item$typeName)
+  if (method == "varma") {
+    row <- which(item$targetName == rownames(res$prediction$means))
+    col <- as.integer(substr(name, 8, nchar(name))) + res$prediction$startIndex - 1
+    return(list(mean = res$prediction$means[row, col], var = res$prediction$vars[row, col]))
+  }
+  row <- which(name == rownames(res$estimations$coefs))
+  col <- which(item$targetName == colnames(res$estimations$coefs))
+  list(mean = res$estimations$coefs[row, col], var = res$estimations$stds[row, col]^2)
+}
+
+
 #' Prints an \code{ldt.search} object
 #'
 #' Prints the main results in an \code{ldt.search} object.
@@ -182,9 +201,10 @@ print.ldt.search <- function(x, ...) {
           if (x$info$items$bestK){
             best_coefs <- values[which(sapply(values, function(y){y$info == 0 && startsWith(y$typeName, "best item for")}))]
             cat(indent, "Best significant coeffiecients [mean-1.95*std, mean, mean+1.95*std]:\n")
-            lst <- lapply(best_coefs, function(b)c(b$value$mean - 1.95 * sqrt(b$value$var),
-                                                   b$value$mean,
-                                                   b$value$mean + 1.95 * sqrt(b$value$var)))
+            lst <- lapply(best_coefs, function(b){
+              m <- search.item.moments(b, method)
+              c(m$mean - 1.95 * sqrt(m$var), m$mean, m$mean + 1.95 * sqrt(m$var))
+            })
             names(lst) <- sapply(best_coefs, function(b)strsplit(sub(".*'([^']*)'.*", "\\1", b$typeName), split = "'")[[1]])
             lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
             rec.print.list(lst, indent = c(indent, "  "))
-- 
2.43.0


From 0efe65834e0ae91f8cc052141ae64cfc59c0ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:40 +0000
Subject: [PATCH 149/150] fix: lines of a printed search after an unavailable
 cdf

---
 Rpackage/R/g.prints.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index 2415852..ce2d3e3 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -227,7 +227,7 @@ print.ldt.search <- function(x, ...) {
             cdfs <- values[which(sapply(values, function(y){ y$info == 0 && startsWith(y$typeName, "cdf")}))]
             cat(indent, "CDF (significant):\n")
             if (length(cdfs) == 0)
-              cat(c(indent, "  "), "CDF at 0 is not available.")
+              cat(c(indent, "  "), "CDF at 0 is not available.\n")
             else{
               cdfs <- cdfs[[1]]
               sig <- cdfs$value[which(cdfs$value[,1]<0.1 | cdfs$value[,1]>0.9),,drop=FALSE]
-- 
2.43.0


From 13be14317bdf0575e5fd1b56c51728da79320194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:04 +0000
Subject: [PATCH 150/150] fix: printing a search in which all models of a
 target failed

---
 Rpackage/R/g.prints.R | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Rpackage/R/g.prints.R b/Rpackage/R/g.prints.R
index ce2d3e3..c250403 100644
--- a/Rpackage/R/g.prints.R
+++ b/Rpackage/R/g.prints.R
@@ -166,9 +166,13 @@ print.ldt.search <- function(x, ...) {
         if (x$info$items$model){
           if (x$info$items$bestK > 0){
 
-            best <- values[which(sapply(values, function(y){y$typeName == "best model" && y$info == 0}))][[1]]
+            best <- values[which(sapply(values, function(y){y$typeName == "best model" && y$info == 0}))]
             cat(indent, "Best model:\n")
-            if (is_summary){
+            if (length(best) > 0)
+              best <- best[[1]]
+            if (length(best) == 0)
+              cat(c(indent, "  "), "(none)\n")
+            else if (is_summary){
               cat("\n+++++++++++++++ MODEL SUMMARY +++++++++++++++++\n")
               print(best$value)
               cat("\n+++++++++++++++      END      +++++++++++++++++\n")
@@ -206,7 +210,7 @@ print.ldt.search <- function(x, ...) {
               c(m$mean - 1.95 * sqrt(m$var), m$mean, m$mean + 1.95 * sqrt(m$var))
             })
             names(lst) <- sapply(best_coefs, function(b)strsplit(sub(".*'([^']*)'.*", "\\1", b$typeName), split = "'")[[1]])
-            lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
+            lst <- lst[which(vapply(lst, function(b)b[1]>0 || b[3]<0, TRUE))]
             rec.print.list(lst, indent = c(indent, "  "))
           }
 
@@ -248,7 +252,7 @@ print.ldt.search <- function(x, ...) {
                                                               mixture$value[i,1],
                                                               mixture$value[i,1] + 1.95 * sqrt(mixture$value[i,2])))
             names(lst) <- rownames(mixture$value)
-            lst <- lst[which(sapply(lst,function(b)b[1]>0 || b[3]<0))]
+            lst <- lst[which(vapply(lst, function(b)b[1]>0 || b[3]<0, TRUE))]
             rec.print.list(lst, indent = c(indent, "  "))
           }
 
-- 
2.43.0

