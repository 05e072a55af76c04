From dabc8b6070d53d7352f5e05f7212e60ce0bc1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:24 +0000
Subject: [PATCH 01/45] fix: keep a streamed minimum or maximum of zero instead
 of discarding it

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From 78246f52540bfbb25991fbcb2db3209498543bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:24 +0000
Subject: [PATCH 02/45] fix: merged constant data has the same biased kurtosis
 as unmerged constant data

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..97811a1 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1022,7 +1022,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         M2_2 = match_count2 * biased_variance2
         M2 = M2_1 + M2_2 + delta**2 * match_count1 * match_count2 / N
         if not M2:
-            return 0.0
+            return np.float64(-3.0)
 
         M3_1: np.float64 = biased_skewness1 * np.sqrt(M2_1**3) / np.sqrt(match_count1)
         M3_2: np.float64 = biased_skewness2 * np.sqrt(M2_2**3) / np.sqrt(match_count2)
-- 
2.43.0


From bad4c49db466e142bcc07c67e496c9fac0ce3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:17 +0000
Subject: [PATCH 03/45] fix: merging with an empty column keeps the other
 column's histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 97811a1..13de33b 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,15 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                populated = other2 if other2._has_histogram else other1
+                self.histogram_bin_method_names = list(
+                    populated.histogram_bin_method_names
+                )
+                self.histogram_methods = copy.deepcopy(populated.histogram_methods)
+                self._stored_histogram = copy.deepcopy(populated._stored_histogram)
+                self.quantiles = copy.deepcopy(populated.quantiles)
+                self.user_set_histogram_bin = populated.user_set_histogram_bin
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From 2fd8a6e538f81573c7058e0382ff672224517ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:17 +0000
Subject: [PATCH 04/45] fix: a column updated after a merge keeps its merged
 histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 13de33b..bda2d28 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1248,7 +1248,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         is_bin_non_zero = bin_counts[:-1] > 0
         bin_left_edge = bin_edges[:-2][is_bin_non_zero]
         hist_to_array = [
-            [left_edge] * count
+            [left_edge] * int(count)
             for left_edge, count in zip(bin_left_edge, bin_counts[:-1][is_bin_non_zero])
         ]
         if not hist_to_array:
@@ -1257,7 +1257,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         array_flatten: np.ndarray = np.concatenate(
             hist_to_array
             + [[bin_edges[-2]] * int(bin_counts[-1] / 2)]
-            + [[bin_edges[-1]] * (bin_counts[-1] - int(bin_counts[-1] / 2))]
+            + [[bin_edges[-1]] * (int(bin_counts[-1]) - int(bin_counts[-1] / 2))]
         )
 
         # If we know they are integers, we can limit the data to be as such
-- 
2.43.0


From 37663ce874aff2ef658750fdd31db3a7752d8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:17 +0000
Subject: [PATCH 05/45] fix: an interpolated median of zero is not dropped

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index bda2d28..6d063ec 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1587,7 +1587,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From 97cfa49b9c060b7b629a9a092b32fc288e1cc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:17 +0000
Subject: [PATCH 06/45] fix: streamed precision variance weighs the earlier
 samples by their own count

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..6cfd47f 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -379,7 +379,6 @@ class FloatColumn(
                 self._precision["max"], subset_precision["max"]
             )
             self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
@@ -389,6 +388,7 @@ class FloatColumn(
                 subset_precision["biased_var"],
                 subset_precision["mean"],
             )
+            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
-- 
2.43.0


From c9f0508799f1b8315d27256a230026b5c5c1db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:03 +0000
Subject: [PATCH 07/45] fix: a merged column with a user-set bin count can
 report its histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 6d063ec..d62f032 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -192,6 +192,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             self.histogram_methods[method] = {
                 "total_loss": np.float64(0.0),
                 "current_loss": np.float64(0.0),
+                "suggested_bin_count": ideal_count_of_bins,
                 "histogram": {"bin_counts": None, "bin_edges": None},
             }
 
-- 
2.43.0


From 4ee248b171b575e4b775bd089461255f00aad08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 08/45] fix: sample rows by position, keeping row order and
 duplicate index labels apart

The non-null samples of a column were collected as a set of index labels.
Iterating that set scrambles rows whose labels exceed the hash table size
(an ascending slice such as df.iloc[4000:4200] was reported as random), and
rows sharing an index label (pd.concat of two frames) collapsed, miscounting
nulls and losing values. Collect positions and take them in row order.
---
 dataprofiler/profilers/profile_builder.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..580a59a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -630,7 +630,7 @@ class StructuredColProfiler:
             matches = df_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_set.update(df_subset[~matches].index)
+            true_sample_set.update(np.asarray(chunked_sample_ids)[~matches].tolist())
 
             # Iterate over all the Nones
             for index, cell in df_subset[matches].items():
@@ -648,15 +648,11 @@ class StructuredColProfiler:
         if sample_ids is None:
             sample_ind_generator.close()
 
-        # If min_true_samples exists, sort
-        true_sample_list = (
-            sorted(true_sample_set)
-            if min_true_samples > 0 or sample_ids is None
-            else list(true_sample_set)
-        )
+        # Keep the true samples in row order
+        true_sample_list = sorted(true_sample_set)
 
         # Split out true values for later utilization
-        df_series = df_series.loc[true_sample_list]
+        df_series = df_series.iloc[true_sample_list]
         total_na = total_sample_size - len(true_sample_list)
 
         rng = rng_utils.get_random_number_generator()
@@ -1505,7 +1501,9 @@ class UnstructuredProfiler(BaseProfiler):
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            true_sample_list.update(
+                np.asarray(chunked_sample_ids)[~matches].tolist()
+            )
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1521,7 +1519,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From 0dcaa6b98ef7ca8339bc80b53dcad511742727f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:34 +0000
Subject: [PATCH 09/45] fix: give rows of a frame with repeated index labels
 distinct null-row identities

Null rows are tracked as sets of index labels, so null rows sharing a label
(pd.concat without ignore_index) were counted once in row_has_null_ratio and
row_is_null_ratio.
---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 580a59a..469006a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2806,6 +2806,10 @@ class StructuredProfiler(BaseProfiler):
         elif isinstance(data, list):
             data = pd.DataFrame(data, dtype=object)
 
+        # Null rows are identified by index label, hence labels must be unique
+        if not data.index.is_unique:
+            data = data.reset_index(drop=True)
+
         # Calculate schema of incoming data
         mapping_given = defaultdict(list)
         for col_idx in range(len(data.columns)):
-- 
2.43.0


From c220cab30f59dc0a777be43e43e606952a15a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 10/45] fix: keep the full range when a constant column in
 pieces merges into a descending one

A constant part made of several pieces stores its smallest value first and
its largest last, but the descending merge only compared first with first and
last with last, dropping part of the range. A later overlapping batch was
then judged descending where the mirrored ascending data is random.
---
 dataprofiler/profilers/order_column_profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/order_column_profile.py b/dataprofiler/profilers/order_column_profile.py
index 3082623..689f6cd 100644
--- a/dataprofiler/profilers/order_column_profile.py
+++ b/dataprofiler/profilers/order_column_profile.py
@@ -247,8 +247,9 @@ class OrderColumn(BaseColumnProfiler["OrderColumn"]):
             first_value = min(first_value1, first_value2)
             last_value = max(last_value1, last_value2)
         elif order == "descending":
-            first_value = max(first_value1, first_value2)
-            last_value = min(last_value1, last_value2)
+            # a constant part in several pieces stores its smallest value first
+            first_value = max(first_value1, first_value2, last_value1, last_value2)
+            last_value = min(first_value1, first_value2, last_value1, last_value2)
         elif order == "random" or order == "constant value":
             first_value = min(first_value1, first_value2, last_value1, last_value2)
             last_value = max(first_value1, first_value2, last_value1, last_value2)
-- 
2.43.0


From 3da4d4652a8a7e26c6801a824775a1f31344fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:18 +0000
Subject: [PATCH 11/45] fix: a merged count-min-sketch column can be updated,
 and incompatible sketches raise ValueError

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..2b958c6 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -131,6 +131,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                 other.sample_size,
                 cms_max_num_heavy_hitters,
             )
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
 
         elif not self.cms and not other.cms:
             # If both profiles have not met stop condition
@@ -562,12 +564,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms3.merge(cms1)
             cms3.merge(cms2)
         except ValueError as err:
-            raise err(
+            raise ValueError(
                 """Incompatible sketch configuration. When merging two sketches,
                 they must have the same number of buckets and hashes,
                 which are defined by cms_confidence and cms_relative_error options,
                 respectively."""
-            )
+            ) from err
 
         # re-collecting the estimates of non intersecting categories before
         # re-applying heavy-hitters to the aggregate profile.
-- 
2.43.0


From 1c768f8abe5367c1940d1ff8b2d91fdd65433e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:20 +0000
Subject: [PATCH 12/45] fix: a merged categorical column keeps the number of
 categories to report

---
 dataprofiler/profilers/categorical_column_profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 2b958c6..4f26173 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,9 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        if self._top_k_categories == other._top_k_categories:
+            merged_profile._top_k_categories = self._top_k_categories
+
         if self.cms and other.cms:
 
             assert isinstance(self._cms_max_num_heavy_hitters, int)
-- 
2.43.0


From db31f6a350f4748785e3681eb6407488a2609d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:12 +0000
Subject: [PATCH 13/45] fix: null ratio of a column covers all batches, not
 only the last

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 469006a..e4244ea 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,8 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        if self.sample_size:
+            self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From fe2fa2eb94a513f9be6ab41feba8de1623fe4ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 14/45] fix: batches with negative index labels are shifted
 clear of the earlier ones

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index e4244ea..b8248df 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -451,7 +451,7 @@ class StructuredColProfiler:
             )
 
             # Shift indices (min, max, and all indices in null types index
-            self._index_shift = cast(int, self._max_id) + 1
+            self._index_shift = cast(int, self._max_id) + 1 - min(base_min, 0)
             base_min = base_min + self._index_shift
             base_max = base_max + self._index_shift
 
-- 
2.43.0


From 123670b664dc9e21474a66ac90dd99fe5a52db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 15/45] fix: PSI of a numeric column compares both histograms
 on the same bins

---
 .../profilers/numerical_column_stats.py       | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index d62f032..e823469 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -706,10 +706,16 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             new_other_histogram["bin_edges"] = other_histogram["bin_edges"]
             new_other_histogram["bin_counts"] = other_histogram["bin_counts"]
 
-            len_self_bin_counts = len(self_histogram["bin_counts"])
+            # both histograms are compared bin by bin, hence either both are
+            # already on the same `num_psi_bins` bins or both are put on them
+            needs_same_bins = len(
+                self_histogram["bin_counts"]
+            ) != num_psi_bins or not np.array_equal(
+                other_histogram["bin_edges"], self_histogram["bin_edges"]
+            )
 
-            # re-calculate `self` histogram
-            if len_self_bin_counts != num_psi_bins:
+            if needs_same_bins:
+                # re-calculate `self` histogram
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=self_histogram["bin_counts"],
                     bin_edges=self_histogram["bin_edges"],
@@ -725,15 +731,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 new_self_histogram["bin_counts"] = histogram["bin_counts"]
                 new_self_histogram["bin_edges"] = histogram["bin_edges"]
 
-            # re-calculate `other_profile` histogram
-            histogram_edges_not_equal = False
-            all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
-            )
-            if not all_array_values_equal:
-                histogram_edges_not_equal = True
-
-            if histogram_edges_not_equal:
+                # re-calculate `other_profile` histogram
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=other_histogram["bin_counts"],
                     bin_edges=other_histogram["bin_edges"],
-- 
2.43.0


From 6543f9413038ed5b4d73550b0ea477478cc11a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 16/45] fix: diff of two undefined (NaN) statistics is
 unchanged

---
 dataprofiler/profilers/profiler_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..5716e03 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -443,7 +443,8 @@ def find_diff_of_numbers(stat1, stat2):
         pass
     elif stat1 is None or stat2 is None:
         return [stat1, stat2]
-    elif stat1 != stat2:
+    elif stat1 != stat2 and not (stat1 != stat1 and stat2 != stat2):
+        # not a number on both sides (undefined statistics) is no difference
         return stat1 - stat2
     return "unchanged"
 
-- 
2.43.0


From 4830f2b2ba96c593d16871c2cadd13f0da9e2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 17/45] fix: diff of lists notices different multiplicities

---
 dataprofiler/profilers/profiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index 5716e03..41ee740 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -489,7 +489,7 @@ def find_diff_of_lists_and_sets(
         pass
     elif stat1 is None or stat2 is None:
         return [stat1, stat2]
-    elif set(stat1) != set(stat2) or len(stat1) != len(stat2):
+    elif collections.Counter(stat1) != collections.Counter(stat2):
         temp_stat1 = list(copy.deepcopy(stat1))
         temp_stat2 = list(copy.deepcopy(stat2))
         shared = []
-- 
2.43.0


From c9fa0c22cab14a2d7f2d71062a31eda2b79be2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:29 +0000
Subject: [PATCH 18/45] fix: diff of a categorical column with one that has
 seen no values

---
 dataprofiler/profilers/categorical_column_profile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 4f26173..aba0a9f 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -323,9 +323,11 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
-                percent_self = self_cat_count[iter_key] / self.sample_size
-                percent_other = other_cat_count[iter_key] / other_profile.sample_size
-                if (percent_other != 0) and (percent_self != 0):
+                if self_cat_count[iter_key] != 0 and other_cat_count[iter_key] != 0:
+                    percent_self = self_cat_count[iter_key] / self.sample_size
+                    percent_other = (
+                        other_cat_count[iter_key] / other_profile.sample_size
+                    )
                     total_psi += (percent_other - percent_self) * math.log(
                         percent_other / percent_self
                     )
-- 
2.43.0


From d36dd482b20907d305c0d72cb26b436cfa625c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 19/45] fix: merging profiles with HyperLogLog row counts no
 longer changes the first profile

---
 dataprofiler/profilers/profile_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b8248df..72507da 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1804,8 +1804,10 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object = copy.deepcopy(
+                        self.hashed_row_object
+                    )
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From 4378f4643459cb31faf8931211ea57aa4b285477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 20/45] fix: a merged profile no longer shares its correlation
 and chi2 matrices with an operand

---
 dataprofiler/profilers/profile_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 72507da..da64f5c 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1825,7 +1825,9 @@ class StructuredProfiler(BaseProfiler):
 
         # merge correlation
         if self.options.correlation.is_enabled and other.options.correlation.is_enabled:
-            merged_profile.correlation_matrix = self._merge_correlation(other)
+            merged_profile.correlation_matrix = copy.deepcopy(
+                self._merge_correlation(other)
+            )
 
         # recompute chi2 if needed
         if (
@@ -1838,9 +1840,9 @@ class StructuredProfiler(BaseProfiler):
             n1 = self.total_samples - self.row_is_null_count
             n2 = other.total_samples - other.row_is_null_count
             if n1 == 0:
-                merged_profile.chi2_matrix = chi2_mat2
+                merged_profile.chi2_matrix = copy.deepcopy(chi2_mat2)
             elif n2 == 0:
-                merged_profile.chi2_matrix = chi2_mat1
+                merged_profile.chi2_matrix = copy.deepcopy(chi2_mat1)
             elif chi2_mat1 is None or chi2_mat2 is None:
                 merged_profile.chi2_matrix = None
             else:
-- 
2.43.0


From 3de1c4ca27ff62edb03770fa2f26e4bf821d753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 21/45] fix: merging null replication metrics of profiles with
 a datetime column

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index da64f5c..f4fe986 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2708,7 +2708,7 @@ class StructuredProfiler(BaseProfiler):
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
@@ -2716,7 +2716,7 @@ class StructuredProfiler(BaseProfiler):
         other_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in other._profile
             ]
-- 
2.43.0


From 92ae5f8b3af8096eae4117864d8be574a9e94a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 22/45] fix: null replication sums of an integer batch added to
 earlier float sums

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f4fe986..b8942c7 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2662,7 +2662,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From 3b9340b64e57a80ba5f222e3f0f809a14e1de585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 23/45] fix: computing correlations no longer drops columns
 from the null replication data

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b8942c7..edcdc1e 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2313,6 +2313,8 @@ class StructuredProfiler(BaseProfiler):
         :return: correlation matrix
         :rtype: pd.DataFrame
         """
+        # columns are dropped below, which must not affect the caller's data
+        clean_samples = dict(clean_samples)
         columns = self.options.correlation.columns
         column_ids = list(range(len(self._profile)))
         if columns is not None:
-- 
2.43.0


From 16c7c20ba571a9083c52736376acbdbda6a62b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 24/45] fix: merging correlation matrices when some columns are
 not numeric

---
 dataprofiler/profilers/profile_builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index edcdc1e..69d103d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2413,30 +2413,34 @@ class StructuredProfiler(BaseProfiler):
         mean1 = np.array(
             [
                 self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
                 if idx in col_ids1
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
         std1 = np.array(
             [
                 self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
                 if idx in col_ids1
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
 
         mean2 = np.array(
             [
                 other._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
                 if idx in col_ids2
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
         std2 = np.array(
             [
                 other._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
                 if idx in col_ids2
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
         return self._merge_correlation_helper(
-- 
2.43.0


From 38d37691191c2ecc1d2bac4b87fae02c7ff6444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 25/45] fix: a compact report no longer extends the caller's
 omit_keys

---
 dataprofiler/profilers/helpers/report_helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..df65c6d 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -116,8 +116,7 @@ def _prepare_report(
     """
     if output_format is not None:
         output_format = output_format.lower()
-    if omit_keys is None:
-        omit_keys = []
+    omit_keys = [] if omit_keys is None else list(omit_keys)
 
     fmt_report: dict = {}
     max_str_len = 50
-- 
2.43.0


From 71a39379a37312125ba041b3dca6e63a87d4ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 26/45] fix: a pickled profile keeps its correlation matrix,
 null replication metrics and sampling ratio

---
 dataprofiler/profilers/profile_builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 69d103d..8fc6072 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1608,6 +1608,8 @@ class UnstructuredProfiler(BaseProfiler):
                 "file_type": self.file_type,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
+                "_min_sample_size": self._min_sample_size,
                 "_empty_line_count": self._empty_line_count,
                 "memory_size": self.memory_size,
                 "options": self.options,
@@ -3072,8 +3074,12 @@ class StructuredProfiler(BaseProfiler):
                 "hashed_row_object": self.hashed_row_object,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
+                "_min_sample_size": self._min_sample_size,
                 "options": self.options,
                 "chi2_matrix": self.chi2_matrix,
+                "correlation_matrix": self.correlation_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From 5566c32e99382441c8f66e51b6ac65cd8f085ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 27/45] fix: saving a profile with integer column names as JSON

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 8fc6072..f6c5077 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2830,6 +2830,9 @@ class StructuredProfiler(BaseProfiler):
             # Pandas columns are int by default, but need to fuzzy match strs
             if isinstance(col, str):
                 col = col.lower()
+            elif isinstance(col, np.integer):
+                # a plain int, such that the schema can be written as JSON
+                col = int(col)
             mapping_given[col].append(col_idx)
 
         # Validate schema compatibility and index mapping from data to _profile
-- 
2.43.0


From dd49b30c4d0a74d12b9fb51fe55a4d09d02282a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 28/45] fix: a profile loaded from JSON keeps column names that
 look like numbers

---
 dataprofiler/profilers/profile_builder.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f6c5077..d328a92 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2133,13 +2133,12 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
-
+        # JSON turns every key into a string, the column profiles know the names
+        col_name_to_idx = defaultdict(list)
+        for key, idxs in data["_col_name_to_idx"].items():
+            name = data["_profile"][idxs[0]]["data"]["name"]
+            col_name_to_idx[key if isinstance(name, str) else name] = idxs
+        data["_col_name_to_idx"] = col_name_to_idx
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
-- 
2.43.0


From 53ca1c51d5fa5bc28a6da1daf8cea61bb6dccbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 29/45] fix: null replication metrics loaded from JSON are
 found by column index

---
 dataprofiler/profilers/profile_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d328a92..c72e5da 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2143,6 +2143,11 @@ class StructuredProfiler(BaseProfiler):
             int(k): v for k, v in data["hashed_row_object"].items()
         }
 
+        if data["_null_replication_metrics"] is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
+
         structured_profiler = super().load_from_dict(data, config)
 
         return structured_profiler
-- 
2.43.0


From 312f59b60b1d56bffa244686e4f9e6b515c08d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 30/45] fix: updating a profile with reordered columns hashes
 rows and replicates nulls by profile column

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c72e5da..a20635f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2843,6 +2843,10 @@ class StructuredProfiler(BaseProfiler):
         col_idx_to_prof_idx = self._get_and_validate_schema_mapping(
             mapping_given, self._col_name_to_idx
         )
+        if any(col_idx != idx for col_idx, idx in col_idx_to_prof_idx.items()):
+            # bring the columns in the order of the profile
+            data = data.iloc[:, sorted(col_idx_to_prof_idx, key=col_idx_to_prof_idx.get)]
+            col_idx_to_prof_idx = {idx: idx for idx in range(len(data.columns))}
 
         try:
             from tqdm import tqdm
-- 
2.43.0


From 2540d1d3e97990628009ed80a47431cc347c76c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:10 +0000
Subject: [PATCH 31/45] fix: merging the correlations and null replication
 metrics of profiles with reordered columns

---
 dataprofiler/profilers/profile_builder.py | 40 +++++++++++++++++++----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index a20635f..bf2d0cb 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1839,6 +1839,9 @@ class StructuredProfiler(BaseProfiler):
 
             chi2_mat1 = self.chi2_matrix
             chi2_mat2 = other.chi2_matrix
+            order = self._get_column_order(other)
+            if chi2_mat2 is not None and order != sorted(order):
+                chi2_mat2 = chi2_mat2[np.ix_(order, order)]
             n1 = self.total_samples - self.row_is_null_count
             n2 = other.total_samples - other.row_is_null_count
             if n1 == 0:
@@ -2387,6 +2390,20 @@ class StructuredProfiler(BaseProfiler):
             batch_properties["count"],
         )
 
+    def _get_column_order(self, other: StructuredProfiler) -> list[int]:
+        """
+        Get the index of each column of this profile in another profile.
+
+        :param other: profile with the same columns
+        :type other: StructuredProfiler
+        :return: column indices of the other profile
+        :rtype: list[int]
+        """
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        return [self_to_other_idx[idx] for idx in range(len(self._profile))]
+
     @profiler_utils.method_timeit(name="correlation")
     def _merge_correlation(self, other: StructuredProfiler) -> pd.DataFrame:
         """
@@ -2395,8 +2412,11 @@ class StructuredProfiler(BaseProfiler):
         :param other: the other profile that needs to be merged
         :return:
         """
+        order = self._get_column_order(other)
         corr_mat1 = self.correlation_matrix
         corr_mat2 = other.correlation_matrix
+        if corr_mat2 is not None and order != sorted(order):
+            corr_mat2 = corr_mat2[np.ix_(order, order)]
         n1 = self.total_samples - self.row_is_null_count
         n2 = other.total_samples - other.row_is_null_count
         if n1 == 0:
@@ -2435,7 +2455,7 @@ class StructuredProfiler(BaseProfiler):
 
         mean2 = np.array(
             [
-                other._profile[idx].profile["statistics"]["mean"]
+                other._profile[order[idx]].profile["statistics"]["mean"]
                 if idx in col_ids2
                 else np.nan
                 for idx in range(len(self._profile))
@@ -2443,7 +2463,7 @@ class StructuredProfiler(BaseProfiler):
         )
         std2 = np.array(
             [
-                other._profile[idx].profile["statistics"]["stddev"]
+                other._profile[order[idx]].profile["statistics"]["stddev"]
                 if idx in col_ids2
                 else np.nan
                 for idx in range(len(self._profile))
@@ -2710,6 +2730,8 @@ class StructuredProfiler(BaseProfiler):
         :return: merged null replication metrics
         :rtype: dict
         """
+        order = self._get_column_order(other)
+
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
         ].selected_data_type
@@ -2730,14 +2752,15 @@ class StructuredProfiler(BaseProfiler):
                 get_data_type_profiler(profile).sum
                 if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
-                for profile in other._profile
+                for profile in [other._profile[idx] for idx in order]
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_col_id = order[col_id]
+            other_profile = other._profile[other_col_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2759,8 +2782,8 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                other._null_replication_metrics[other_col_id]["class_sum"][1]
+                if other_col_id in other._null_replication_metrics
                 else None
             )
             # Initialize zeros array of size (number of columns - 1)
@@ -2772,7 +2795,10 @@ class StructuredProfiler(BaseProfiler):
                 sum_null += np.asarray(self_sum_null)
 
             if other_sum_null is not None:
-                sum_null += np.asarray(other_sum_null)
+                # sums are listed without the column itself
+                sum_null += np.insert(
+                    np.asarray(other_sum_null, dtype=float), other_col_id, np.nan
+                )[np.delete(order, col_id)]
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From f353d8e03a034236acef5845122330946134baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:10 +0000
Subject: [PATCH 32/45] fix: unique row sketch of data with duplicate column
 names

---
 dataprofiler/profilers/profile_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index bf2d0cb..19869ae 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2248,6 +2248,10 @@ class StructuredProfiler(BaseProfiler):
                     )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
+                records = data
+                if not data.columns.is_unique:
+                    # records need unique keys, hence use the column positions
+                    records = data.set_axis(range(data.shape[1]), axis=1)
 
                 for batch_ind in range(len(data) // batch_size + 1):
                     start_ind = batch_ind * batch_size
@@ -2255,7 +2259,7 @@ class StructuredProfiler(BaseProfiler):
                         break
                     end_ind = (batch_ind + 1) * batch_size
                     for record in (
-                        data[start_ind : min(end_ind, len(data))]
+                        records[start_ind : min(end_ind, len(data))]
                         .to_json(orient="records", lines=True)
                         .splitlines()
                     ):
-- 
2.43.0


From 21d05225b11624529a113aa27a56009716f87bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:10 +0000
Subject: [PATCH 33/45] fix: updating the correlation with a batch in which a
 numeric column has no values

---
 dataprofiler/profilers/profile_builder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 19869ae..a71c20f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2366,7 +2366,8 @@ class StructuredProfiler(BaseProfiler):
 
         # then, fill in the correlations for valid columns
         rows = [[id] for id in clean_column_ids]
-        corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
+        if len(data):
+            corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
 
         return corr_mat
 
@@ -2382,6 +2383,9 @@ class StructuredProfiler(BaseProfiler):
         """
         batch_properties = self._get_correlation_dependent_properties(clean_samples)
         batch_corr = self._get_correlation(clean_samples, batch_properties)
+        if self.correlation_matrix is not None and not batch_properties["count"]:
+            # no values in the batch to correlate
+            return
 
         self.correlation_matrix = self._merge_correlation_helper(
             self.correlation_matrix,
@@ -2514,8 +2518,9 @@ class StructuredProfiler(BaseProfiler):
                         / (self.total_samples - self.row_is_null_count - 1)
                     )
                     dependent_properties["count"][id] = n
-                # Finding the properties of the batch data if given
-                elif id in batch.keys():
+                # Finding the properties of the batch data if given, a batch without
+                # values of the column is not part of its history
+                elif id in batch.keys() and len(batch[id]):
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
-- 
2.43.0


From 4a6529f1a07e04b5fb32ef73da975b44f7be6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:29 +0000
Subject: [PATCH 34/45] fix: updating a profile with column names that differ
 in case left it half updated

---
 dataprofiler/profilers/profile_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index a71c20f..7d64965 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2882,6 +2882,14 @@ class StructuredProfiler(BaseProfiler):
             # bring the columns in the order of the profile
             data = data.iloc[:, sorted(col_idx_to_prof_idx, key=col_idx_to_prof_idx.get)]
             col_idx_to_prof_idx = {idx: idx for idx in range(len(data.columns))}
+        if self._profile:
+            # columns are matched ignoring case, hence may differ in case
+            col_names = [
+                profile.name if isinstance(col, str) else col
+                for profile, col in zip(self._profile, data.columns)
+            ]
+            if col_names != list(data.columns):
+                data = data.set_axis(col_names, axis=1)
 
         try:
             from tqdm import tqdm
-- 
2.43.0


From 06558f394daedd726bfad2cf9e0fca86adb37f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:19 +0000
Subject: [PATCH 35/45] fix: index shift of an earlier batch applied to the
 rows of a batch that does not overlap

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7d64965..c930118 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -443,6 +443,7 @@ class StructuredColProfiler:
         base_nti = base_stats["null_types"]
 
         # Check if indices overlap, if they do, adjust attributes accordingly
+        self._index_shift = None
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
             warnings.warn(
                 f"Overlapping indices detected. To resolve, indices "
-- 
2.43.0


From d5021468847ba8eaa94c8279ed799f7626149cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:19 +0000
Subject: [PATCH 36/45] fix: null replication metrics of a batch with negative
 index labels

---
 dataprofiler/profilers/profile_builder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c930118..1c9f953 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2686,7 +2686,6 @@ class StructuredProfiler(BaseProfiler):
             # Keep only the null indices inside the chunk (reverse index shift)
             if profile._index_shift is not None:
                 null_indices = [index - profile._index_shift for index in null_indices]
-                null_indices = [index for index in null_indices if index >= 0]
 
             # Partition data based on whether target column value is null or not
             # Calculate sum, mean of each partition without including current column
-- 
2.43.0


From 8ea13530d2c47fdd5a224fe81d9009588672e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:20 +0000
Subject: [PATCH 37/45] fix: merging correlations with bias correction switched
 off

---
 dataprofiler/profilers/profile_builder.py | 39 ++++-------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1c9f953..32bb2ef 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2445,39 +2445,12 @@ class StructuredProfiler(BaseProfiler):
         if (col_ids1 != col_ids2).any():
             return None
 
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                if idx in col_ids1
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                if idx in col_ids1
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
-
-        mean2 = np.array(
-            [
-                other._profile[order[idx]].profile["statistics"]["mean"]
-                if idx in col_ids2
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[order[idx]].profile["statistics"]["stddev"]
-                if idx in col_ids2
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
+        # the statistics of the data whose correlations were computed: the reported
+        # standard deviation depends on the bias correction option
+        properties1 = self._get_correlation_dependent_properties()
+        properties2 = other._get_correlation_dependent_properties()
+        mean1, std1 = properties1["mean"], properties1["std"]
+        mean2, std2 = properties2["mean"][order], properties2["std"][order]
         return self._merge_correlation_helper(
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
-- 
2.43.0


From 351f8956b8256bb7c5504966066f19469b6a0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:56 +0000
Subject: [PATCH 38/45] fix: merged text profiles leave out the stop words of
 both sides

---
 dataprofiler/profilers/unstructured_text_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..98f7377 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,7 +503,7 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
+        if self._stop_words != other._stop_words:
             for w in list(merged_profile.word_count.keys()):
                 if w.lower() in merged_profile._stop_words:
                     merged_profile.word_count.pop(w)
-- 
2.43.0


From cfdb14b71b47751137d5222f946acb953cac38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:07 +0000
Subject: [PATCH 39/45] fix: merging case sensitive and insensitive text
 profiles loses words whose lower case keeps an upper case symbol

---
 dataprofiler/profilers/unstructured_text_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 98f7377..558996a 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -510,7 +510,7 @@ class TextProfiler:
 
         if self._is_case_sensitive != other._is_case_sensitive:
             for w, c in list(merged_profile.word_count.items()):
-                if not w.islower():
+                if w != w.lower():
                     merged_profile.word_count.pop(w)
                     merged_profile.word_count.update({w.lower(): c})
 
-- 
2.43.0


From f573c66def3c0440bc7cfd758a1b812175e560bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 40/45] fix: training labels lost when samples are flattened
 with an empty separator

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..86923e9 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -584,7 +584,7 @@ class CharPreprocessor(BaseDataPreprocessor, metaclass=AutoSubRegistrationMeta):
                             flattened_sample_len -= flatten_separator_len
                             if label_set is not None:
                                 flattened_entities = flattened_entities[
-                                    :-flatten_separator_len
+                                    : len(flattened_entities) - flatten_separator_len
                                 ]
                             force_sample = True
                         elif separate_ind == buffer_ind:
-- 
2.43.0


From 61cac4a7211071f75cf41a4f94aa5b471660b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 41/45] fix: merging a data labeler column that has not voted
 yet

---
 .../profilers/data_labeler_column_profile.py  | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..80489ef 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -181,15 +181,23 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
 
         # Combine rank distribution
         if self.sample_size or other.sample_size:
-            merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
-            }
-
-            # Combine Sum Predictions
-            merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+            # either side is None until its first vote
+            ranks = self._rank_distribution or {}
+            other_ranks = other._rank_distribution or {}
+            if ranks or other_ranks:
+                merged_profile._rank_distribution = {
+                    key: ranks.get(key, 0) + other_ranks.get(key, 0)
+                    for key in {**ranks, **other_ranks}
+                }
+
+            # Combine Sum Predictions, None on a side without samples
+            merged_profile._sum_predictions = np.sum(
+                [
+                    profile._sum_predictions
+                    for profile in (self, other)
+                    if profile._sum_predictions is not None
+                ],
+                axis=0,
             )
         return merged_profile
 
-- 
2.43.0


From c4c2efb6a646d1d8e6a35fd7ce2b2b5416aff805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:29 +0000
Subject: [PATCH 42/45] fix: reading a tab delimited file with a row of two
 empty cells

---
 dataprofiler/data_readers/csv_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..9b39520 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -595,7 +595,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
                     if len(line) > 0:
                         if (
                             line.count(self._delimiter) == 1
-                            and line.strip()[-1] == self._delimiter
+                            and line.strip()[-1:] == self._delimiter
                         ):
                             count_delimiter_last += 1
                         num_lines_read += 1
-- 
2.43.0


From 20aa5bef26a0db1df66e22434c74fa14b4cae050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:41 +0000
Subject: [PATCH 43/45] fix: JSON records after a blank line are lost when read
 from a string

---
 dataprofiler/data_readers/data_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..d52adc7 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -199,10 +199,10 @@ def read_json_df(
         try:
             raw_line = next(data_generator)
         except StopIteration:
-            raw_line = None
+            break
 
         if not raw_line:
-            break
+            continue
         try:
             obj = unicode_to_str(
                 json.loads(
@@ -255,10 +255,10 @@ def read_json(
         try:
             raw_line = next(data_generator)
         except StopIteration:
-            raw_line = None
+            break
 
         if not raw_line:
-            break
+            continue
         try:
             obj = unicode_to_str(
                 json.loads(
-- 
2.43.0


From 757adb32351163eee42cdd22a8cd05651f3b28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:16 +0000
Subject: [PATCH 44/45] fix: JSON lines are cut at line separators within their
 strings

---
 dataprofiler/data_readers/json_data.py    | 2 +-
 dataprofiler/data_readers/parquet_data.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 93e5d7e..092e451 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -249,7 +249,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         try:
             data = json.loads(data_as_str)
         except json.JSONDecodeError:
-            data_generator = data_utils.data_generator(data_as_str.splitlines())
+            data_generator = data_utils.data_generator(data_as_str.split("\n"))
             data = data_utils.read_json(
                 data_generator=data_generator,
                 selected_columns=self.selected_keys,
diff --git a/dataprofiler/data_readers/parquet_data.py b/dataprofiler/data_readers/parquet_data.py
index 4fa567b..a851155 100644
--- a/dataprofiler/data_readers/parquet_data.py
+++ b/dataprofiler/data_readers/parquet_data.py
@@ -96,7 +96,7 @@ class ParquetData(SpreadSheetDataMixin, BaseData):
 
     def _load_data_from_str(self, data_as_str: str) -> pd.DataFrame:
         """Return data from string."""
-        data_generator = data_utils.data_generator(data_as_str.splitlines())
+        data_generator = data_utils.data_generator(data_as_str.split("\n"))
         data, original_df_dtypes = data_utils.read_json_df(
             data_generator=data_generator, read_in_string=True
         )
-- 
2.43.0


From e88492dd69cfefe2c62a4495f9d95993e68fde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:26 +0000
Subject: [PATCH 45/45] fix: nested JSON lines are not flattened into columns

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index d52adc7..4280257 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -149,7 +149,7 @@ def json_to_dataframe(
             "Only JSON which represents structured data is supported for this "
             "data type (i.e. list-dicts)."
         )
-    elif first_item_type == dict:
+    elif issubclass(first_item_type, dict):
         df = pd.json_normalize(json_lines)
     else:
         df = pd.DataFrame(json_lines)
-- 
2.43.0

