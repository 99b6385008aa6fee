From 24c19650834f892eb1807d58fd8ecfc8e339596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 01/18] fix: apply the embargo when it reaches past the last
 sample

The embargo was skipped altogether when the last evaluation time of the test
block plus the embargo period was not before the last prediction time, so that
all the samples after the test block stayed in the train set.
---
 mizarlabs/model/model_selection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 021e20b..9181f95 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -290,12 +290,10 @@ def embargo(
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-    if min_train_index < cv.indices.shape[0]:
-        allowed_indices = np.concatenate(
-            (cv.indices[:test_fold_end], cv.indices[min_train_index:])
-        )
-        train_indices = np.intersect1d(train_indices, allowed_indices)
-    return train_indices
+    allowed_indices = np.concatenate(
+        (cv.indices[:test_fold_end], cv.indices[min_train_index:])
+    )
+    return np.intersect1d(train_indices, allowed_indices)
 
 
 def purge(
-- 
2.43.0


From 6cf26b19d9d892f6bf40b81927a283587ed138d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 02/18] fix: embargo only after the test samples before the
 block end

test_fold_end is a position in the dataset, not in the array of test indices.
Using it to slice the latter took into account the evaluation times of later
test blocks, dropping train samples between the blocks for no reason.
---
 mizarlabs/model/model_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 9181f95..66c66e0 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -286,7 +286,9 @@ def embargo(
             "The passed cross-validation object should have a "
             "member cv.embargo_td defining the embargo time."
         )
-    last_test_eval_time = cv.eval_times.iloc[test_indices[:test_fold_end]].max()
+    last_test_eval_time = cv.eval_times.iloc[
+        test_indices[test_indices < test_fold_end]
+    ].max()
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-- 
2.43.0


From 4518abfd86ce1e86073e26b20ddde5ac8d24f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 03/18] fix: compute the number of back-test paths from the
 number of groups

cv.n_splits is the number of combinations, not the number of groups, so that
more than one test group made the construction of the paths fail.
---
 mizarlabs/model/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 66c66e0..81461ad 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -434,7 +434,7 @@ def combinatorial_cross_validation_paths(
 
             bound_pred_dict[test_bound[0]].append(tmp_df)
 
-    n_paths = compute_back_test_paths(cv.n_splits, cv.n_test_splits)
+    n_paths = compute_back_test_paths(cv.n_groups, cv.n_test_splits)
     paths = []
 
     # from the sub test computed create paths randomly picking one sub test
-- 
2.43.0


From 1e8f9d23c2d48e4717e2bc686a83dfdfd92779a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 04/18] fix: do not select the t-value from uninitialised
 memory

With a step greater than one the t-values of the skipped windows were never
written, but the maximum was taken over them too.
---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index b7ede78..868e640 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -231,7 +231,7 @@ def _get_t_val_and_event_end_time_index_at_index(
     """
 
     # init array to stores t values in
-    t_values_array = np.empty(y_subset.shape[0] - min_sample_length)
+    t_values_array = np.zeros(y_subset.shape[0] - min_sample_length)
 
     # expand forward looking window, compute and store t value, keeping into account
     # the min_sample_length and the stepsize
-- 
2.43.0


From 03293eb6794fa049c441aaace62c94051b3d1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 05/18] fix: do not keep the first series' index as the events
 to label

A trend scanner without t_events stored the index of the first series it
transformed, and so failed on (or mislabelled) the following ones.
---
 .../transformers/targets/trend_scanning.py    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 868e640..f447079 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -71,15 +71,19 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
                 f"{set(input_series.index.values) - set(self.t_events)}"
             )
 
-    def _check_output(self, output_df: pd.DataFrame):
+    def _get_t_events(self, y: pd.Series) -> Union[np.ndarray, list]:
+        return y.index.values if self.t_events is None else self.t_events
+
+    def _check_output(self, y: pd.Series, output_df: pd.DataFrame):
         required_columns = [EVENT_END_TIME, T_VALUE, RETURN, LABEL]
 
         assert set(required_columns) == set(
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
-        assert set(self.t_events) == set(
+        t_events = self._get_t_events(y)
+        assert set(t_events) == set(
             output_df.index.values
-        ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+        ), f"Missing following time indices in output DataFrame: {set(t_events) - set(output_df.index.values)}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -97,7 +101,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         """
         self._check_input(y)
         df = self._transform(y)
-        self._check_output(df)
+        self._check_output(y, df)
         return df
 
     def _transform(self, y: pd.Series) -> pd.DataFrame:
@@ -117,13 +121,12 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        if self.t_events is None:
-            self.t_events = y.index.values
+        t_events = self._get_t_events(y)
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
             y_array=y.values.astype(np.float64),
-            indices=y.index.get_indexer(self.t_events),
+            indices=y.index.get_indexer(t_events),
             min_sample_length=self.min_sample_length,
             look_forward_window=self.look_forward_window,
             step=self.step,
@@ -137,7 +140,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         # cast results into dataframe and compute the returns and the sign of the return
         labels = pd.DataFrame(
             {EVENT_END_TIME: event_end_times_array, T_VALUE: t_values_array},
-            index=self.t_events,
+            index=t_events,
         )
         non_nan_labels = labels[EVENT_END_TIME].dropna()
         labels.loc[non_nan_labels.index, RETURN] = (
-- 
2.43.0


From 94783d2523421697cd1c561c827cbbc9c690a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 06/18] fix: do not add the strategy bar columns to the
 caller's dataframe

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 9fb5ed3..71de57a 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -797,7 +797,7 @@ class StrategyTrader:
 
         # target dataframe is extracted so that the volatility can be
         # calculated
-        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_]
+        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_].copy()
 
         volatility_adjusted_stop_loss = (
             self.volatility_adjusted_stop_loss
-- 
2.43.0


From baf718dc913c31ad2200386587623f180347f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 07/18] fix: consult the closing positions model

The attribute name checked was misspelled, so the model was never asked.
---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 71de57a..95b1116 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -681,7 +681,7 @@ class StrategySignalPipeline:
 
     def determine_positions_to_close(self, X_dict: Dict[str, pd.DataFrame]):
         positions_to_close = None
-        if hasattr(self, "closing_position_model") and self.closing_positions_model:
+        if hasattr(self, "closing_positions_model") and self.closing_positions_model:
             positions_to_close = self.closing_positions_model.close_positions(X_dict)
 
         if positions_to_close not in ("all", "long", "short", None):
-- 
2.43.0


From 82724b2f75b1232c056a5eee13cd7ae2be6fe226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 08/18] fix: penalise the SMT statistic with the window length

The documented statistic divides by (t - t0) ** phi, while the code divided by
t0 ** phi, i.e. penalised the short windows instead of the long ones.
---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index d4d965b..b95b9aa 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -124,7 +124,7 @@ def _get_sadf_at_t(
         if model[:2] == "sm":
             t = y.shape[0]
             t0 = start + 1  # t0 index starts from 1 to t - tau (page 260)
-            current_adf = np.abs(current_adf) / ((y.shape[0] - (t - t0)) ** phi)
+            current_adf = np.abs(current_adf) / ((t - t0) ** phi)
 
         adf_array[start] = current_adf
 
-- 
2.43.0


From a0e84153660f1949b1a0a06246fbca85f0c5a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 09/18] fix: accept float max_features without the removed
 np.float alias

---
 mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 01f08e7..3231ef8 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -375,7 +375,7 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
         # Validate max_features
         if isinstance(self.max_features, (numbers.Integral, np.integer)):
             max_features = self.max_features
-        elif isinstance(self.max_features, np.float):
+        elif isinstance(self.max_features, (float, np.floating)):
             max_features = self.max_features * self.n_features_
         else:
             raise ValueError("max_features must be int or float")
-- 
2.43.0


From c10195d0326464ecb15a8b94b5d7972b2d3d7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 10/18] fix: read the documented signature of recent TA-lib
 versions

Their documentation starts with the typed signature, from which no valid
argument and option names were read.
---
 mizarlabs/transformers/technical/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/technical/factory.py b/mizarlabs/transformers/technical/factory.py
index 6082354..ab47a1b 100644
--- a/mizarlabs/transformers/technical/factory.py
+++ b/mizarlabs/transformers/technical/factory.py
@@ -52,7 +52,9 @@ class TAFactory:
         :rtype: Tuple[List[str]]
         """
         ta_func = self.get_ta_func(func_name)
-        signature = re.search(r"\((.+)\)", ta_func.__doc__).group(1)
+        # recent TA-lib versions put the typed signature on the first line of
+        # the documentation, the last one is always the documented signature
+        signature = re.findall(rf"^{func_name}\((.+)\)$", ta_func.__doc__, re.M)[-1]
 
         args_kwargs_names = signature.split("[, ")
         if len(args_kwargs_names) == 1:
-- 
2.43.0


From 99fe93eb8f1c75ae7eb58b46401ec9ebb9d4063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 11/18] fix: count the splits and the paths exactly

The counts went through a float division, which is wrong (or overflows) for
large numbers of groups.
---
 mizarlabs/model/model_selection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 81461ad..16457b0 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -113,9 +113,8 @@ class CombPurgedKFoldCV(BaseTimeSeriesCrossValidator):
 
         self.n_groups = n_groups
 
-        n_splits = int(
-            math.factorial(n_groups)
-            / (math.factorial(n_test_splits) * math.factorial(n_groups - n_test_splits))
+        n_splits = math.factorial(n_groups) // (
+            math.factorial(n_test_splits) * math.factorial(n_groups - n_test_splits)
         )
 
         super().__init__(n_splits, pred_times, eval_times)
@@ -365,7 +364,7 @@ def compute_back_test_paths(n_splits: int, n_test_splits: int) -> int:
     for i in range(1, n_test_splits):
         den = den * (n_splits - i)
 
-    return int(den / math.factorial(n_test_splits - 1))
+    return den // math.factorial(n_test_splits - 1)
 
 
 # TODO: adapt to signal pipeline
-- 
2.43.0


From cf9f20bab16856352ade550c578b2bdf005453a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 12/18] fix: accept labels that all span all the bars

The indicator matrix then has no zero, e.g. with a single label.
---
 mizarlabs/model/bootstrapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/bootstrapping.py b/mizarlabs/model/bootstrapping.py
index 593a663..61b1a19 100644
--- a/mizarlabs/model/bootstrapping.py
+++ b/mizarlabs/model/bootstrapping.py
@@ -70,7 +70,7 @@ def get_ind_matrix(
 
     ind_mat_csc = ind_mat.tocsc()
     assert np.max(ind_mat_csc) == 1
-    assert np.min(ind_mat_csc) == 0
+    assert np.min(ind_mat_csc) >= 0
 
     if return_indices:
         return ind_mat, bar_index
-- 
2.43.0


From 58d08b088d2c7905a8f3dd5c8b7ea69547c0d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 13/18] fix: expose the sequentially bootstrapped samples as
 the estimators' samples

The inherited estimators_samples_ regenerated the samples of a plain bootstrap,
which are not the ones the estimators have been fitted on.
---
 .../model/sequentially_bootstrapped_bagging_classifier.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 3231ef8..64fb691 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -265,6 +265,11 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
             )
         return self._ind_mat
 
+    @property
+    def estimators_samples_(self):
+        """The subset of drawn samples for each base estimator."""
+        return self.sequentially_bootstrapped_samples_
+
     def fit(
         self,
         X: pd.DataFrame,
-- 
2.43.0


From fbe9bac318d7163882705653d165624525e2ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 14/18] fix: use the side column with the configured name

The side was only read from a column named "side", and any other configured
name made the labelling fail.
---
 mizarlabs/transformers/targets/labeling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 147878a..2abb148 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -167,10 +167,10 @@ class TripleBarrierMethodLabeling(BaseLabeling):
             else 1
         )
 
-        if SIDE not in y.columns:
-            barriers_info_df[self.side_column_name] = 1
+        if self.side_column_name not in y.columns:
+            barriers_info_df[SIDE] = 1
         else:
-            barriers_info_df[self.side_column_name] = y[self.side_column_name]
+            barriers_info_df[SIDE] = y[self.side_column_name]
 
         barriers_df = triple_barrier_labeling(
             close=y[self.close_column_name],
-- 
2.43.0


From 0f4b69e63ed1850c3d9ca541e9143db92b61e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 15/18] fix: accept a list of lags in the SADF test, as
 documented

---
 mizarlabs/structural_breaks/sadf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index b95b9aa..774ea6c 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -50,8 +50,9 @@ class SupremumAugmentedDickeyFullerStatTest:
         phi: float,
     ):
         assert 0 <= phi <= 1, f"Expected phi to be between 0 and 1, got {phi}."
+        max_lag = lags if isinstance(lags, int) else max(lags)
         assert (
-            min_length > lags
+            min_length > max_lag
         ), f"min_length {min_length} should be higher than lags {lags}."
         self.model = model
         self.lags = lags
-- 
2.43.0


From 79c70ef24b9e4f44d1803871f565248a03fd0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 16/18] fix: do not fail the VPIN on fewer bars than the window

---
 mizarlabs/transformers/microstructural_features/vpin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/microstructural_features/vpin.py b/mizarlabs/transformers/microstructural_features/vpin.py
index 2abf729..6228498 100644
--- a/mizarlabs/transformers/microstructural_features/vpin.py
+++ b/mizarlabs/transformers/microstructural_features/vpin.py
@@ -73,7 +73,9 @@ class VPIN(BaseEstimator, TransformerMixin):
 
         vpin_feature = diff_volume / total_volume_windowed_sum
 
-        vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
+        # nothing to fill when there are fewer bars than the window
+        if len(vpin_feature) > self.window:
+            vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
 
         assert (
             ~vpin_feature[self.window :].isna().any()
-- 
2.43.0


From 90da6b207b18816d1356edb6fd5dbd651a0a3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 17/18] fix: label a series without any meta-labelled event

---
 mizarlabs/transformers/targets/labeling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 2abb148..760fce4 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -415,6 +415,7 @@ def get_labels(
         # correct. When the base model does not take a position or the returns
         #  are 0 then the metalabel will be na
         output_df[RETURN] *= events_without_na[SIDE]
+        output_df[LABEL] = np.nan
         output_df.loc[output_df[RETURN] > 0, LABEL] = 1
         output_df.loc[output_df[RETURN] < 0, LABEL] = 0
         output_df.loc[output_df[RETURN] == 0, LABEL] = np.nan
-- 
2.43.0


From 78fbdb9addaaa65acc39ad7f42b605fe9a69b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 18/18] fix: average active bet sizes under the configured bet
 size column name

---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 415aa85..1f020d0 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -123,9 +123,9 @@ class BetSizingFromProbabilities(BetSizingBase):
             bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
 
         if self._average_active:
-            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(BET_SIZE).join(
-                X[[self._event_end_time_column_name]], how="left"
-            )
+            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
+                self._bet_size_column_name
+            ).join(X[[self._event_end_time_column_name]], how="left")
 
             bet_sizing_signal = avg_active_signals(
                 bet_sizing_signal_with_barrier,
-- 
2.43.0

