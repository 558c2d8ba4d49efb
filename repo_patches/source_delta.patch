From 4179682d8c55499a0a0e812af74e7d2f6c5b90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 01/84] fix: non-nested aggregation bins lose the most recent
 rows

---
 pyforecaster/formatter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..65773d8 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -783,9 +783,11 @@ class Transformer:
                                 reducer = Reducer(bins=self.agg_bins, agg_fun=agg_fun)
                                 indexer = pd.api.indexers.FixedForwardWindowIndexer(window_size=agg_steps)
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
-                                partial_res.append(np.vstack(reducer.stats).tolist())
+                                partial_res.append(np.array(reducer.stats).reshape(-1, len(self.agg_bins) - 1))
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
-                            d = d.shift(np.max(self.original_agg_bins)-1)
+                            # windows are labelled by their first sample: restore the full index before shifting,
+                            # otherwise the most recent rows are lost
+                            d = d.reindex(x.index).shift(np.max(self.original_agg_bins)-1)
                     else:
                         if self.nested:
                             trans_names = ['{}_{}_{}_{}'.format(name, p[1], self.original_agg_bins[p[0]],
-- 
2.43.0


From f47298d3b2e2350c2ebe5795573699c8ea09ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 02/84] fix: metadata of binned features follows the order of
 the feature columns

---
 pyforecaster/formatter.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 65773d8..58ae672 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -824,21 +824,17 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
-                metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
-                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                bins_idx = np.arange(len(self.agg_bins) - 1)
+                # same order as trans_names: lags first, then bins and functions
                 if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
+                    cols = [(l, i, f) for l, i, f in product(lag_steps, bins_idx, function_names)]
                 else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                    cols = [(l, i, f) for l, f, i in product(lag_steps, function_names, bins_idx)]
+                metadata_n = pd.DataFrame([(f, l) for l, i, f in cols], columns=['function', 'lag'], index=trans_names)
+                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for l, i, f in cols]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1] + l) + dt for l, i, f in cols]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From be38d91a23a6c81842e69fff8caae545febb473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 03/84] fix: normalize only the features and targets derived
 from the normalized signal

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 58ae672..7ea52c4 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -324,7 +324,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -337,7 +337,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From 06b65bd8c71b8d0b22622b2e70e0b139456bf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 04/84] fix: accept plain list and scalar lags for target
 normalizers

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 7ea52c4..9f5db88 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -146,7 +146,7 @@ class Formatter:
         assert len(target) == 1, 'only one target can be normalized per time. If you want to normalize two targets call this method twice'
         if lags is not None:
             assert len(lags) == 1, 'only one lag is admissible for the normalization.'
-            assert np.all(lags>0), 'you cannot normalize with future values, all lags should be positive'
+            assert np.all(np.array(lags)>0), 'you cannot normalize with future values, all lags should be positive'
 
         transformer = Transformer(target, functions=function, agg_freq=agg_freq, lags=lags, logger=self.logger,
                                   relative_lags=relative_lags, agg_bins=agg_bins, dt=self.dt, name=name)
-- 
2.43.0


From 3fb628429d068fafe544eab4202407aa25847118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 05/84] fix: do not overwrite the caller's quantiles when
 denormalizing

---
 pyforecaster/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 9f5db88..66e1d66 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -312,6 +312,8 @@ class Formatter:
         if return_target:
             if isinstance(y.columns, pd.MultiIndex):
                 # we are normalizing a Multiindex Dataframe containing quantiles, indicated in level=1
+                # work on a copy: the caller's quantiles must not be overwritten
+                y = y.copy()
                 for tau in y.columns.get_level_values(1).unique():
                     y_tau = y.loc[:, (slice(None), tau)]
                     y_tau = y_tau.droplevel(1, 1)
-- 
2.43.0


From 34ace36431f2bb7f78febe86cc274317b653f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 06/84] fix: parallel mapping without ray processes every piece
 and keeps the labels in order

---
 pyforecaster/big_data_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..616b39a 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -83,17 +83,17 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         if axis==0:
             df_shape_0 = sum([x.shape[0] for x in dfs])
             df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
+            df_columns = dfs[0].columns
+            df_indexes = dfs[0].index.append([x.index for x in dfs[1:]])
         else:
             df_shape_0 = dfs[0].shape[0]
             df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
+            df_columns = dfs[0].columns.append([x.columns for x in dfs[1:]])
+            df_indexes = dfs[0].index
 
         df_shape = (df_shape_0, df_shape_1)
 
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
-
-        res = mapper(f, [df.values for df in [dfs[0]]])
+        res = mapper(f, [x.values for x in dfs])
         res = np.vstack(res) if axis == 0 else np.hstack(res)
 
         if res.shape == df_shape:
-- 
2.43.0


From ddb821c52f4531fbaf23569c415d397eb572d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 07/84] fix: memory reduction leaves categorical and other non
 numeric columns alone

---
 pyforecaster/big_data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 616b39a..ddf8ff5 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -127,7 +127,7 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
 
 def reduce_mem_usage_series(s):
     col_type = s.dtype
-    if col_type != object:
+    if pd.api.types.is_numeric_dtype(col_type):
         c_min = s.min()
         c_max = s.max()
         if str(col_type)[:3] == 'int':
-- 
2.43.0


From 3940e2418b87d1215ec6ed9f3531b85e7d7e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 08/84] fix: summary_score does not relabel the caller's
 forecasts

---
 pyforecaster/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..d7499dd 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -145,7 +145,7 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From af56f01741f230be9773e3ac902a8c8f90c47755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 09/84] fix: summary_scores bins only non-integer grouping
 columns

---
 pyforecaster/metrics.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index d7499dd..02cfad1 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -169,11 +169,10 @@ def summary_scores(x, t, metrics, idxs: pd.DataFrame, mask=None, n_quantiles=10)
     t = t if mask is None else t * mask[mask].values
 
     # quantize non-integer data
-    if np.any(~agg_indexes.dtypes.isin([np.dtype('int'), np.dtype('int32'), np.dtype('int8'), np.dtype('int64'), np.dtype('object')])):
-        qcuts = [pd.qcut(agg_indexes.loc[:, k], n_quantiles, duplicates='drop') for k in agg_indexes.columns if agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles]
-        if len(qcuts)>0:
-            replacement_idxs = [agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles for k in agg_indexes.columns]
-            agg_indexes.loc[:, replacement_idxs] = pd.concat(qcuts, axis=1)
+    no_cut = [np.dtype('int'), np.dtype('int32'), np.dtype('int8'), np.dtype('int64'), np.dtype('object')]
+    for k in agg_indexes.columns:
+        if agg_indexes[k].dtype not in no_cut and len(agg_indexes[k].value_counts()) >= n_quantiles:
+            agg_indexes[k] = pd.qcut(agg_indexes[k], n_quantiles, duplicates='drop')
 
     scores_df = {}
     for m in metrics:
-- 
2.43.0


From fbdf67b0fd11ab519e383e2b88df8da8b2358718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 10/84] fix: unconditional error quantiles are applied to every
 hour

---
 pyforecaster/forecaster.py                                | 8 ++++++--
 pyforecaster/forecasting_models/gradientboosters.py       | 2 +-
 pyforecaster/forecasting_models/neural_models/INN.py      | 2 +-
 pyforecaster/forecasting_models/neural_models/base_nn.py  | 2 +-
 .../forecasting_models/random_fourier_features.py         | 4 ++--
 5 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..357b7b1 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -208,6 +208,10 @@ class ScenarioGenerator(BaseEstimator):
             return err_distr
         return np.quantile(errs, self.q_vect, axis=0).T
 
+    def _err_distr_at_hour(self, h):
+        """Quantiles of the errors to be used at hour h, shape (n_steps, n_quantiles)."""
+        return self.err_distr[h] if isinstance(self.err_distr, dict) else self.err_distr
+
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         y = self.anti_transform(x, y)
         self.target_cols = y.columns
@@ -351,7 +355,7 @@ class LinearForecaster(ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
 
 
@@ -409,7 +413,7 @@ class LGBForecaster(ScenarioGenerator):
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..cdb5454 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -168,7 +168,7 @@ class LGBMHybrid(ScenarioGenerator):
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 375d32d..beab1f7 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -226,7 +226,7 @@ class CausalInvertibleNN(NN):
     def predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..6af783a 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -502,7 +502,7 @@ class NN(ScenarioGenerator):
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
             for h in np.unique(inputs.index.hour):
-                preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+                preds[inputs.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
 
     def get_normalized_inputs(self, inputs, target=None):
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..c01f41d 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -354,7 +354,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
 
 
@@ -395,5 +395,5 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at_hour(h), 0)
         return preds
\ No newline at end of file
-- 
2.43.0


From ca1cf696da250509c029a06403ce2af323d025e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 11/84] fix: LGBEnergyAware calibrates on the validation rows
 instead of training again on them

---
 pyforecaster/forecasting_models/gradientboosters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index cdb5454..342bd3c 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -195,7 +195,8 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        # the models are already trained: only the post-fit of the base class is needed
+        ScenarioGenerator.fit(self, x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
-- 
2.43.0


From af17db5bc554db5c0ab2afe275d29dfde770f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 12/84] fix: QRF predictions with a single target or a single
 joint step

---
 pyforecaster/forecasting_models/randomforests.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..3463e07 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -141,14 +141,14 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(preds.reshape(len(x), -1), index=x.index, columns=self.target_cols)
             else:
                 if len(preds.shape) == 2:
                     preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(preds.reshape(len(x), -1), index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
@@ -167,7 +167,8 @@ class QRF(ScenarioGenerator):
         if len(preds.shape) == 1:
             preds = np.expand_dims(preds, 1)
         if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
+            # (n, n_quantiles) if there is one target only, (n, n_targets) otherwise
+            preds = np.expand_dims(preds, 2 if self.n_multistep == 1 else 1)
         else:
             preds = np.swapaxes(preds, 1, 2)
         return preds
-- 
2.43.0


From a5191487417be8191171e2540021d8a2f12098f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 13/84] fix: QRF quantile arrays hold the same numbers as
 quantile tables

---
 pyforecaster/forecasting_models/randomforests.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 3463e07..0ca3517 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -184,14 +184,6 @@ class QRF(ScenarioGenerator):
                                                         period=period, keep_last_n_lags=keep_last_n_lags, keep_last_seconds=keep_last_seconds,
                                                         tol_period=tol_period)
 
-    @staticmethod
-    def quantiles_to_numpy(q_hat: pd.DataFrame):
-        n_taus = len(q_hat.columns.get_level_values(1).unique())
-        q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
-        return q_hat
-
     def predict_quantiles(self, x, dataframe=True, **kwargs):
         preds = self.predict(x, quantiles=list(kwargs['quantiles']) if 'quantiles' in kwargs else self.q_vect)
         if dataframe is False:
-- 
2.43.0


From 23d7c8a4f1c935e435067222fe05df72d724d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 14/84] fix: categorical encoding does not modify the caller's
 table

---
 pyforecaster/forecaster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 357b7b1..bf36b3e 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -29,8 +29,11 @@ def encode_categorical(func):
         if not hasattr(self, '_le'):
             self._le = {}
 
-        # Check if x contains columns that are not numbers and encode them
-        for column in x.select_dtypes(include=['object', 'category']).columns:
+        # Check if x contains columns that are not numbers and encode them, on a copy of the caller's table
+        categorical_columns = x.select_dtypes(include=['object', 'category']).columns
+        if len(categorical_columns) > 0:
+            x = x.copy()
+        for column in categorical_columns:
             if column not in self._le:
                 # Create and fit a new encoder for the column if it's the first encounter
                 le = LabelEncoder()
-- 
2.43.0


From 3ec020df57e984dc0f7afbc0f3597096629212d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 15/84] fix: refitting learns the categorical encoding from the
 new data

---
 pyforecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index bf36b3e..f5e1c50 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -25,8 +25,8 @@ def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
 
 def encode_categorical(func):
     def wrapper(self, x: pd.DataFrame, *args, **kwargs):
-        # Initialize a protected dictionary to store encoders if it doesn't exist yet
-        if not hasattr(self, '_le'):
+        # Initialize a protected dictionary to store encoders if it doesn't exist yet; a new fit learns its own encoders
+        if not hasattr(self, '_le') or func.__name__ == 'fit':
             self._le = {}
 
         # Check if x contains columns that are not numbers and encode them, on a copy of the caller's table
-- 
2.43.0


From 5e98ee45cfe3f245d7c9f3cee3c11ffb9b6323ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 16/84] fix: fitting again replaces the models of the previous
 fit

---
 pyforecaster/forecaster.py                                 | 1 +
 pyforecaster/forecasting_models/gradientboosters.py        | 2 ++
 pyforecaster/forecasting_models/random_fourier_features.py | 1 +
 pyforecaster/forecasting_models/randomforests.py           | 1 +
 4 files changed, 5 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index f5e1c50..e4ca6e2 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -397,6 +397,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 342bd3c..2601ba4 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -177,6 +178,7 @@ class LGBEnergyAware(LGBMHybrid):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         e_unbalance = pd.DataFrame()
+        self.models = []
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                             logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index c01f41d..c4c3f5f 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -93,6 +93,7 @@ class BrutalRegressor:
         self.target_cols = y.columns
         if plot:
             plt.figure()
+        self.best_pars = []
         err = y.copy().values
         for i in tqdm(range(self.n_iter)):
             rand_idx = np.random.choice(x.shape[0], int(self.bootstrap_fraction*x.shape[0]), replace=True)
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 0ca3517..e4d4578 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -105,6 +105,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From cb6a805c558abc26075571dde3b190b871ca66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 17/84] fix: random Fourier features are scaled with the
 training rows only

---
 pyforecaster/forecasting_models/random_fourier_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index c4c3f5f..da48957 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -340,8 +340,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         self.scaler = None
 
     def fit(self, x, y, **args):
-        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         RandomFFRegressor.fit(self, x, y, **args)
         ScenarioGenerator.fit(self, x_val, y_val)
@@ -373,8 +373,8 @@ class AdditiveRFFRegression(ScenarioGenerator):
 
     def fit(self, x, y, **args):
         """Boosting fit."""
-        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         err = y.copy()
         for m in self.models:
-- 
2.43.0


From 87552af77067b43527daf14c5def27862935662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 18/84] fix: copula sampling of a single scenario

---
 pyforecaster/copula.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 08d08de..791b720 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -90,12 +90,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 continue
             else:
                 mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=random_state)
-                # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
-                if np.sum(hour_filt) == 1:
-                    mvr_samples = np.expand_dims(mvr_samples, 0)
-                # if we're predicting only one target, mvr.rvs has lower dimensionality
-                if len(mvr_samples.shape) == 2:
-                    mvr_samples = np.expand_dims(mvr_samples, -1)
+                # mvr.rvs drops dimensions of length 1 (one observation, one scenario, one target)
+                mvr_samples = np.reshape(mvr_samples, (np.sum(hour_filt), n_scen, self.dim))
                 mvr_samples = np.swapaxes(mvr_samples, 1, 2)
                 copula_samples[hour_filt, :, :] = norm.cdf(mvr_samples)
         return copula_samples
-- 
2.43.0


From 2fb48ad77fe2d25b24d4c8bac92f904d24cd7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 19/84] fix: glasso_cv is tuned on the hour with most
 observations

---
 pyforecaster/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 791b720..d4515ac 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -39,7 +39,7 @@ class HourlyGaussianCopula(GaussianCopula):
         self.logger.info('estimating gaussian copula, conditional on day-hour')
         if self.cov_est_method == 'glasso_cv':
             # optimize alpha in CV on the hour with most observations only
-            hour_filt = y.index.hour == y.index.hour.value_counts().argmax()
+            hour_filt = y.index.hour == y.index.hour.value_counts().idxmax()
             x_h = y.loc[hour_filt, :]
             glcv = GraphicalLassoCV().fit(x_h)
             alpha_glasso = glcv.alpha_
-- 
2.43.0


From 65b2fa0ba69160e84e74ceeb8eee3e8d9c7107cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 20/84] fix: scenario reduction does not modify the caller's
 node counts

---
 pyforecaster/scenred.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 3e9f4b3..d68eb05 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -65,6 +65,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
 
     if nodes is None:
         nodes = default_nodes
+    nodes = np.array(nodes)  # the first element could be modified below
 
     # pars kwargs
     pars = {'nodes': nodes,
-- 
2.43.0


From 7be95d1d4ca15fd542e05820dc278a8ddcf2bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 21/84] fix: the number of tree steps is compared with the
 number of scenario steps

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..6060328 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -74,7 +74,7 @@ class ScenarioTree:
             nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
                 geometric_nodes
 
-        if len(nodes_at_step) == scens.shape[1]-1:
+        if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
             self.logger.info('seems like you have one step more in your scenarios than what specified in nodes_at_step'
                              'I assume you are passing an additional step to consider initial variance, I am adding an '
-- 
2.43.0


From 30b2e90bbcafac7349affb75131e36f5a0afce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 22/84] fix: tree builders do not modify the requested node
 counts

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 6060328..1fde031 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -81,7 +81,7 @@ class ScenarioTree:
                              'additional initial node to the tree')
 
         if nodes_at_step[0] != 1:
-            nodes_at_step[0] = 1
+            nodes_at_step = np.hstack([1, nodes_at_step[1:]])
             self.logger.info('your initial nodes_at_step was not 1, forcing it to be')
         if self.base_tree == 'scenred':
             _, _, _, _, tree = scenred(scens, nodes=nodes_at_step)
-- 
2.43.0


From 0e81025d3d22460a5401fb5d3a5ff3b9b84f25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 23/84] fix: quantile initialization of tree nodes uses the
 scenarios of the node's step

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 1fde031..9359218 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -48,7 +48,7 @@ class ScenarioTree:
                     children = list(tree.successors(j))
                     qs = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 1))
                     bins.update({c: [qs[i], qs[i+1]] for i, c in enumerate(children)})
-                    vals_j = np.quantile(scens[t, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
+                    vals_j = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
                     for c, v in zip(children, vals_j):
                         vals[c] = v
                         filters[c] = filters[j][(scens[t+1, filters[j]] > bins[c][0] - 1e-6) &
-- 
2.43.0


From 567a261a5180cf90c1cc5b86b94e4db5d0bc200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:38 +0000
Subject: [PATCH 24/84] fix: default node counts are computed only when none
 are requested

---
 pyforecaster/tree_builders.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 9359218..f9a34c1 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -65,14 +65,13 @@ class ScenarioTree:
         return tree, tree_scens, tree_vals
 
     def gen_init_tree(self, scens, nodes_at_step=None):
+        if nodes_at_step is None:
+            nodes_at_step = self.nodes_at_step
         if nodes_at_step is None:
             geometric_steps = np.array([2**t for t in range(int(np.log(scens.shape[1])/np.log(2)))][2:])
             geometric_progression = np.floor(np.logspace(-1, np.log(len(geometric_steps))/np.log(10), scens.shape[0])).astype(int)
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
-            geometric_nodes = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
-
-            nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
-                geometric_nodes
+            nodes_at_step = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
 
         if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
-- 
2.43.0


From 59e485c7def7490bc4df0ee33417ffa5c79be043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 25/84] fix: scenarios can be predicted when an additional
 initial node is requested

---
 pyforecaster/forecaster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index e4ca6e2..9dd3b7b 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -282,6 +282,7 @@ class ScenarioGenerator(BaseEstimator):
         quantiles = self.predict_quantiles(x, dataframe=False, **predict_q_kwargs)
         scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, random_state=random_state)
         q_from_scens = np.rollaxis(np.quantile(scenarios, self.q_vect, axis=-1), 0, 3)
+        q_from_scens = q_from_scens[:, -quantiles.shape[1]:, :]  # discard the additional initial node, if any
         mean_abs_dev = np.abs(q_from_scens - quantiles).mean(axis=0).mean(axis=0)
         self.logger.info('mean abs deviations of re-estimated quantiles from scenarios: {}'.format(mean_abs_dev))
         return scenarios
-- 
2.43.0


From 7d41b4d1b737b85a5cba8970b3d0273ac389c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 26/84] fix: quantile base trees have real node values, so that
 they can be optimized

---
 pyforecaster/tree_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index f9a34c1..744534a 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -87,7 +87,7 @@ class ScenarioTree:
         elif self.base_tree == 'quantiles':
             # build valueless tree
             tree = nx.DiGraph()
-            tree.add_node(0, t=0, p=1, v=np.atleast_1d(0))
+            tree.add_node(0, t=0, p=1, v=np.atleast_1d(0.))
             k = 1
             names_of_nodes_at_previous_step = [0]
             for t, n_t in enumerate(nodes_at_step):
@@ -100,7 +100,7 @@ class ScenarioTree:
                 for p in names_of_nodes_at_previous_step:
                     for c in range(child_per_par):
                         names_of_nodes_at_t.append(k)
-                        tree.add_node(k, t=t, p=1/n_t, v=np.atleast_1d(0))
+                        tree.add_node(k, t=t, p=1/n_t, v=np.atleast_1d(0.))
                         tree.add_edge(p, k)
                         k += 1
                 names_of_nodes_at_previous_step = np.copy(names_of_nodes_at_t)
-- 
2.43.0


From 922c24856eeff80fa97eff7780eee3288a33d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 27/84] fix: cross-validation folds given as positions select
 the same rows for scoring and storing as for training

---
 pyforecaster/trainer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 077b051..fde3cde 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -20,6 +20,12 @@ def get_score_key(cv_results, scoring, score_key=None):
     score_key = score_key if score_key is not None else fallback_name
     return score_key
 
+def _select_rows(df, idx):
+    # folds are masks or positions, as for scikit-learn; any other kind of index is a list of labels
+    idx = np.asarray(idx)
+    return df.iloc[idx] if idx.dtype.kind in 'biu' else df.loc[idx]
+
+
 def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=None, cv_type='full',
                    trial=None, storage_fun=None, score_key=None, **cv_kwargs):
     """
@@ -51,12 +57,12 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
             trial.set_user_attr('cv_test_scores', scores)
 
         if storage_fun:
-            cv_results['y_te'] = {'fold_{}'.format(i): y.loc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
-            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.loc[cv_idxs[1]]) for i, cv_idxs, m in
+            cv_results['y_te'] = {'fold_{}'.format(i): _select_rows(y, cv_idxs[1]) for i, cv_idxs in enumerate(cv_folds)}
+            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(_select_rows(x, cv_idxs[1])) for i, cv_idxs, m in
                                    zip(range(len(cv_folds)), cv_folds, cv_results['estimator'])}
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
-        x_tr, x_te, y_tr, y_te = x.loc[tr_idx], x.loc[te_idx], y.loc[tr_idx], y.loc[te_idx]
+        x_tr, x_te, y_tr, y_te = (_select_rows(d, i) for d in (x, y) for i in (tr_idx, te_idx))
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From 9712f3f90bcac57ea93543eb070d7ebeac5ee76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 28/84] fix: Holt-Winters states are not truncated when the
 target is an integer series

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..fbe95aa 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -320,6 +320,7 @@ class HoltWinters(ScenarioGenerator):
         gamma = [gamma_1, gamma_2]
         am1 = 0 if self.a is None or np.isnan(self.a) else self.a
         bm1 = 0 if self.b is None or np.isnan(self.b) else self.b
+        Y = np.atleast_1d(np.asanyarray(Y, dtype=float).ravel())
         s1_init = np.tile(Y[-1], self.periods[0]) if self.s1 is None or np.all(np.isnan(self.s1)) else self.s1
         s2_init = np.tile(Y[-1], self.periods[1]) if self.s2 is None or np.all(np.isnan(self.s2)) else self.s2
 
@@ -329,7 +330,6 @@ class HoltWinters(ScenarioGenerator):
         beta = np.asanyarray(beta, dtype=float)
         gamma = np.asanyarray(gamma, dtype=float)
 
-        Y = np.atleast_1d(np.asanyarray(Y, dtype=float).ravel())
         constraints = self.constraints if self.constraints is not None else [-np.inf, np.inf]
         constraints = np.array(constraints).ravel()
         y_hat,am1,bm1,s1mp,s2mp = run(horizon, period, alpha,
-- 
2.43.0


From 50f7281783f6024c9292354457024ed03c96b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 29/84] fix: a missing observation does not destroy the
 Holt-Winters states

---
 pyforecaster/forecasting_models/holtwinters.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index fbe95aa..7fdb8e1 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -350,14 +350,11 @@ def run(horizon, period, alpha, beta, gamma, s1mp, s2mp, am1, bm1, Y, y_tot, y_h
     s1mp_shift = 0*s1mp
     s2mp_shift = 0*s2mp
     for j in np.arange(len(Y)):
-        if np.isnan(Y[j]):
-            a = alpha * (y_tot[j,0] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (y_tot[j,0] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (y_tot[j,0] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
-        else:
-            a = alpha * (Y[j] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (Y[j] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (Y[j] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
+        # missing observations are replaced by their one step ahead forecast
+        y_j = am1 + bm1 + s1mp[0] + s2mp[0] if np.isnan(Y[j]) else Y[j]
+        a = alpha * (y_j - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
+        s1 = gamma[0] * (y_j - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
+        s2 = gamma[1] * (y_j - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
         s1 = constrainify(s1, constraints)
         s2 = constrainify(s2, constraints)
 
-- 
2.43.0


From 6dec18dc8687473e1bdb16397bbf748369ad02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 30/84] fix: HoltWintersMulti error quantiles of every step
 come from the submodel in charge of it

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 7fdb8e1..5956527 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -434,7 +434,7 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
-- 
2.43.0


From ac55e76f59b15211993840a2d93f96e73f2f0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 31/84] fix: fitting a Holt-Winters again starts from fresh
 states

---
 pyforecaster/forecasting_models/holtwinters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 5956527..cec5f9e 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -188,6 +188,8 @@ class HoltWinters(ScenarioGenerator):
         y = x_pd[self.target_name].values
         x = x_pd.values
 
+        # start from fresh states also if the model was already fitted
+        self.a, self.b, self.s1, self.s2 = None, None, None, None
         y_hat_hw, self.a, self.b, self.s1, self.s2 = self._run(y)
 
         hw_target = hankel(y[1:], self.n_sa)
-- 
2.43.0


From f9c2ef1f6bc5a67e474ce0c7b207e48ec3e09788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 32/84] fix: serial hyperparameter tuning of multi target
 models

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index cec5f9e..7f04a6a 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,7 +29,7 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}  # do not alter the arguments shared with the other samples
     model = model_class(**model_init_kwargs)
     if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
         subscores = []
-- 
2.43.0


From 8a3267f3704c545192e6f856f617d869ddd8d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 33/84] fix: HoltWintersMulti applies the constraints to its
 submodels

---
 pyforecaster/forecasting_models/holtwinters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 7f04a6a..b8295e9 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -411,6 +411,7 @@ class HoltWintersMulti(ScenarioGenerator):
         self.gammas_2 = np.ones(len(self.models_periods)) * 0.01 if gammas_2 is None else gammas_2
         self.optimize_hyperpars = optimize_hyperpars
         self.target_name = target_name
+        self.constraints = constraints
         self.models = None
         self.reinit_pars()
 
@@ -419,6 +420,7 @@ class HoltWintersMulti(ScenarioGenerator):
         for i, n in enumerate(self.models_periods):
             models.append(HoltWinters(periods=self.periods, q_vect=self.q_vect,
                              n_sa=n, target_name=self.target_name, optimization_budget=self.optimization_budget,
+                                      constraints=self.constraints,
                                       targets_names=self.targets_names, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
                                       alpha=self.alphas[i], gamma_1=self.gammas_1[i], gamma_2=self.gammas_2[i]))
 
-- 
2.43.0


From 388de16aa6539d741b920066bf6e78de229bbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 34/84] fix: stateful forecasters can be pickled and copied

---
 .../fast_adaptive_models.py                   | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..7049d2b 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -243,7 +243,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.__setstate__({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -253,12 +253,6 @@ class Fourier_es(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 
 #@njit
@@ -399,7 +393,7 @@ class FK(StatefulForecaster):
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
                                                                self.n_harmonics_int, w)
         if fit:
-            self.__setstate__({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         preds = preds + preds_updated
         self.coeffs_t_history = coeffs_t_history.T
@@ -412,12 +406,6 @@ class FK(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 class FK_multi(StatefulForecaster):
     """
@@ -571,17 +559,11 @@ class FK_multi(StatefulForecaster):
         if fit:
             # if we were fitting, store states. Do nothing if we're predicting
             # self.states = [self.models[j].__getstate__() for j in range(self.n_predictors)]
-            self.__setstate__({'Q':Q, 'R':R, 'P':P, 'x':x})
+            self.states.update({'Q':Q, 'R':R, 'P':P, 'x':x})
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
         return np.vstack(preds[1:])
 
     def _predict_quantiles(self, x, **kwargs):
         preds = self.predict(x)
-        return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
-
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
\ No newline at end of file
+        return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
\ No newline at end of file
-- 
2.43.0


From 9f36b4de19ddb0ac5e0697583e6e5d9b6f636923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 35/84] fix: Holt-Winters error quantiles are not lost when
 labelling the residuals

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index b8295e9..129fb7c 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -201,7 +201,7 @@ class HoltWinters(ScenarioGenerator):
         self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
         self.y_hat_tr = pd.DataFrame(y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output,
                                         index=x_pd.index[:-self.n_sa])
-        resid = hw_target - self.y_hat_tr
+        resid = hw_target - self.y_hat_tr.values
 
         self.y_tr = pd.DataFrame(hw_target, index=x_pd.index[:-self.n_sa])
 
-- 
2.43.0


From effb82433bf1cdf7e0439e6a1df902594a0ef8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 36/84] fix: HoltWintersMulti quantile tables have labels

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 129fb7c..6a7eb29 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -432,6 +432,7 @@ class HoltWintersMulti(ScenarioGenerator):
             self.set_params(**pars_opt)
             self.reinit_pars()
 
+        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
         err_distr = np.zeros((self.n_sa, len(self.q_vect)))
         k = 0
         for i,m in enumerate(self.models):
@@ -455,7 +456,7 @@ class HoltWintersMulti(ScenarioGenerator):
             selection = np.arange(k, y_hat_m.shape[1])
             y_hat[:, selection] = y_hat_m.iloc[:, selection]
             k = y_hat_m.shape[1]
-        return pd.DataFrame(y_hat, index=x.index, columns=['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)])
+        return pd.DataFrame(y_hat, index=x.index, columns=self.target_cols)
 
     def reinit(self, x):
         for i,m in enumerate(self.models):
-- 
2.43.0


From a25d14df9e19b06e0b41fe1c4aef954d6d892d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 37/84] fix: FK_multi labels quantiles as its point forecasts

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 7049d2b..6549b42 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -501,7 +501,7 @@ class FK_multi(StatefulForecaster):
         # hankelize the target
         hw_target = hankel(x_pd[self.target_name].values[1:], self.n_sa)
         resid = hw_target - preds
-        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
+        self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa + 1)]
         resid = pd.DataFrame(resid, index=x_pd.index[:-self.n_sa], columns=self.target_cols)
         self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
         return self
-- 
2.43.0


From 6dcf8718150871b2d0247b6a25a7c6c5b2b20142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 38/84] fix: Fourier Kalman forecasters do not fail when a
 coefficient does not vary

---
 .../forecasting_models/fast_adaptive_models.py   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 6549b42..85c9d9a 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -24,6 +24,16 @@ def get_basis(t, l, n_h, frequencies=None):
   P = np.vstack([np.ones(len(t))/np.sqrt(2), trigonometric]).T * np.sqrt(2 / l)
   return P
 
+def correlation(x):
+    """
+    Correlation matrix of the rows of x; rows that do not vary are uncorrelated with the others
+    """
+    with np.errstate(divide='ignore', invalid='ignore'):
+        c = np.nan_to_num(np.atleast_2d(np.corrcoef(x)))
+    np.fill_diagonal(c, 1)
+    return c
+
+
 def generate_recent_history(y, w, start, i):
     """
     :param y: target array during training / testing
@@ -286,7 +296,7 @@ def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m,
         coeffs_t_history[:, i] = coeffs
 
         if i % m == 0 and i >= m:
-            Q = np.corrcoef(coeffs_t_history[:, :i])
+            Q = correlation(coeffs_t_history[:, :i])
             R = Q * 0.01
             #P = np.eye(n_harmonics * 2 + 1) * 1000
 
@@ -552,8 +562,8 @@ class FK_multi(StatefulForecaster):
             if return_coeffs:
                 coeffs_t_history.append(coeffs_t)
             if i % self.m == 0 and i >= self.m:
-                Q = np.corrcoef(np.vstack(coeffs_t_history).T)
-                R = np.corrcoef(np.vstack(coeffs_t_history).T) * 10
+                Q = correlation(np.vstack(coeffs_t_history).T)
+                R = Q * 10
                 #P = np.eye(self.n_predictors) * 1000
 
         if fit:
-- 
2.43.0


From 5055339cdeb738185d5f52c297724557895e50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 39/84] fix: statsmodels forecasts use the observation of their
 own row and start from the next step

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index b03e188..afd149d 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -8,13 +8,14 @@ from pyforecaster.forecasting_models.holtwinters import hankel
 def get_forecasts(model, y_te, x_te, n_step_ahead=24):
   y_hat = np.zeros((len(y_te), n_step_ahead))
   for i in tqdm(range(len(y_te))):
-    y_hat[i,:] = model.forecast(n_step_ahead)
     exog = x_te.iloc[[i]].values if x_te is not None else None
     try:
         model = model.append(y_te.iloc[[i]], exog=exog) # this method UPDATES the model with the last observation
     except:
         print('Error in updating the model')
         model = model.apply(y_te.iloc[[i]], exog=exog)  # this method UPDATES the model with the last observation
+    # the forecast of a row starts from the step after its observation
+    y_hat[i,:] = model.forecast(n_step_ahead)
   return pd.DataFrame(y_hat, index=y_te.index)
 
 
-- 
2.43.0


From 132e9ae21aae504928fabc4955a2c1948279e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 40/84] fix: seasonal persistence repeats the value one season
 before the forecasted step

---
 pyforecaster/forecasting_models/benchmarks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index f411510..193bd35 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -51,8 +51,10 @@ class SeasonalPersistent(ScenarioGenerator):
 
     def predict(self, x: pd.DataFrame, **kwargs):
         values = np.hstack([self.state.ravel(), x[self.target_col].values])
-        y_hat = hankel(values, self.n_sa)
-        return pd.DataFrame(y_hat[:len(x), :], index=x.index)
+        # the k-th step ahead of row i is repeated from one season before it, or from the last season seen at row i
+        steps = 1 + np.arange(self.n_sa) % self.seasonality
+        y_hat = values[np.arange(len(x)).reshape(-1, 1) + steps]
+        return pd.DataFrame(y_hat, index=x.index)
 
     def _predict_quantiles(self, x: pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-- 
2.43.0


From 9e6367d816626274f0922836f7fd5a4baa4631d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 41/84] fix: seasonal persistence starts from the last season
 of all the data it was given

---
 pyforecaster/forecasting_models/benchmarks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index 193bd35..3816e26 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -43,10 +43,13 @@ class SeasonalPersistent(ScenarioGenerator):
         self.state = None
 
     def fit(self, x: pd.DataFrame, y: pd.DataFrame = None):
+        last_season = x[[self.target_col]].iloc[-self.seasonality:].values
         x, y, x_val, y_val = self.train_val_split(x, x[[self.target_col]])
         hw_target = hankel(y_val.iloc[1:].values, self.n_sa)
         self.state = x[[self.target_col]].iloc[-self.seasonality:].values
         super().fit(x_val.iloc[:-self.n_sa, :], pd.DataFrame(hw_target, index=x_val.index[:hw_target.shape[0]]))
+        # what will be predicted follows the validation data
+        self.state = last_season
         return self
 
     def predict(self, x: pd.DataFrame, **kwargs):
-- 
2.43.0


From 05999e6887ff1e35ae5046618fad3f7487b9f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 42/84] fix: empirical distribution forecasts keep the index
 and work for a single row

---
 pyforecaster/forecasting_models/benchmarks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index 3816e26..ef24226 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -80,11 +80,13 @@ class DiscreteDistr(ScenarioGenerator):
         self.target_names = None
         self.y_distributions = None
         self.support = None
+        self.sampling_time = None
 
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         self.n_sa = y.shape[1]
         # infer sampling time
         sampling_time = x.index.drop_duplicates().diff().median()
+        self.sampling_time = sampling_time
 
         # retrieve support of target distribution
         support = np.unique(y.values)
@@ -117,10 +119,8 @@ class DiscreteDistr(ScenarioGenerator):
         return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum().T
 
     def predict_probabilities(self, x, **kwargs):
-        # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(sampling_time).time)
+        time_of_day = pd.Series(x.index.floor(self.sampling_time).time, index=x.index)
 
         # retrieve the distribution for the time of day
         y_hat = {}
-- 
2.43.0


From 3faf23719aa4a2f9beb36db1482d280f30542fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 43/84] fix: FK_multi weighs its experts equally when all of
 them are exact

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 85c9d9a..dde37e5 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -543,7 +543,7 @@ class FK_multi(StatefulForecaster):
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
                 norm_avg_err = [np.mean([np.abs(preds_experts[i-sa, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
-                norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
+                norm_avg_err = np.array(norm_avg_err) / np.maximum(np.mean(norm_avg_err), np.finfo(float).tiny)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
                 coeffs_t = x
-- 
2.43.0


From 1088b6b24d5e3e17825a27f7d81ae2ea595a8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 44/84] fix: bayes reconciliation works

---
 pyforecaster/reconciliation/reconciliation.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index a6b2eb9..7433c3e 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -294,10 +294,7 @@ class HierarchicalReconciliation:
 
         elif self.method == 'bayes':
             cov_b, precision_b = self.estimate_covariance(err_b.values, method=cov_method)
-            if err_u.shape[1] < 2:
-                cov_u = np.std(err_u)
-            else:
-                cov_u, precision_u = self.estimate_covariance(err_u.values, method=cov_method)
+            cov_u, precision_u = self.estimate_covariance(err_u.values, method=cov_method)
             self.g_matrix = cov_b @ self.a_matrix.T @ np.linalg.inv(cov_u + self.a_matrix @ cov_b @ self.a_matrix.T)
             # get posterior covariance of bottoms
             cov_b_post = cov_b - self.g_matrix.dot(cov_u + self.a_matrix.dot(cov_b.dot(self.a_matrix.T))).dot(self.g_matrix.T)
@@ -313,8 +310,8 @@ class HierarchicalReconciliation:
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series]
             y_u = y_hat.loc[:, self.aggregated_series]
-            y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
-            y_rec = self.s_matrix @ y_b_rec
+            y_b_rec = y_b.values.T + self.g_matrix @ (y_u.values.T - (self.a_matrix @ y_b.values.T))
+            y_rec = pd.DataFrame(self.s_matrix @ y_b_rec, columns=y_hat.index)
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         y_rec = y_rec.T
-- 
2.43.0


From 9bb8b0b2deb1e41a34097bdd5affcd5454a94039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 45/84] fix: reconciled forecasts are labelled with their own
 series whatever the order of the input

---
 pyforecaster/reconciliation/reconciliation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 7433c3e..1b49d88 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -315,8 +315,9 @@ class HierarchicalReconciliation:
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         y_rec = y_rec.T
-        y_rec.columns = y_hat.columns
-        return y_rec
+        # rows of the summation matrix are ordered as ordered_cols
+        y_rec.columns = self.ordered_cols
+        return y_rec[y_hat.columns]
 
     def get_summation_matrix(self, y, hierarchy):
         self.bottom_series = [c for c in y.columns if c not in hierarchy.keys()]
@@ -326,7 +327,7 @@ class HierarchicalReconciliation:
         self.n_u = n_all - self.n_b
         I = np.eye(self.n_b)
         self.s_matrix = np.vstack([self.a_matrix, I])
-        self.aggregated_series = [c for c in y.columns if c not in self.bottom_series]
+        self.aggregated_series = list(self.hierarchy_flatten.keys())
 
     @staticmethod
     def estimate_covariance(x, method):
-- 
2.43.0


From de3b0591366d97b6ab6f0e7cafa1aedd563613c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 46/84] fix: every step ahead is reconciled with the matrices
 fitted for it

---
 pyforecaster/reconciliation/reconciliation.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 1b49d88..ed922f4 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -24,6 +24,7 @@ class HierarchicalReconciliation:
         self.s_matrix = None
         self.g_matrix = None
         self.p_matrix = None
+        self.projections = {}
         self.ordered_cols = None
         self.base_forecaster_class = base_forecaster_class
         self.base_forecaster_kwargs = forecaster_kwargs
@@ -182,7 +183,7 @@ class HierarchicalReconciliation:
 
         # fit reconciliation for all the steps ahead, keep errors, pre- and post-reconciliation
         self.steps = y_tr.columns.get_level_values(1).unique()
-        errs_hat, errs_tilde = {}, {}
+        errs_hat, errs_tilde, self.projections = {}, {}, {}
         target_names = y_hat.columns.get_level_values(1).unique()
         for t_name in tqdm(target_names):
             # ---------------------------- get base predictions, ground truth for sa ---------------------------------------
@@ -191,7 +192,8 @@ class HierarchicalReconciliation:
 
             # ---------------------------- fit, predict -------------------------------------------------------------------
             self.fit_reconciliation(y_sa, y_hat_sa, self.hierarchy)
-            y_tilde_sa = self.reconcile(y_hat_sa)
+            self.projections[t_name] = (self.p_matrix, self.g_matrix)
+            y_tilde_sa = self.reconcile(y_hat_sa, t_name)
 
             # ---------------------------- retrieve error samples from the training set ------------------------------------
 
@@ -214,7 +216,7 @@ class HierarchicalReconciliation:
         for t_name in tqdm(target_names):
             # get reconciled forecasts at this step ahead
             y_hat_sa = y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].droplevel(1, 1)
-            y_tilde[t_name] = self.reconcile(y_hat_sa)
+            y_tilde[t_name] = self.reconcile(y_hat_sa, t_name)
 
         y_tilde = pd.concat(y_tilde, axis=1).swaplevel(0, 1, axis=1).sort_index(axis=1)
 
@@ -246,7 +248,7 @@ class HierarchicalReconciliation:
         target_names = y_hat.columns.get_level_values(1).unique()
         if method == 'reconciled':
             y_tilde = pd.concat({t_name: self.reconcile(y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].
-                                                    droplevel(1, 1)) for t_name in target_names}, axis=1)
+                                                    droplevel(1, 1), t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
         scens = []
@@ -304,13 +306,15 @@ class HierarchicalReconciliation:
 
         return y_rec
 
-    def reconcile(self, y_hat):
+    def reconcile(self, y_hat, t_name=None):
+        # use the matrices fitted for this step ahead, or the last fitted ones if no step is given
+        p_matrix, g_matrix = self.projections.get(t_name, (self.p_matrix, self.g_matrix))
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].T
+            y_rec = self.s_matrix @ p_matrix @ y_hat[self.ordered_cols].T
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series]
             y_u = y_hat.loc[:, self.aggregated_series]
-            y_b_rec = y_b.values.T + self.g_matrix @ (y_u.values.T - (self.a_matrix @ y_b.values.T))
+            y_b_rec = y_b.values.T + g_matrix @ (y_u.values.T - (self.a_matrix @ y_b.values.T))
             y_rec = pd.DataFrame(self.s_matrix @ y_b_rec, columns=y_hat.index)
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-- 
2.43.0


From a1e375a006cf0b1e3a4ee74a74b96a5c582164ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 47/84] fix: reconciled scenarios can be predicted for new data

---
 pyforecaster/reconciliation/reconciliation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index ed922f4..ecbd3ca 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -253,13 +253,15 @@ class HierarchicalReconciliation:
 
         scens = []
         for h in range(24):
-            h_idx_tr = self.errs_tilde.index.hour == h
             if method == 'vanilla':
-                y_hat_h = y_hat.loc[h_idx_tr]
+                y_hat_h, errs = y_hat.loc[y_hat.index.hour == h], self.errs_hat
             elif method == 'reconciled':
-                y_hat_h = y_tilde.loc[h_idx_tr]
+                y_hat_h, errs = y_tilde.loc[y_tilde.index.hour == h], self.errs_tilde
+            h_idx_tr = errs.index.hour == h
             n_times = y_hat_h.shape[0]
-            scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
+            if n_times == 0:
+                continue
+            scens.append(pd.concat({s: y_hat_h + errs.loc[h_idx_tr]
                       .sample(n_times, replace=True)
                       .reset_index(drop=True)
                       .set_index(y_hat_h.index) for s in range(self.n_scenarios)},axis=1,names=['scenario', 'series', 'step'])\
-- 
2.43.0


From a9e5b90ddfeff3626ba14e3a40bc783ed7093343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 48/84] fix: base quantiles of hierarchical forecasts

---
 pyforecaster/reconciliation/reconciliation.py | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index ecbd3ca..f465518 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -3,7 +3,7 @@ import pandas as pd
 from sklearn.covariance import GraphicalLassoCV, ShrunkCovariance
 from pyforecaster.forecaster import LinearForecaster
 from tqdm import tqdm
-from pyforecaster.utilities import convert_multiindex_pandas_to_tensor, from_tensor_to_pdmultiindex
+from pyforecaster.utilities import convert_multiindex_pandas_to_tensor
 from pyforecaster.utilities import get_logger
 import seaborn as sb
 from pyforecaster.plot_utils import plot_scenarios_from_multilevel
@@ -102,21 +102,15 @@ class HierarchicalReconciliation:
 
         return y_hat
     def get_quantiles(self, x: pd.DataFrame, level='bottom'):
-        steps_ahead = len(self.steps)
         if level == 'bottom':
             bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
-            q_hat = pd.concat({k: from_tensor_to_pdmultiindex(
-                    self.models_dict['bottom'].predict_quantiles(
-                        x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    bottom_series}, axis=1)
+            q_hat = pd.concat({k: self.models_dict['bottom'].predict_quantiles(x.loc[x['name'].isin([k])]
+                                                                                .drop('name', axis=1)) for k in
+                               bottom_series}, axis=1)
         elif level == 'aggregations':
-            q_hat = pd.concat(
-                {k: from_tensor_to_pdmultiindex(
-                    self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    self.hierarchy.keys()},
-                axis=1)
+            q_hat = pd.concat({k: self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])]
+                                                                         .drop('name', axis=1)) for k in
+                               self.hierarchy.keys()}, axis=1)
         elif level == 'all':
             q_hat_bottom = self.get_quantiles(x, level='bottom')
             q_hat_aggr = self.get_quantiles(x, level='aggregations')
-- 
2.43.0


From 5271c53e5d355ba8ec4c99b7bb489a9d0250a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 49/84] fix: hierarchical scores compare every series with its
 own target

---
 pyforecaster/reconciliation/reconciliation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index f465518..72e520a 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -375,6 +375,7 @@ class HierarchicalReconciliation:
         for s in target_names:
             hat_s = convert_multiindex_pandas_to_tensor(hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1))
             y_mat_s = y_mat.loc[:, (slice(None), [s])].droplevel(1, 1)
+            y_mat_s = y_mat_s[hat.columns.get_level_values(0).unique()]
             kpi[s] = metric(hat_s, y_mat_s, **metric_kwargs).T
             if kpi[s].index.nlevels == 2:
                 kpi[s] = kpi[s].unstack(level=0)
-- 
2.43.0


From e8f122a2fe90e993286b14315215928341bda6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 50/84] fix: hierarchy levels and leaves of any hierarchy

---
 pyforecaster/reconciliation/reconciliation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 72e520a..2a6c854 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -40,8 +40,7 @@ class HierarchicalReconciliation:
         return self.hierarchy_flatten
 
     def get_hierarchy_levels(self):
-        l = pd.DataFrame({k: len(v) for k, v in self.hierarchy_flatten.items()}, index=[0])
-        root = l.idxmax(1).values[0]
+        root = [k for k in self.hierarchy if not any(k in v for v in self.hierarchy.values())][0]
         # build levels starting from root
         levels = pd.DataFrame(self.explore_hierarchy(self.hierarchy, root), index=['level']).T
         return levels
@@ -68,7 +67,7 @@ class HierarchicalReconciliation:
                 sublist = HierarchicalReconciliation.unroll_subdict(hierarchy, i)
                 full_list.append(sublist)
             else:
-                full_list.append(np.array(i))
+                full_list.append(np.array(i, dtype=object))
         return np.hstack(full_list)
 
     @staticmethod
-- 
2.43.0


From 170671e32acc8a2af83881210e4912dcb5b9938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 +0000
Subject: [PATCH 51/84] fix: parameters set on LGBForecaster are used by the
 next fit

---
 pyforecaster/forecaster.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 9dd3b7b..0720038 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -383,18 +383,22 @@ class LGBForecaster(ScenarioGenerator):
         self.colsample_bynode = colsample_bynode
         self.n_jobs = n_jobs
         self.n_jobs_predict = n_jobs_predict
-        self.lgb_pars = {"device_type": self.device_type,
-                    "objective": self.objective,
-                    "max_depth": self.max_depth,
-                    "n_estimators": self.n_estimators,
-                    "num_leaves": self.num_leaves,
-                    "learning_rate": self.learning_rate,
-                    "verbose": self.verbose,
-                    "metric": self.metric,
-                    "min_child_samples": self.min_child_samples,
-                    "n_jobs": self.n_jobs,
-                    "colsample_bytree": self.colsample_bytree,
-                    "colsample_bynode": self.colsample_bynode}
+
+    @property
+    def lgb_pars(self):
+        # read at every fit, such that parameters changed by set_params are used
+        return {"device_type": self.device_type,
+                "objective": self.objective,
+                "max_depth": self.max_depth,
+                "n_estimators": self.n_estimators,
+                "num_leaves": self.num_leaves,
+                "learning_rate": self.learning_rate,
+                "verbose": self.verbose,
+                "metric": self.metric,
+                "min_child_samples": self.min_child_samples,
+                "n_jobs": self.n_jobs,
+                "colsample_bytree": self.colsample_bytree,
+                "colsample_bynode": self.colsample_bynode}
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
-- 
2.43.0


From ba8b292a51469b91eb5873a0826ae57d122599b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 52/84] fix: parameters set on QRF are used by the next fit,
 depth and leaf limits included

---
 .../forecasting_models/randomforests.py       | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index e4d4578..de89d26 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -69,25 +69,31 @@ class QRF(ScenarioGenerator):
         self.parallel = parallel
         self.max_parallel_workers = max_parallel_workers
 
-        self.qrf_pars = {
-            "n_estimators":n_estimators,
-            "bootstrap": bootstrap,
-            "oob_score": oob_score,
-            "n_jobs": n_jobs,
-            "random_state": random_state,
-            "verbose": verbose,
-            "warm_start": warm_start,
-            "max_samples": max_samples,
-            "min_samples_split": min_samples_split,
-            "min_samples_leaf": min_samples_leaf,
-            "max_samples_leaf": max_samples_leaf,
-            "min_weight_fraction_leaf": min_weight_fraction_leaf,
-            "max_features": max_features ,
-            "max_leaf_nodes": max_leaf_nodes,
-            "min_impurity_decrease": min_impurity_decrease,
-            "default_quantiles":q_vect if q_vect is not None else 'mean',
-            "criterion":criterion,
-             "ccp_alpha":ccp_alpha
+        self.default_quantiles = q_vect if q_vect is not None else 'mean'
+
+    @property
+    def qrf_pars(self):
+        # read at every fit, such that parameters changed by set_params are used
+        return {
+            "n_estimators": self.n_estimators,
+            "max_depth": self.max_depth,
+            "bootstrap": self.bootstrap,
+            "oob_score": self.oob_score,
+            "n_jobs": self.n_jobs,
+            "random_state": self.random_state,
+            "verbose": self.verbose,
+            "warm_start": self.warm_start,
+            "max_samples": self.max_samples,
+            "min_samples_split": self.min_samples_split,
+            "min_samples_leaf": self.min_samples_leaf,
+            "max_samples_leaf": self.max_samples_leaf,
+            "min_weight_fraction_leaf": self.min_weight_fraction_leaf,
+            "max_features": self.max_features,
+            "max_leaf_nodes": self.max_leaf_nodes,
+            "min_impurity_decrease": self.min_impurity_decrease,
+            "default_quantiles": self.default_quantiles,
+            "criterion": self.criterion,
+            "ccp_alpha": self.ccp_alpha
         }
 
     def _fit(self, i, x, y, sample_weight=None):
-- 
2.43.0


From 262b22be6daf34e38b635d351bf847f3bef6f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 53/84] fix: parameters forwarded to the parent constructor are
 kept by clones

---
 pyforecaster/forecaster.py                            | 11 ++++++++++-
 .../forecasting_models/fast_adaptive_models.py        |  2 +-
 pyforecaster/forecasting_models/holtwinters.py        |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 0720038..70c97b0 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -94,7 +94,16 @@ class ScenarioGenerator(BaseEstimator):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
 
     def get_params(self, **kwargs):
-        return {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
+        names = list(signature(self.__class__).parameters.keys())
+        # parameters that a constructor forwards to its parents are parameters of the model as well
+        for c in self.__class__.__mro__:
+            if '__init__' not in vars(c) or not issubclass(c, ScenarioGenerator):
+                continue
+            pars = signature(c.__init__).parameters
+            names += [k for k in pars if k not in names + ['self', 'logger', 'pars']]
+            if not any(p.kind == p.VAR_KEYWORD for p in pars.values()):
+                break
+        return {k: getattr(self, k) for k in names if k in self.__dict__.keys()}
 
     def _get_scengen_subsample_seed(self) -> int:
         if self.scengen_random_state is not None:
diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index dde37e5..721b7bc 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -8,7 +8,7 @@ from abc import abstractmethod
 
 
 def _reject_postfit_row_cap_kwargs(scengen_kwgs):
-    unsupported = {'max_scengen_rows', 'scengen_random_state'} & set(scengen_kwgs)
+    unsupported = {'max_scengen_rows', 'scengen_random_state'} & {k for k, v in scengen_kwgs.items() if v is not None}
     if unsupported:
         names = ', '.join(sorted(unsupported))
         raise TypeError(f'Unsupported keyword argument(s) for StatefulForecaster custom-fit models: {names}')
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 6a7eb29..306093f 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -10,7 +10,7 @@ from copy import deepcopy
 
 
 def _reject_postfit_row_cap_kwargs(scengen_kwgs):
-    unsupported = {'max_scengen_rows', 'scengen_random_state'} & set(scengen_kwgs)
+    unsupported = {'max_scengen_rows', 'scengen_random_state'} & {k for k, v in scengen_kwgs.items() if v is not None}
     if unsupported:
         names = ', '.join(sorted(unsupported))
         raise TypeError(f'Unsupported keyword argument(s) for HoltWinters custom-fit models: {names}')
-- 
2.43.0


From 7bf28b3d71f394b344a4501e495b4360155ba8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 54/84] fix: parameters of random Fourier features models are
 kept by clones and can be set

---
 .../random_fourier_features.py                | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index da48957..4f7b369 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -204,12 +204,15 @@ class Base:
         Notes:
             If `W` is None then the appropriate matrix will be set just before the training.
         """
-        self.dim = dim_kernel
-        self.s_k = std_kernel
-        self.mat = get_matrix_generator(rand_type, std_kernel, dim_kernel)
+        self.rand_type = rand_type
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
         self.W   = W
         self.b   = b
 
+    def mat(self, dim_in):
+        return get_matrix_generator(self.rand_type, self.std_kernel, self.dim_kernel)(dim_in)
+
     def conv(self, x, index=None):
         """
         Applies random matrix to the given input vectors `X` and create feature vectors.
@@ -337,8 +340,17 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         RandomFFRegressor.__init__(self, "rff", base_model, dim_kernel, std_kernel, W, b)
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
+        self.base_model = base_model
         self.scaler = None
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        if 'base_model' in kwargs:
+            self.reg = self.base_model()
+        if {'dim_kernel', 'std_kernel'} & set(kwargs) and not {'W', 'b'} & set(kwargs):
+            # the random features drawn for the previous parameters are no longer valid
+            self.W, self.b = None, None
+
     def fit(self, x, y, **args):
         x, y, x_val, y_val = self.train_val_split(x, y)
         self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
@@ -366,11 +378,25 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def __init__(self, n_models, dim_kernel=16, std_kernel=0.1, W=None, b=None, q_vect=None, nodes_at_step=None,
                  val_ratio=None, logger=None, n_scen_fit=100, additional_node=False, base_model=LinearRegression, **scengen_kwgs):
         self.n_models = n_models
-        self.models = [RandomFFRegressor("rff", base_model, dim_kernel, std_kernel, W, b) for _ in range(n_models)]
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
+        self.W = W
+        self.b = b
+        self.base_model = base_model
+        self.models = self._init_models()
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
         self.scaler = None
 
+    def _init_models(self):
+        return [RandomFFRegressor("rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
+                for _ in range(self.n_models)]
+
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        if {'n_models', 'dim_kernel', 'std_kernel', 'W', 'b', 'base_model'} & set(kwargs):
+            self.models = self._init_models()
+
     def fit(self, x, y, **args):
         """Boosting fit."""
         x, y, x_val, y_val = self.train_val_split(x, y)
-- 
2.43.0


From 69c7383a4fe8b9adc7119a233a0b9f0474fc7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 55/84] fix: Kalman update applies the gain to the prior
 covariance only once

---
 pyforecaster/utilities.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 27050c6..4e17fa5 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -36,7 +36,6 @@ def kalman_update(x, P, y, H, R):
     S = np.dot(H, np.dot(P, H.T)) + R
     K = np.dot(P, np.dot(H.T, np.linalg.pinv(S)))
     x = x + np.dot(K, (y - np.dot(H , x)))
-    P = P - np.dot(K,np.dot(H, P))
     I_KH = np.eye(K.shape[0]) - np.dot(K, H)
     P = np.dot(I_KH,np.dot(P,I_KH.T)) + np.dot(K, np.dot(R, K.T))
     return x, P
-- 
2.43.0


From ea779771d82c2039e039b06445bbd63e03d96844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 56/84] fix: most important frequencies are not shifted by one

---
 pyforecaster/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 4e17fa5..a1f8565 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -51,7 +51,8 @@ def find_most_important_frequencies(x, n_max=10):
     fft_x = np.fft.fft(x)
 
     # Calculate the magnitude spectrum
-    mag_spectrum = np.abs(fft_x)[:len(x) // 2]
+    # the mean (zero frequency) is left out, the first element is frequency 1
+    mag_spectrum = np.abs(fft_x)[1:len(x) // 2]
 
     # Find the indices corresponding to the highest magnitudes
     return np.sort(np.argsort(mag_spectrum)[::-1][:n_max]) + 1
-- 
2.43.0


From 1457a10944da2e3d3acd08521c61f00bf26a87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 57/84] fix: tensors of tables with selected columns have the
 right shape

---
 pyforecaster/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index a1f8565..76a3375 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -14,7 +14,7 @@ def from_tensor_to_pdmultiindex(x, index, first_index, second_index):
 def convert_multiindex_pandas_to_tensor(df, zero_first=True):
     if df.columns.nlevels < 2:
         return df
-    c_shape = df.columns.levshape
+    c_shape = df.columns.remove_unused_levels().levshape
     if zero_first:
         return df.values.reshape(-1, c_shape[0], c_shape[1])
     else:
-- 
2.43.0


From ba02594e9a443291040f79a12c4712d9ce8ff281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 58/84] fix: bootstrap samples have the size of the series also
 if its labels are repeated

---
 pyforecaster/stat_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index 1b77336..dd279d8 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -19,7 +19,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     assert isinstance(series, pd.Series), 'series must be a pd.Series instance, you passed {}'.format(type(series))
 
     n = len(series)
-    samples = np.random.choice(series.index, (n_sampling, n), replace=True)
+    samples = np.random.choice(n, (n_sampling, n), replace=True)
 
     sample_at = np.arange(100, n_sampling, 500).astype(int)
     history = pd.DataFrame({})
@@ -32,7 +32,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     for i, n_s in enumerate(sample_at):
         stats = []
         for s in samples[:n_s]:
-            stats.append(series.loc[s].agg(stat_fun))
+            stats.append(series.iloc[s].agg(stat_fun))
 
         if save_plots_dir:
             qqplot((stats-np.mean(stats))/np.std(stats), ax, label=n_s, c=colors(i))
-- 
2.43.0


From b7d2c467808bdd23faeb0ede62584454922bed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 59/84] fix: inverse of the linloglin activation is finite for
 large values

---
 pyforecaster/forecasting_models/neural_models/layers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 14b7e46..5b3c905 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -60,11 +60,14 @@ def linloglin_inverse(y: jnp.ndarray, k=10) -> jnp.ndarray:
     # Inverse of the left linear part
     left_linear_inv = (y + q) / m
 
+    # the logarithmic parts are only used between -log(k+1) and log(k+1): clip there, otherwise they overflow
+    y_log = jnp.clip(y, -jnp.log(k + 1), jnp.log(k + 1))
+
     # Inverse of the left logarithmic part
-    left_log_inv = 1 - jnp.exp(-y)
+    left_log_inv = 1 - jnp.exp(-y_log)
 
     # Inverse of the right logarithmic part
-    right_log_inv = jnp.exp(y) - 1
+    right_log_inv = jnp.exp(y_log) - 1
 
     # Inverse of the right linear part
     right_linear_inv = (y - q) / m
-- 
2.43.0


From ea96fedf721ae9d086aab8845b213b021628c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 60/84] fix: identity and invcondiff_inverse layers are
 inverted by their own inverse

---
 pyforecaster/forecasting_models/neural_models/layers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 5b3c905..3823860 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -247,8 +247,12 @@ class CausalInvertibleLayer(nn.Module):
             return jnp.where(y >= 0, y, y / self.negative_slope)
         elif name == "softplus":
             return inverse_softplus(jnp.maximum(1e-6, y))
-        elif name == "invcondiff" or name == "invcondiff_inverse" or name == "identity":
+        elif name == "invcondiff":
             return invcondiff_inverse(y)
+        elif name == "invcondiff_inverse":
+            return invcondiff(y)
+        elif name == "identity":
+            return y
         elif name == "linloglin":
             return linloglin_inverse(y)
         else:
-- 
2.43.0


From 995855cbc61b0f7db5c5b3077d0f4d84753bfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 61/84] fix: invertible layers use the parameters of their
 activation in both directions

---
 .../forecasting_models/neural_models/layers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 3823860..e0e6265 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -220,7 +220,7 @@ class CausalInvertibleLayer(nn.Module):
         else:
             if self.layer_normalization:
                 y = nn.LayerNorm()(y)
-            return self.activation(y)
+            return self.apply_activation(y)
 
     def invert(self, y):
         if not self.prediction_layer:
@@ -240,21 +240,27 @@ class CausalInvertibleLayer(nn.Module):
         else:
             if self.layer_normalization:
                 y = nn.LayerNorm()(y)
-            return self.activation(y)
+            return self.apply_activation(y)
+    def apply_activation(self, y):
+        # negative_slope is the slope of the layer: it must be the same in both directions
+        return nn.leaky_relu(y, self.negative_slope) if self.activation is nn.leaky_relu else self.activation(y)
+
     def invert_activation(self, y):
         name = self.activation.__name__ if '__name__' in dir(self.activation) else self.activation.func.__name__
+        kwargs = getattr(self.activation, 'keywords', {})  # parameters of the activation, if it is a partial
         if name == "leaky_relu":
-            return jnp.where(y >= 0, y, y / self.negative_slope)
+            slope = self.negative_slope if self.activation is nn.leaky_relu else kwargs.get('negative_slope', 0.01)
+            return jnp.where(y >= 0, y, y / slope)
         elif name == "softplus":
             return inverse_softplus(jnp.maximum(1e-6, y))
         elif name == "invcondiff":
-            return invcondiff_inverse(y)
+            return invcondiff_inverse(y, **kwargs)
         elif name == "invcondiff_inverse":
-            return invcondiff(y)
+            return invcondiff(y, **kwargs)
         elif name == "identity":
             return y
         elif name == "linloglin":
-            return linloglin_inverse(y)
+            return linloglin_inverse(y, **kwargs)
         else:
             raise NotImplementedError('Activation function {} not implemented for inversion'.format(name))
 
-- 
2.43.0


From e691f41e6485e1adcfa31fc3ddd5e22873c72239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 62/84] fix: inverted embeddings keep the index of the table

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index beab1f7..49fc23f 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -169,7 +169,7 @@ class CausalInvertibleNN(NN):
         y_np = invert(self.pars, y.values, self.model)
         if self.input_scaler is not None:
             y_np = self.input_scaler.inverse_transform(y_np)
-        return pd.DataFrame(y_np, columns=y.columns)
+        return pd.DataFrame(y_np, index=y.index, columns=y.columns)
 
     def reorder_inputs(self, inputs):
         if self.n_exogenous > 0:
-- 
2.43.0


From 813af88f6de7926bce249ca6a962c1147a8fd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 63/84] fix: size parameters of the causal invertible network
 are used and kept by clones

---
 .../forecasting_models/neural_models/INN.py         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 49fc23f..c340be2 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -130,7 +130,8 @@ class CausalInvertibleNN(NN):
         self.set_attr({"names_exogenous": names_exogenous,
                        "end_to_end": end_to_end,
                        "n_prediction_layers": n_prediction_layers,
-                       "num_embedding_layers": n_hidden_y,
+                       "n_hidden_y": n_hidden_y,
+                       "n_in": n_in,
                        "n_exogenous":len(names_exogenous) if names_exogenous is not None else 0,
                        "scaling_factor": scaling_factor})
         assert n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
@@ -140,6 +141,16 @@ class CausalInvertibleNN(NN):
                          normalize_target, stopping_rounds, subtract_mean_when_normalizing, causal_df, probabilistic,
                          probabilistic_loss_kind, **scengen_kwgs)
 
+    def get_params(self, **kwargs):
+        # the number of inputs of the network is set by n_in
+        return {k: v for k, v in super().get_params(**kwargs).items() if k != 'n_hidden_x'}
+
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        self.n_hidden_x = self.n_in
+        self.n_exogenous = len(self.names_exogenous) if self.names_exogenous is not None else 0
+        self.set_arch()
+
     def set_arch(self):
         self.optimizer = optax.adabelief(learning_rate=self.learning_rate)
         self.model = EndToEndCausalInvertibleModule(num_embedding_layers=self.n_layers,
-- 
2.43.0


From 83c7b6a7f6222e5908cc63edc31338a7679d1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 64/84] fix: saved networks keep quantiles, error distributions
 and scenario generator, loading rebuilds the architecture

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 6af783a..c9a179a 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -291,7 +291,8 @@ class NN(ScenarioGenerator):
 
     def get_serializable_properties(self):
         attrs = {}
-        for key, value in self.get_class_properties().items():
+        # attributes set by the parents (quantiles, error distributions, scenario generator...) are part of the model too
+        for key, value in {**self.get_class_properties(), **self.__dict__}.items():
             if key in self._runtime_serialization_excludes():
                 continue
             try:
@@ -317,6 +318,8 @@ class NN(ScenarioGenerator):
         with open(save_path, 'rb') as f:
             attrdict = pk.load(f)
         self.set_attr(attrdict)
+        self.iterate = None
+        self.set_arch()
 
     @staticmethod
     def init_arch(nn_init, n_inputs_x=1):
-- 
2.43.0


From 012176a755939683d12266de0835a44385542b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 65/84] fix: controls and inverter of convex networks follow
 their parameters when these are set or loaded

---
 .../forecasting_models/neural_models/ICNN.py    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7b62528..4699ccf 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -311,8 +311,7 @@ class PICNN(NN):
                        "inverter_class":inverter_class
                        })
 
-        self.n_hidden_y = 2 * len(self.optimization_vars) if augment_ctrl_inputs else len(self.optimization_vars)
-        self.inverter_optimizer = inverter_class(learning_rate=self.inverter_learning_rate)
+        self.set_controls()
 
         super().__init__(learning_rate, batch_size, load_path, n_hidden_x, n_out, n_layers, pars, q_vect, val_ratio,
                          nodes_at_step, n_epochs, savepath_tr_plots, stats_step, rel_tol, unnormalized_inputs,
@@ -320,6 +319,20 @@ class PICNN(NN):
                          probabilistic, probabilistic_loss_kind, **scengen_kwgs)
 
 
+    def set_controls(self):
+        self.n_hidden_y = 2 * len(self.optimization_vars) if self.augment_ctrl_inputs else len(self.optimization_vars)
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
+
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        self.set_controls()
+        self.set_arch()
+
+    def load(self, save_path):
+        super().load(save_path)
+        self.set_controls()
+        self.set_arch()
+
     def set_arch(self):
         z_max = jnp.array(self.z_max) if self.z_max is not None else self.z_max
         z_min = jnp.array(self.z_min) if self.z_min is not None else self.z_min
-- 
2.43.0


From d7c4a91d556fd22e5f492731b64d7943108f7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 66/84] fix: convex networks can be trained with a causality
 matrix

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 4699ccf..5f3a350 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -346,7 +346,7 @@ class PICNN(NN):
         if self.causal_df is not None:
             causal_df = (~self.causal_df.astype(bool)).astype(float)
             causal_matrix = np.tile(causal_df.values, 2) if self.probabilistic else causal_df.values
-            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind) \
+            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix) \
                 if not self.probabilistic else jitting_wrapper(probabilistic_causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind)
         else:
             self.loss_fn = jitting_wrapper(loss_fn, self.predict_batch) if not self.probabilistic else jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution)
-- 
2.43.0


From 0da017c74ad8a531e60e1f83d7813e5e4fe39f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 67/84] fix: recursively stable convex networks use augmented
 controls if asked to

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 5f3a350..33f9b2c 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -543,7 +543,7 @@ class RecStablePICNN(PICNN):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = PICNN_module(num_layers=self.n_layers, features_x=self.n_hidden_x, features_y=self.n_hidden_y,
                               features_out=self.n_out, features_latent=self.n_latent, activation=nn.relu,
-                              init_type=self.init_type, probabilistic=self.probabilistic,z_min=z_min,
+                              init_type=self.init_type, augment_ctrl_inputs=self.augment_ctrl_inputs, probabilistic=self.probabilistic,z_min=z_min,
                               z_max=z_max)
         self.predict_batch = vmap(jitting_wrapper(predict_batch_picnn, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution) if self.probabilistic else (
-- 
2.43.0


From b1929fba56db9bb4daa30fc129c22003f5c8ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 68/84] fix: networks without normalized inputs

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 11 +++++++----
 .../forecasting_models/neural_models/base_nn.py       |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 33f9b2c..08d9c4d 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -365,8 +365,9 @@ class PICNN(NN):
     def get_normalized_inputs(self, inputs, target=None):
         inputs = inputs.copy()
         self.to_be_normalized = [c for c in inputs.columns if c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
-        normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
-        inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
+        if len(self.to_be_normalized) > 0:
+            normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
+            inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
 
         x = inputs[[c for c in inputs.columns if not c in self.optimization_vars]].values
         y = inputs[self.optimization_vars].values
@@ -419,7 +420,8 @@ class PICNN(NN):
 
         inputs.loc[:, self.optimization_vars] = y.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if len(self.to_be_normalized) > 0:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
@@ -781,7 +783,8 @@ class LatentStructuredPICNN(PICNN):
 
         inputs.loc[:, self.optimization_vars] = ctrl.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if len(self.to_be_normalized) > 0:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index c9a179a..667537f 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -509,10 +509,10 @@ class NN(ScenarioGenerator):
         return preds
 
     def get_normalized_inputs(self, inputs, target=None):
-        if self.input_scaler is not None:
-            inputs = inputs.copy()
-            self.to_be_normalized = [c for c in inputs.columns if
+        self.to_be_normalized = [c for c in inputs.columns if
                                  c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
+        if len(self.to_be_normalized) > 0:
+            inputs = inputs.copy()
             normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
             inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
 
-- 
2.43.0


From 3455588e6fdbf0f43f14e256772b4bd29a568ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 69/84] fix: controls are optimized on the weights of the last
 fit

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 667537f..aec3fce 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -439,6 +439,7 @@ class NN(ScenarioGenerator):
             if val_loss[-1] > val_loss[-2]:
                 pars = old_pars
         self.pars = pars
+        self.iterate = None  # the compiled optimization step uses the weights of the previous fit
         super().fit(inputs_val_0, targets_val_0)
         return self
 
-- 
2.43.0


From 2983726dc64f4decb09a4ec6138d90a39ae428ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 70/84] fix: standard deviations of probabilistic networks are
 in the units of the target

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index aec3fce..950d870 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -472,10 +472,12 @@ class NN(ScenarioGenerator):
         x, _ = self.check_inputs(x, None)
         y_hat = self.predict_batch(self.pars, x)
         y_hat = np.array(y_hat)
+        if self.probabilistic:
+            y_hat[:, y_hat.shape[1] // 2:] = (y_hat[:, y_hat.shape[1] // 2:])**0.5  # the network predicts the variance
         if self.normalize_target:
             if self.probabilistic:
                 y_hat[:, :y_hat.shape[1]//2] = self.target_scaler.inverse_transform(y_hat[:, :y_hat.shape[1]//2])
-                y_hat[:, y_hat.shape[1] // 2:] = self.target_scaler.inverse_transform((y_hat[:, y_hat.shape[1] // 2:])**0.5)
+                y_hat[:, y_hat.shape[1] // 2:] *= self.target_scaler.scale_  # deviations are not shifted by the mean
             else:
                 y_hat = self.target_scaler.inverse_transform(y_hat)
         if self.probabilistic:
-- 
2.43.0


From de217ae4e3ca1a9e30f34e37c26251ff843aebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 71/84] fix: quantiles of recurrent networks

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 950d870..994db0d 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -491,12 +491,11 @@ class NN(ScenarioGenerator):
             return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
-        inputs, _ = self.check_inputs(inputs, None)
         if self.probabilistic:
             if normalize:
                 mu_hat, sigma_hat = self.predict(inputs, return_sigma=True)
             else:
-                x = inputs
+                x, _ = self.check_inputs(inputs, None)
                 y_hat = self.predict_batch(self.pars, x)
                 y_hat = np.array(y_hat)
                 mu_hat = y_hat[:, :y_hat.shape[1]//2]
-- 
2.43.0


From 5e5e4a77d4cbb401a346ab4772f2cd6622681e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 72/84] fix: quantiles of structured networks that are not
 probabilistic

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 08d9c4d..35d26a3 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -629,6 +629,8 @@ class StructuredPICNN(PICNN):
 
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
+        if not self.probabilistic:
+            return super().predict_quantiles(inputs, normalize=normalize, **kwargs)
         if normalize:
             y_hat, objs_hat, sigma_hat = self.predict(inputs, return_sigma=True, return_obj=True)
             objs_hat = objs_hat.values
-- 
2.43.0


From 22a2bdfd0f11fbd0d268402c0e8f47fe29914a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:27 +0000
Subject: [PATCH 73/84] fix: probabilistic feed forward and recurrent networks
 predict positive variances

---
 .../neural_models/base_nn.py                  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 994db0d..6fdf2f5 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -92,6 +92,12 @@ def probabilistic_loss_fn(params, inputs, targets, model=None, kind='maximum_lik
     ll = probabilistic_loss(predictions, targets, sigma_square, kind=kind, distribution=distribution)
     return ll
 
+def positive_variance(out):
+    """The second half of the outputs of probabilistic networks are variances"""
+    n = out.shape[-1] // 2
+    return jnp.hstack([out[..., :n], nn.softplus(out[..., n:]) + 1e-10])
+
+
 class FeedForwardModule(nn.Module):
     n_layers: Union[int, np.array, list]
     n_out: int=None
@@ -99,6 +105,7 @@ class FeedForwardModule(nn.Module):
     split_heads: bool = False
     selector:Union[np.array, None]=None
     skip_connection:bool=False
+    probabilistic: bool = False
     @nn.compact
     def __call__(self, x):
         if isinstance(self.n_layers, int):
@@ -143,12 +150,14 @@ class FeedForwardModule(nn.Module):
                 else:
                     x = nn.Dense(features=n, name='dense_{}'.format(i))(x)
 
-        return x + y
+        out = x + y
+        return positive_variance(out) if self.probabilistic else out
 
 class LSTMModule(nn.Module):
     n_layers: int
     n_neurons: int
     n_out: int
+    probabilistic: bool = False
     @nn.compact
     def __call__(self, x):
 
@@ -185,7 +194,7 @@ class LSTMModule(nn.Module):
                 _, x = lstm(carry, x)
                 x = nn.Dense(features=n)(x[-1]) # take the last temporal step, trow away the state
 
-        return x
+        return positive_variance(x) if self.probabilistic else x
 
 
 
@@ -332,7 +341,7 @@ class NN(ScenarioGenerator):
     def set_arch(self):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = FeedForwardModule(n_layers=self.n_layers, n_neurons=self.n_hidden_x,
-                              n_out=self.n_out)
+                              n_out=self.n_out, probabilistic=self.probabilistic)
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
@@ -543,7 +552,8 @@ class FFNN(NN):
     def set_arch(self):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = FeedForwardModule(n_layers=self.n_layers, n_neurons=self.n_hidden_x,
-                              n_out=self.n_out, split_heads=self.split_heads, selector=self.selector, skip_connection=self.skip_connection)
+                              n_out=self.n_out, split_heads=self.split_heads, selector=self.selector, skip_connection=self.skip_connection,
+                              probabilistic=self.probabilistic)
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
@@ -558,7 +568,7 @@ class LSTMNN(NN):
     def set_arch(self):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = LSTMModule(n_layers=self.n_layers, n_neurons=self.n_hidden_x,
-                              n_out=self.n_out)
+                              n_out=self.n_out, probabilistic=self.probabilistic)
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
-- 
2.43.0


From 243e5d193760d86609b4a3c09978e85463e08fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:27 +0000
Subject: [PATCH 74/84] fix: probabilistic networks are trained on the
 requested loss

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 6fdf2f5..73d419b 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -343,7 +343,7 @@ class NN(ScenarioGenerator):
         self.model = FeedForwardModule(n_layers=self.n_layers, n_neurons=self.n_hidden_x,
                               n_out=self.n_out, probabilistic=self.probabilistic)
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
-        self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch) if self.probabilistic else (
+        self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
         self.train_step = jitting_wrapper(partial(train_step, loss_fn=self.loss_fn), self.optimizer)
 
@@ -555,7 +555,7 @@ class FFNN(NN):
                               n_out=self.n_out, split_heads=self.split_heads, selector=self.selector, skip_connection=self.skip_connection,
                               probabilistic=self.probabilistic)
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
-        self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch) if self.probabilistic else (
+        self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
         self.train_step = jitting_wrapper(partial(train_step, loss_fn=self.loss_fn), self.optimizer)
 
@@ -570,7 +570,7 @@ class LSTMNN(NN):
         self.model = LSTMModule(n_layers=self.n_layers, n_neurons=self.n_hidden_x,
                               n_out=self.n_out, probabilistic=self.probabilistic)
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
-        self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch) if self.probabilistic else (
+        self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
         self.train_step = jitting_wrapper(partial(train_step, loss_fn=self.loss_fn), self.optimizer)
 
-- 
2.43.0


From 973b319f9f471e1ece8488d681796827c3ebca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 75/84] fix: random fold cross-validation with several scorers
 needs no score key

---
 pyforecaster/trainer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index fde3cde..06ee410 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -15,7 +15,12 @@ def default_param_space_fun(trial):
     return param_space
 
 def get_score_key(cv_results, scoring, score_key=None):
-    fallback_name = 'test_' + list(scoring.keys())[0] if isinstance(scoring, dict) else list(cv_results.keys())[-1]
+    if isinstance(scoring, dict):
+        # scikit-learn prefixes the names of the scorers, the random fold strategy does not
+        first_scorer = list(scoring.keys())[0]
+        fallback_name = 'test_' + first_scorer if 'test_' + first_scorer in cv_results.keys() else first_scorer
+    else:
+        fallback_name = list(cv_results.keys())[-1]
     fallback_name = 'test_score' if 'test_score' in cv_results.keys() else fallback_name
     score_key = score_key if score_key is not None else fallback_name
     return score_key
-- 
2.43.0


From 21654e47176ecd66899323649c3e953d51a17325 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 76/84] fix: Kalman forecaster can be re-initialised with
 another number of harmonics and does not grow when forecasting

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 721b7bc..ffb9625 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -363,6 +363,7 @@ class FK(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = None
         self.states['last_1sa_preds'] = 0
+        self.coeffs_t_history = []
         self.P_future = None
         self.store_basis()
 
@@ -404,9 +405,9 @@ class FK(StatefulForecaster):
                                                                self.n_harmonics_int, w)
         if fit:
             self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.coeffs_t_history = coeffs_t_history.T
 
         preds = preds + preds_updated
-        self.coeffs_t_history = coeffs_t_history.T
 
         if return_coeffs:
             return np.vstack(preds[1:]), coeffs_t_history.T
-- 
2.43.0


From b3ac0164ad5c9264784a8d9dfd45be668c5a06f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 77/84] fix: experts of the mixture follow the parameters set
 after its construction

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index ffb9625..d4effef 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -467,6 +467,8 @@ class FK_multi(StatefulForecaster):
 
 
     def reinit_pars(self):
+        # the submodels follow the parameters set after construction
+        self.submodels_init_pars.update({k: getattr(self, k) for k in self.submodels_init_pars if hasattr(self, k)})
         self.submodels_init_pars.update({'optimize_hyperpars': self.optimize_submodels_hyperpars,
                                          'verbose':True})
         # create models with increasing history length
-- 
2.43.0


From b39274191c5fb2316e93b7ba2cb4681c75778fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 78/84] fix: tuning of the recursive forecasters keeps
 parameters set after construction

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 4 ++--
 pyforecaster/forecasting_models/holtwinters.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index d4effef..aa9f69b 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -133,7 +133,7 @@ class StatefulForecaster(ScenarioGenerator):
 
     def tune_hyperpars(self, x_pd):
         pars_opt = tune_hyperpars(x_pd, self.__class__, hyperpars=self.hyperpar_lims, n_trials=self.optimization_budget,
-                                  return_model=False, model_init_kwargs=self.init_pars)
+                                  return_model=False, model_init_kwargs={k: getattr(self, k, v) for k, v in self.init_pars.items()})
         self.set_params(**pars_opt)
         self.reinit_pars()
         return self
@@ -502,7 +502,7 @@ class FK_multi(StatefulForecaster):
     def fit(self, x_pd, y_pd=None, **kwargs):
         if self.optimize_hyperpars:
             pars_opt = tune_hyperpars(x_pd, FK_multi, hyperpars={'fake':[0, 1]},
-                            n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
+                            n_trials=1, return_model=False, parallel=False, model_init_kwargs={k: getattr(self, k, v) for k, v in self.init_pars.items()})
             self.set_params(**pars_opt)
             self.reinit_pars()
 
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 306093f..2d04334 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -182,7 +182,7 @@ class HoltWinters(ScenarioGenerator):
     def fit(self, x_pd, y_pd=None, **kwargs):
         if self.optimize_hyperpars:
             pars_opt = tune_hyperpars(x_pd, HoltWinters, hyperpars={'alpha':[0, 1], 'gamma_1':[0, 1], 'gamma_2':[0, 1]},
-                            n_trials=self.optimization_budget, return_model=False, model_init_kwargs=self.init_pars)
+                            n_trials=self.optimization_budget, return_model=False, model_init_kwargs={k: getattr(self, k, v) for k, v in self.init_pars.items()})
             self.set_params(**pars_opt)
 
         y = x_pd[self.target_name].values
@@ -428,7 +428,7 @@ class HoltWintersMulti(ScenarioGenerator):
 
     def fit(self, x_pd, y_pd=None):
         if self.optimize_hyperpars:
-            pars_opt = tune_hyperpars(x_pd, HoltWintersMulti, hyperpars={'fake':[0, 1]}, n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
+            pars_opt = tune_hyperpars(x_pd, HoltWintersMulti, hyperpars={'fake':[0, 1]}, n_trials=1, return_model=False, parallel=False, model_init_kwargs={k: getattr(self, k, v) for k, v in self.init_pars.items()})
             self.set_params(**pars_opt)
             self.reinit_pars()
 
-- 
2.43.0


From 58fc04143855ce0a8c3a43cffd5ff4b3e9d98116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 79/84] fix: recursive forecasters rebuild basis, states and
 components when parameters are set after construction

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 7 +++++++
 pyforecaster/forecasting_models/holtwinters.py          | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index aa9f69b..51174c4 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -107,6 +107,13 @@ class StatefulForecaster(ScenarioGenerator):
         self.hyperpar_lims = {}
         super().__init__(q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, **scengen_kwgs)
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        # basis, states and submodels are built from these parameters
+        if kwargs.keys() & {'target_name', 'n_sa', 'm', 'n_harmonics', 'periodicity', 'r', 'q', 'n_predictors',
+                            'base_predictor', 'submodels_pars', 'optimize_submodels_hyperpars', 'optimization_budget'}:
+            self.reinit_pars()
+
     @abstractmethod
     def reinit_pars(self):
         self.states['w'] = None
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 2d04334..de04d0b 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -415,6 +415,13 @@ class HoltWintersMulti(ScenarioGenerator):
         self.models = None
         self.reinit_pars()
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        # the submodels are built from these parameters
+        if kwargs.keys() & {'periods', 'target_name', 'targets_names', 'q_vect', 'optimization_budget', 'constraints',
+                            'models_periods', 'optimize_submodels_hyperpars', 'alphas', 'gammas_1', 'gammas_2'}:
+            self.reinit_pars()
+
     def reinit_pars(self):
         models = []
         for i, n in enumerate(self.models_periods):
-- 
2.43.0


From a7c6a52f2df0eb0eff9f9ead91613b1ff44a3766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 80/84] fix: categorical encoding of the formatter replaced the
 values by the column names

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 66e1d66..c383f37 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -395,8 +395,8 @@ class Formatter:
             cat_features = self.auto_cat_feature_selection(df_train)
 
         self.logger.debug('encoding {} as categorical features'.format(cat_features))
-        df_train[cat_features] = pd.Categorical(df_train[cat_features])
-        df_test[cat_features] = pd.Categorical(df_test[cat_features])
+        df_train = df_train.astype({c: 'category' for c in cat_features})
+        df_test = df_test.astype({c: 'category' for c in cat_features})
 
         encoder = encoder(cols=cat_features)
         encoder.fit(df_train[cat_features], df_train[target])
-- 
2.43.0


From b69463c6d49459ddf871395c43a0fec504fe3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 81/84] fix: aggregation lengths which are not a multiple of
 the sampling time count the started steps

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index c383f37..a81e3b5 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -750,7 +750,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(self.agg_freq) / dt)
+                agg_steps = int(np.ceil(pd.Timedelta(self.agg_freq) / dt))
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
-- 
2.43.0


From 57804843f27d1f01b6e150ff015a1bc3d559b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 82/84] fix: reliability leaves out missing and masked entries

---
 pyforecaster/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 02cfad1..bec046b 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -71,7 +71,8 @@ def quantile_scores(q_hat, t, alphas=None, agg_index=None, **kwargs):
             err_alpha = q_hat[:, a, :] - t.values
         else:
             err_alpha = q_hat[:, :, a] - t.values
-        I = (err_alpha > 0).astype(int)
+        # missing or masked entries are neither covered nor uncovered
+        I = np.where(pd.isna(err_alpha), np.nan, err_alpha > 0).astype(float)
         qs_a = (I - alpha) * err_alpha
 
         if axis == 0:
-- 
2.43.0


From 691de7cf8996380616c065e4acd58e9a51c9458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 83/84] fix: random fold strategy trains a copy of the model as
 the full one does

---
 pyforecaster/trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 06ee410..700e35f 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -1,4 +1,5 @@
 from sklearn.model_selection import cross_validate as sklear_cv
+from sklearn.base import clone
 from sklearn.model_selection import KFold
 from sklearn.metrics import make_scorer
 import optuna
@@ -68,6 +69,8 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
         x_tr, x_te, y_tr, y_te = (_select_rows(d, i) for d in (x, y) for i in (tr_idx, te_idx))
+        # as for the full strategy, the fold is used to train a copy of the model
+        model = clone(model)
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From 413d46974018184f3497a168fe4e71293f1fb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 84/84] fix: spread of the folds is not read from other
 attributes of the trials

---
 pyforecaster/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 700e35f..530c846 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -180,7 +180,8 @@ def base_storage_fun(storage, cv_results):
 
 def retrieve_cv_results(study):
     trials_df = study.trials_dataframe()
-    usr_attr_cols = [c for c in trials_df.columns if 'user_attr' in c]
+    # other attributes could have been set on the trials by the user
+    usr_attr_cols = [c for c in trials_df.columns if c == 'user_attrs_cv_test_scores']
     if len(usr_attr_cols) > 0:
         trials_df['cv_test_score_std'] = np.vstack(trials_df[usr_attr_cols[0]]).std(axis=1)
 
-- 
2.43.0

