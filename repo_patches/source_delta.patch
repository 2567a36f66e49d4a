From 242f961848a2006f6d0bd8b054fe9bb85eb768e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 01/64] fix: absolute percentage errors use the magnitude of
 the true value

---
 kats/metrics/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/metrics/metrics.py b/kats/metrics/metrics.py
index 940e87e..a1b97f8 100644
--- a/kats/metrics/metrics.py
+++ b/kats/metrics/metrics.py
@@ -275,10 +275,10 @@ def _abs_pct_err(
 ) -> npt.NDArray:
     err = np.abs(y_true - y_pred)
     if sample_weight is None:
-        return _safe_divide(err, y_true)
+        return _safe_divide(err, np.abs(y_true))
 
     err = np.multiply(err, sample_weight)
-    return _safe_divide(err, y_true * np.nansum(sample_weight))
+    return _safe_divide(err, np.abs(y_true) * np.nansum(sample_weight))
 
 
 def absolute_percentage_error(
-- 
2.43.0


From 53497cebe36d55a796173f0f0573e20841efc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 02/64] fix: data partitions refuse fractions, sizes and step
 counts outside their documented range

---
 kats/utils/datapartition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 2515fce..5f22cd4 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -210,8 +210,10 @@ class SimpleDataPartition(DataPartitionBase):
             _raise_error(info)
         if (frac is not None) and (frac <= 0 or frac >= 1):
             info = f"`{frac_name}` should be a float in (0, 1), but receives {frac}."
+            _raise_error(info)
         if (size is not None) and (size <= 0):
             info = f"`{size_name}` should be a positive integer, but receives {size}."
+            _raise_error(info)
         return
 
     def _single_train_test_split(
@@ -403,6 +405,7 @@ class RollingOriginDataParition(DataPartitionBase):
             _raise_error(msg)
         if expanding_steps < 1:
             msg = f"`expanding_steps` should be a positive integer but receives {expanding_steps}."
+            _raise_error(msg)
         return start_train_frac, test_frac, window_frac, expanding_steps
 
     def _single_train_test_split(
-- 
2.43.0


From fb5a64887278ecfae283f37471152b76e875c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 03/64] fix: data partitions cap max_core at the available
 cores and accept all of them

---
 kats/utils/datapartition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 5f22cd4..739323b 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -65,12 +65,13 @@ class DataPartitionBase(ABC):
             total_cores = cpu_count()
             if max_core is None:
                 self.max_core: int = max((total_cores - 1) // 2, 1)
-            elif isinstance(max_core, int) and max_core > 0 and max_core < total_cores:
+            elif isinstance(max_core, int) and max_core > 0 and max_core <= total_cores:
                 self.max_core = max_core
             elif isinstance(max_core, int) and max_core > total_cores:
                 logging.warning(
                     f"`max_core` is larger than maximum available cores ({total_cores}) and sets `max_core = {total_cores}`."
                 )
+                self.max_core = total_cores
             else:
                 msg = f"max_core should be a positive integer in [1, {total_cores}] but receives {max_core}."
                 logging.error(msg)
-- 
2.43.0


From 43829d701586fd0b8aa331382d3ab639c44bf0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 04/64] fix: backtester errors are raised instead of only built

---
 kats/utils/backtesters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 470c165..15ba604 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -124,7 +124,7 @@ def _get_scorer(
                 methods.append((error, core_metric(error)))
             except Exception as e:
                 msg = f"Unsupported error function {error} with error message {e}."
-                _log_error(msg)
+                raise _log_error(msg)
 
         # define scorer function
         # pyre-fixme Incompatible return type [7]: Expected `Optional[typing.Callable[[DataFrame], Dict[str, float]]]` but got `Union[Metric, MultiOutputMetric, WeightedMetric]`.
@@ -141,7 +141,7 @@ def _get_scorer(
         return scorer
 
     msg = "Input `scorer` is invalid."
-    _log_error(msg)
+    raise _log_error(msg)
 
 
 def kats_units_forecaster(
@@ -258,7 +258,7 @@ class GenericBacktester(ABC):
         # get error metric names
         if not valid_fold_errors:
             msg = "No valid evaluation available, i.e., every evaluation failed."
-            _log_error(msg)
+            raise _log_error(msg)
 
         error_metrics = list(valid_fold_errors[0].keys())
         base_error_score = {em: self.error_score for em in error_metrics}
@@ -274,7 +274,7 @@ class GenericBacktester(ABC):
         self, results: List[Tuple[pd.DataFrame, Dict[str, float]]]
     ) -> BacktesterResult:
         if not results:
-            _log_error("Fail to get evaluation results!")
+            raise _log_error("Fail to get evaluation results!")
 
         raw_errors = [res[0] for res in results]
         raw_fold_errors = [res[1] for res in results]
@@ -307,7 +307,7 @@ class GenericBacktester(ABC):
         if self.backtest_result is not None:
             return self.backtest_result
         msg = "Please execute function `run_backtester()` first."
-        _log_error(msg)
+        raise _log_error(msg)
 
 
 class KatsSimpleBacktester(GenericBacktester):
-- 
2.43.0


From 45584411ee779026fc99b85d451b0dab547ecfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 05/64] fix: missing values stay missing in relative and
 weighted errors

---
 kats/metrics/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/metrics/metrics.py b/kats/metrics/metrics.py
index a1b97f8..dfdbafb 100644
--- a/kats/metrics/metrics.py
+++ b/kats/metrics/metrics.py
@@ -157,7 +157,7 @@ def _safe_divide(
     """
     nans = np.isnan(num)
     if ~np.isscalar(denom):
-        nans &= np.isnan(denom)
+        nans |= np.isnan(denom)
     with np.errstate(divide="ignore", invalid="ignore"):
         result = np.divide(num, denom)
 
-- 
2.43.0


From f9ebbc7cf9368f61978b638b8765ec3b5ff0eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 06/64] fix: spikes of a change point interval follow its data

---
 kats/detectors/detector_consts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/detector_consts.py b/kats/detectors/detector_consts.py
index da24b7d..dc56034 100644
--- a/kats/detectors/detector_consts.py
+++ b/kats/detectors/detector_consts.py
@@ -74,6 +74,7 @@ class ChangePointInterval:
             (all_data_df.time >= self.start_time) & (all_data_df.time < self.end_time)
         ]
         self.data_df = all_data_df
+        self._all_spikes = None
 
     def _detect_spikes(self) -> Union[List[SingleSpike], List[List[SingleSpike]]]:
         df = self.data_df
@@ -129,6 +130,7 @@ class ChangePointInterval:
         self.data_df = new_data_df.loc[
             (new_data_df.time >= self.start_time) & (new_data_df.time < self.end_time)
         ]
+        self._all_spikes = None
 
     @property
     def start_time_str(self) -> str:
-- 
2.43.0


From e69e1d11e37ffde45b2e6c7317f6ad2ee3d7e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 07/64] fix: one-step forecasts of the linear and quadratic
 models

---
 kats/models/linear_model.py    | 3 ++-
 kats/models/quadratic_model.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kats/models/linear_model.py b/kats/models/linear_model.py
index 93b3123..3aa4356 100644
--- a/kats/models/linear_model.py
+++ b/kats/models/linear_model.py
@@ -124,7 +124,8 @@ class LinearModel(Model[LinearModelParams]):
         else:
             self._X_future = list(range(self.past_length, self.past_length + steps))
 
-        X_fcst = sm.add_constant(self._X_future)
+        # a single row is constant in every column and must still get its intercept
+        X_fcst = sm.add_constant(self._X_future, has_constant="add")
         if self.model is None:
             raise ValueError("Call fit() before predict()")
         else:
diff --git a/kats/models/quadratic_model.py b/kats/models/quadratic_model.py
index c7227ad..757861d 100644
--- a/kats/models/quadratic_model.py
+++ b/kats/models/quadratic_model.py
@@ -134,7 +134,8 @@ class QuadraticModel(Model[QuadraticModelParams]):
             _X_future = list(range(past_length, past_length + steps))
         self._X_future = _X_future
         _X_fcst = np.column_stack([_X_future, np.power(_X_future, 2)])
-        X_fcst = sm.add_constant(_X_fcst)
+        # a single row is constant in every column and must still get its intercept
+        X_fcst = sm.add_constant(_X_fcst, has_constant="add")
         y_fcst = model.predict(X_fcst)
         sdev, y_fcst_lower, y_fcst_upper = wls_prediction_std(
             self.model, exog=X_fcst, alpha=self.params.alpha
-- 
2.43.0


From fccabffb1b09281718ef30b2c84b5bcd907bb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 08/64] fix: keep the fractional baseline in vectorized CUSUM
 predictions

---
 kats/detectors/cusum_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index a9941ff..31a4be7 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -814,9 +814,9 @@ class CUSUMDetectorModel(DetectorModel):
             # pyre-ignore
             ss_detect.alert_fired: pd.Series = pd.Series(False, index=column_index)
             # pyre-ignore
-            ss_detect.pre_mean: pd.Series = pd.Series(0, index=column_index)
+            ss_detect.pre_mean: pd.Series = pd.Series(0.0, index=column_index)
             # pyre-ignore
-            ss_detect.pre_std: pd.Series = pd.Series(1, index=column_index)
+            ss_detect.pre_std: pd.Series = pd.Series(1.0, index=column_index)
             # pyre-ignore
             ss_detect.alert_change_direction: pd.Series = pd.Series(
                 "None", index=column_index
-- 
2.43.0


From ab6905ab3c6b0053dd19fb3aeb5a2d434d310c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 09/64] fix: CUSUM model with less than a step of data after
 the history

---
 kats/detectors/cusum_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index 31a4be7..c479624 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -1042,13 +1042,14 @@ class CUSUMDetectorModel(DetectorModel):
     def _time2idx(self, tsd: TimeSeriesData, time: datetime, direction: str) -> int:
         """
         This function get the index of the TimeSeries data given a datatime.
-        left takes the index on the left of the time stamp (inclusive)
+        left takes the index on the left of the time stamp (inclusive), or the first
+        index if there is none
         right takes the index on the right of the time stamp (exclusive)
         """
         if direction == "right":
             return np.argwhere((tsd.time >= time).values).min()
         elif direction == "left":
-            return np.argwhere((tsd.time < time).values).max()
+            return np.argwhere((tsd.time < time).values).max(initial=0)
         else:
             raise InternalError("direction can only be right or left")
 
-- 
2.43.0


From 644c9c3e38e17b78f87eb26433cc53303eb883c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 10/64] fix: extending an empty time series takes the other's
 columns

---
 kats/consts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kats/consts.py b/kats/consts.py
index 1cc18b5..154680e 100644
--- a/kats/consts.py
+++ b/kats/consts.py
@@ -681,10 +681,12 @@ class TimeSeriesData:
             cur_value = pd.DataFrame(cur_value, copy=False)
         if isinstance(other.value, pd.Series):
             other_value = pd.DataFrame(other_value, copy=False)
+        # An empty time series has no columns to line up with the other ones
+        values = [v for v in (cur_value, other_value) if len(v) > 0] or [cur_value]
         # Concatenate values
-        self.value = pd.concat(
-            [cur_value, other_value], ignore_index=True, copy=False
-        ).reset_index(drop=True)
+        self.value = pd.concat(values, ignore_index=True, copy=False).reset_index(
+            drop=True
+        )
         # Merge value back to Series if required
         self._set_univariate_values_to_series()
         # Validate that frequency is constant if required
-- 
2.43.0


From 48e268105d39aa47c534a1a3fe31cbe4e12868df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 11/64] fix: a serialized rolling statistics model can be
 loaded again

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 11a35e3..48bc871 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -230,7 +230,9 @@ class RollingStatsModel(DetectorModel):
         if serialized_model:
             previous_model = json.loads(serialized_model)
             self.rolling_window: int = previous_model["rolling_window"]
-            self.statistics: RollStatsFunction = previous_model["statistics"]
+            self.statistics: RollStatsFunction = RollStatsFunction(
+                previous_model["statistics"]
+            )
             self.remove_seasonality: bool = previous_model["remove_seasonality"]
             self.point_based: bool = previous_model["point_based"]
             self.seasonality_period: str = previous_model["seasonality_period"]
-- 
2.43.0


From 235bc654955a1e013bd74f02abbae7c0724d58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 12/64] fix: the rolling statistics model leaves the caller's
 history alone

---
 kats/detectors/rolling_stats_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 48bc871..45f729e 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -400,6 +400,8 @@ class RollingStatsModel(DetectorModel):
         # pull all the data in historical data
         if historical_data is not None:
             n_points_hist_data = len(historical_data)
+            # extend() works in place, the caller's history has to stay as it is
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
         else:
             # When historical_data is not provided, will use part of data as
-- 
2.43.0


From bba8226439c321c5514b0700db22d41feac5acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 13/64] fix: a time based rolling window keeps its size between
 calls

---
 kats/detectors/rolling_stats_model.py | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 45f729e..b01aa1d 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -289,7 +289,9 @@ class RollingStatsModel(DetectorModel):
         """
         return str.encode(json.dumps(self.__dict__))
 
-    def _point_based_vectorized_data(self, data: npt.NDArray) -> npt.NDArray:
+    def _point_based_vectorized_data(
+        self, data: npt.NDArray, rolling_window: Optional[int] = None
+    ) -> npt.NDArray:
         """
         For Z-scores and its variants,
         reshape the input data to shape (-1, self.rolling_window + 1)
@@ -298,15 +300,17 @@ class RollingStatsModel(DetectorModel):
         For IQR and MAD,
         reshape the input data to shape (-1, self.rolling_window)
         """
+        if rolling_window is None:
+            rolling_window = self.rolling_window
         if self.extend_rolling_window:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window,
-                self.rolling_window + 1,
+                data.shape[-1] - rolling_window,
+                rolling_window + 1,
             )
         else:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window + 1,
-                self.rolling_window,
+                data.shape[-1] - rolling_window + 1,
+                rolling_window,
             )
         strides = data.strides + (data.strides[-1],)
         # pyre-fixme[16]: Module `numpy.lib.stride_tricks` has no attribute `as_strided`.
@@ -318,6 +322,7 @@ class RollingStatsModel(DetectorModel):
         self,
         data_interp: TimeSeriesData,
         n_points_hist_data: int,
+        window_points: Optional[int] = None,
     ) -> AnomalyResponse:
         """
         Params:
@@ -325,11 +330,14 @@ class RollingStatsModel(DetectorModel):
             n_point_hist_data: How many points from the original data were historical
                 data. Used to keep track of how many points need to be scored since
                 historical_data and data are merged in fit_predict().
+            window_points: The rolling window in points, self.rolling_window if None.
         """
+        if window_points is None:
+            window_points = self.rolling_window
         if self.extend_rolling_window:
-            rolling_window = self.rolling_window
+            rolling_window = window_points
         else:
-            rolling_window = self.rolling_window - 1
+            rolling_window = window_points - 1
 
         if n_points_hist_data < rolling_window:
             if not self.allow_expanding_window:
@@ -346,13 +354,14 @@ class RollingStatsModel(DetectorModel):
                         data_value,
                     ],
                     axis=0,
-                )
+                ),
+                window_points,
             )
         else:
             data_value = data_interp.value.values[
                 (n_points_hist_data - rolling_window) :
             ]
-            reorg_data = self._point_based_vectorized_data(data_value)
+            reorg_data = self._point_based_vectorized_data(data_value, window_points)
 
         scores_array = (
             SCORE_FUNC_DICT[self.statistics.value](reorg_data, iqr_base=self.iqr_base)
@@ -430,10 +439,10 @@ class RollingStatsModel(DetectorModel):
             self.rolling_window % frequency_sec == 0
             and not historical_data.is_data_missing()
         ):
-            self.rolling_window = self.rolling_window // frequency_sec
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                window_points=self.rolling_window // frequency_sec,
             )
 
         else:
-- 
2.43.0


From 70a4176bc36a106199e34cb71c91fe0fa2d82a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 14/64] fix: iqr_base also applies to time based rolling
 windows

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index b01aa1d..a393ced 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -467,7 +467,9 @@ class RollingStatsModel(DetectorModel):
                 ].value.values
                 if len(window_data_array) >= 2:
                     score = (
-                        SCORE_FUNC_DICT[self.statistics.value](window_data_array)
+                        SCORE_FUNC_DICT[self.statistics.value](
+                            window_data_array, iqr_base=self.iqr_base
+                        )
                         * self.score_base
                     )
                 else:
-- 
2.43.0


From 4e52ab4503e9c4eb8365fc72191eb8241682df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 15/64] fix: split stat-sig results survive data of a whole
 number of splits

---
 kats/detectors/stat_sig_detector.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 342d4ff..17ab3f8 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -503,13 +503,13 @@ class StatSigDetectorModel(DetectorModel):
 
     def _reorganize_back(self, anom: AnomalyResponse) -> None:
         data_history = self.data_history
-        remaining = self.remaining
+        data = self.data
         anom_predicted_ts = anom.predicted_ts
         anom_confidence_band = anom.confidence_band
         anom_stat_sig_ts = anom.stat_sig_ts
         response = self.response
         assert data_history is not None
-        assert remaining is not None
+        assert data is not None
         assert anom_predicted_ts is not None
         assert anom_confidence_band is not None
         assert anom_stat_sig_ts is not None
@@ -518,45 +518,46 @@ class StatSigDetectorModel(DetectorModel):
         assert response_predicted_ts is not None
 
         start_point = len(data_history)
+        n_data = len(data)
         res_score_val = pd.Series(
             pd.DataFrame(anom.scores.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:n_data],
             copy=False,
         )
 
         res_predicted_ts_val = pd.Series(
             pd.DataFrame(anom_predicted_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:n_data],
             copy=False,
         )
 
         res_anomaly_magnitude_ts_val = pd.Series(
             pd.DataFrame(anom.anomaly_magnitude_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:n_data],
             copy=False,
         )
 
         res_stat_sig_ts_val = pd.Series(
             pd.DataFrame(anom_stat_sig_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:n_data],
             copy=False,
         )
 
         res_confidence_band_lower_val = pd.Series(
             pd.DataFrame(anom_confidence_band.lower.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:n_data],
             copy=False,
         )
 
         res_confidence_band_upper_val = pd.Series(
             pd.DataFrame(anom_confidence_band.upper.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:n_data],
             copy=False,
         )
 
-- 
2.43.0


From 22dc91b067f2f2e4546a191b2ece0a4ca68c2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 16/64] fix: the stat-sig detectors leave the caller's history
 alone

---
 kats/detectors/stat_sig_detector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 17ab3f8..2025390 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -402,8 +402,9 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            # extend() works in place, the caller's history has to stay as it is
+            total_data = historical_data[:]
+            total_data.extend(data, validate=False)
 
         total_data_df = total_data.to_dataframe()
         total_data_df.columns = ["time", "value"]
@@ -757,8 +758,9 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            # extend() works in place, the caller's history has to stay as it is
+            total_data = historical_data[:]
+            total_data.extend(data, validate=False)
 
         first_dt = total_data.time.iloc[0]  # first date of the data
 
-- 
2.43.0


From d591c651dfaf9b7c413eb24b5d6eeed25ad69674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 17/64] fix: stat-sig scores of long deseasonalized data

---
 kats/detectors/stat_sig_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 2025390..8b4ee27 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -297,6 +297,7 @@ class StatSigDetectorModel(DetectorModel):
             )
             anom = ss_detect.fit_predict(data=new_data_ts)
             self._reorganize_back(anom)
+            response = self.response
 
         else:
             self._init_control_test(
-- 
2.43.0


From b600743054c193ed3859d02c4103798386369635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 18/64] fix: a stored stat-sig model keeps anomaly_scores_only

---
 kats/detectors/stat_sig_detector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 8b4ee27..56ef93c 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -125,6 +125,9 @@ class StatSigDetectorModel(DetectorModel):
             self.min_perc_change: float = model_dict.get(
                 "min_perc_change", min_perc_change
             )
+            anomaly_scores_only = model_dict.get(
+                "anomaly_scores_only", anomaly_scores_only
+            )
 
         else:
             # pyrefly: ignore [bad-assignment]
@@ -193,6 +196,8 @@ class StatSigDetectorModel(DetectorModel):
             "max_split_ts_length": self.max_split_ts_length,
             "min_perc_change": self.min_perc_change,
         }
+        if self.anomaly_scores_only:
+            model_dict["anomaly_scores_only"] = True
 
         return json.dumps(model_dict).encode("utf-8")
 
-- 
2.43.0


From d8f6dff3f40822a2a6f87bc90632e173800bddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 19/64] fix: min_perc_change also applies to long stat-sig data

---
 kats/detectors/stat_sig_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 56ef93c..94443d6 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -299,6 +299,7 @@ class StatSigDetectorModel(DetectorModel):
                 seasonal_period=self.seasonal_period,
                 skip_rescaling=True,
                 use_corrected_scores=self.use_corrected_scores,
+                min_perc_change=self.min_perc_change,
             )
             anom = ss_detect.fit_predict(data=new_data_ts)
             self._reorganize_back(anom)
-- 
2.43.0


From f52ad79dea508b1b6a4363008956cc311245bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 20/64] fix: a stored multivariate stat-sig model keeps its
 settings

---
 kats/detectors/stat_sig_detector.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 94443d6..5e35bc8 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -1029,9 +1029,26 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
             seasonal_period=seasonal_period,
             min_perc_change=min_perc_change,
         )
-        self.method = method
-        self.skip_rescaling = skip_rescaling
-        self.use_corrected_scores = use_corrected_scores
+        if serialized_model:
+            model_dict = json.loads(serialized_model)
+            # use_corrected_scores has been set from the stored model
+            self.method: str = model_dict.get("method", method)
+            self.skip_rescaling: bool = model_dict.get(
+                "skip_rescaling", skip_rescaling
+            )
+        else:
+            self.method: str = method
+            self.skip_rescaling: bool = skip_rescaling
+            self.use_corrected_scores = use_corrected_scores
+
+    def serialize(self) -> bytes:
+        """
+        Serializes by putting model parameters in a json
+        """
+        model_dict = json.loads(super().serialize())
+        model_dict["method"] = self.method
+        model_dict["skip_rescaling"] = self.skip_rescaling
+        return json.dumps(model_dict).encode("utf-8")
 
     def fit_predict(
         self,
-- 
2.43.0


From d0373d9ec0d210f27855ef5dbb44d508f5afbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 21/64] fix: OutlierDetectorModel.fit no longer extends the
 caller's history in place

---
 kats/detectors/outlier_detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index a06deb2..8a46f7f 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -10,6 +10,7 @@
 This module implements the univariate Outlier Detection algorithm as a Detector Model.
 """
 
+import copy
 import json
 from typing import Any, Optional
 
@@ -84,8 +85,9 @@ class OutlierDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            # extend a copy, so that the caller's history stays as it is
+            total_data = copy.deepcopy(historical_data)
+            total_data.extend(data, validate=False)
 
         self.model = OutlierDetector(
             data=total_data, decomp=self.decomp, iqr_mult=self.iqr_mult
-- 
2.43.0


From 1726e6b654d0e5facbe251342cc9dbdc0cffd100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 22/64] fix: OutlierDetectorModel.fit_predict fits the model on
 the data of every call

---
 kats/detectors/outlier_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index 8a46f7f..d0ed4b8 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -170,4 +170,5 @@ class OutlierDetectorModel(DetectorModel):
             AnomalyResponse object. The length of this object is same as data. The score property
             gives the score for anomaly.
         """
+        self.fit(data=data, historical_data=historical_data)
         return self.predict(data=data, historical_data=historical_data, **kwargs)
-- 
2.43.0


From c8537af0bfe23d33ac9b0d11f57aa749d1878461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 23/64] fix: get_anomalous_metrics no longer lists the p-value
 as a metric

---
 kats/detectors/outlier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/outlier.py b/kats/detectors/outlier.py
index ff9c255..1c4fd8b 100644
--- a/kats/detectors/outlier.py
+++ b/kats/detectors/outlier.py
@@ -399,7 +399,9 @@ class MultivariateAnomalyDetector(Detector):
         if anomaly_score_df is None:
             raise ValueError("detector() must be called before get_anomalous_metrics()")
 
-        residual_scores = anomaly_score_df.drop(columns="overall_anomaly_score")
+        residual_scores = anomaly_score_df.drop(
+            columns=["overall_anomaly_score", "p_value"]
+        )
         residual_scores_t = (
             residual_scores.loc[t, :].sort_values(ascending=False).reset_index()
         )
-- 
2.43.0


From edbdea6c28356e69146893787507a2de3f2d4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 24/64] fix: multivariate outlier p-value uses the squared
 Mahalanobis distance

---
 kats/detectors/outlier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/outlier.py b/kats/detectors/outlier.py
index 1c4fd8b..6e942f0 100644
--- a/kats/detectors/outlier.py
+++ b/kats/detectors/outlier.py
@@ -327,7 +327,8 @@ class MultivariateAnomalyDetector(Detector):
         # calculate p-values
         dof = len(self.df.columns)
         # pyre-fixme
-        residual_score["p_value"] = stats.chi2.sf(overall_anomaly_score, df=dof)
+        # (the squared Mahalanobis distance is chi-square distributed)
+        residual_score["p_value"] = stats.chi2.sf(overall_anomaly_score**2, df=dof)
 
         return residual_score
 
-- 
2.43.0


From c9fea34102163958075115419315a52fc2737e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 25/64] fix: multivariate outlier training data is cleaned of
 low outliers as well

---
 kats/detectors/outlier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/outlier.py b/kats/detectors/outlier.py
index 6e942f0..3c03576 100644
--- a/kats/detectors/outlier.py
+++ b/kats/detectors/outlier.py
@@ -221,7 +221,7 @@ class MultivariateAnomalyDetector(Detector):
         z_score_threshold = 3
         # pyre-fixme
         zscore_df = stats.zscore(df)
-        non_outlier_flag = zscore_df < z_score_threshold
+        non_outlier_flag = np.abs(zscore_df) < z_score_threshold
         df_clean = df.where(non_outlier_flag, np.nan)
         df_clean = df_clean.interpolate(
             method="linear", order=2, limit_direction="both"
-- 
2.43.0


From 99674f279a444a14e899685e50bffb7701e62664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 26/64] fix: MKDetector uses the significance level it is given

---
 kats/detectors/trend_mk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index 7c47fea..f5a5555 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -287,7 +287,7 @@ class MKDetector(Detector):
 
         anchor_date = ts.index[-1]
 
-        mk_result = mk.original_test(x)
+        mk_result = mk.original_test(x, alpha=self.alpha)
         trend, p, Tau = mk_result.trend, mk_result.p, mk_result.Tau
         trend = self._apply_threshold(trend, Tau)
 
@@ -324,7 +324,7 @@ class MKDetector(Detector):
 
         x, c = self._preprocessing(ts)
 
-        multi_mk_result = mk.multivariate_test(x)
+        multi_mk_result = mk.multivariate_test(x, alpha=self.alpha)
         trend, p, Tau = multi_mk_result.trend, multi_mk_result.p, multi_mk_result.Tau
         trend = self._apply_threshold(trend, Tau)
 
@@ -335,7 +335,7 @@ class MKDetector(Detector):
             x_i, n = self._drop_missing_values(x[:, i])
             # individual Tau score and trend
             try:
-                mk_result = mk.original_test(x_i)
+                mk_result = mk.original_test(x_i, alpha=self.alpha)
                 trend_i, Tau_i = mk_result.trend, mk_result.Tau
                 trend_i = self._apply_threshold(trend_i, Tau_i)
                 Tau_dict[ts.columns[i]] = Tau_i
-- 
2.43.0


From bfb56bdd1481137d044b377663e269a17800b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 27/64] fix: MKDetector falls back to the univariate test for
 univariate data as it announces

---
 kats/detectors/trend_mk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index f5a5555..35386cb 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -183,6 +183,7 @@ class MKDetector(Detector):
             # Assume multivariate but univariate data is detected
             elif self.data.is_univariate() and self.multivariate:
                 logging.warning("Using univariate MK test on multivariate data.")
+                self.multivariate = False
 
     def _remove_seasonality(
         self, ts: pd.DataFrame, freq: Optional[str] = None
-- 
2.43.0


From f0092b84b693de787bf9f0072a9bb8c81703558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 28/64] fix: MKDetector tests the first full window as well

---
 kats/detectors/trend_mk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index 35386cb..5aeba7b 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -458,7 +458,8 @@ class MKDetector(Detector):
 
             # run detector sequentially with sliding_window for the whole time
             # series
-            for t in ts_smoothed.index[window_size:]:
+            # (the first full window ends at position window_size - 1)
+            for t in ts_smoothed.index[window_size - 1 :]:
                 # look back window_size day for trend detection
                 ts_tmp = ts_smoothed.loc[:t, :]
                 # append MK statistics to MK_statistics dataframe
-- 
2.43.0


From f8e1a7dd5fbb7cf5dda1e4d6840720c53be4dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 29/64] Revert "fix: MKDetector tests the first full window as
 well"

This reverts commit f0092b84b693de787bf9f0072a9bb8c81703558a.
---
 kats/detectors/trend_mk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index 5aeba7b..35386cb 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -458,8 +458,7 @@ class MKDetector(Detector):
 
             # run detector sequentially with sliding_window for the whole time
             # series
-            # (the first full window ends at position window_size - 1)
-            for t in ts_smoothed.index[window_size - 1 :]:
+            for t in ts_smoothed.index[window_size:]:
                 # look back window_size day for trend detection
                 ts_tmp = ts_smoothed.loc[:t, :]
                 # append MK statistics to MK_statistics dataframe
-- 
2.43.0


From 6cf569b61d3f39acd3d61aef23dc6c5da0f45048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 30/64] fix: weekly frequencies convert to a Timedelta

---
 kats/consts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kats/consts.py b/kats/consts.py
index 154680e..fe45185 100644
--- a/kats/consts.py
+++ b/kats/consts.py
@@ -805,7 +805,11 @@ class TimeSeriesData:
         """
 
         # pyre-fixme[6]: For 1st argument expected `None` but got `Optional[str]`.
-        return pd.Timedelta(to_offset(pd.infer_freq(self.time_to_index())))
+        offset = to_offset(pd.infer_freq(self.time_to_index()))
+        # weeks have a fixed length, but pandas does not convert them
+        if isinstance(offset, pd.offsets.Week):
+            return pd.Timedelta(days=7 * offset.n)
+        return pd.Timedelta(offset)
 
     def tz(
         self,
-- 
2.43.0


From 95d2fb9a5cfafb98c1293cd002c4961bccef5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 31/64] fix: SeasonalityHandler accepts regular data whose
 first time is not a multiple of the step from midnight

---
 kats/utils/decomposition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/utils/decomposition.py b/kats/utils/decomposition.py
index f3d3082..eddd79d 100644
--- a/kats/utils/decomposition.py
+++ b/kats/utils/decomposition.py
@@ -368,6 +368,7 @@ class SeasonalityHandler:
         self.decomposer_input: TimeSeriesData = self.data.interpolate(
             freq=self.frequency_sec_str,
             base=resample_base_sec,
+            origin="start",
         )
 
         data_time_idx = self.decomposer_input.time.isin(self.data.time)
-- 
2.43.0


From 9930a138ba36010ab9adce85e66f8c4e26c7860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 32/64] fix: ProphetModel forecasts all the steps when the data
 has nulls or other columns

---
 kats/models/prophet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 24d7b8c..b770cc6 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -315,7 +315,8 @@ class ProphetModel(Model[ProphetParams]):
             # end of the time series, Prophet won't have that in its history and
             # we won't generate enough steps.
             count_trailing_nulls = 0
-            nulls = self.data.value.isnull()
+            value = self.data.value
+            nulls = (value if self.data.is_univariate() else value["y"]).isnull()
             while nulls.iloc[-1 - count_trailing_nulls]:
                 count_trailing_nulls += 1
             # pyre-fixme
@@ -357,9 +358,8 @@ class ProphetModel(Model[ProphetParams]):
             else:
                 future = future[future.ds > self.data.time.max()]
 
-            reqd_length = steps + int(
-                self.data.value.notnull().sum() * self.include_history
-            )
+            # all the historical rows (null values included), plus the steps
+            reqd_length = steps + int((future.ds <= self.data.time.max()).sum())
             if len(future) < reqd_length:
                 msg = f"Input `future` is not long enough to generate forecasts of {steps} steps."
                 _error_msg(msg)
-- 
2.43.0


From 37fe1b2a19110d0ccc39b14d7f0d1abfb11a756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 33/64] fix: ProphetModel.predict does not change the caller's
 future dataframe

---
 kats/models/prophet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index b770cc6..8054e0a 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -325,6 +325,9 @@ class ProphetModel(Model[ProphetParams]):
                 freq=self.freq,
                 include_history=self.include_history,
             )
+        else:
+            # cap and floor are added to a copy
+            future = future.copy()
         if "ds" not in future.columns:
             msg = "`future` should be specified and `future` should contain a column named 'ds' representing the timestamps."
             _error_msg(msg)
-- 
2.43.0


From e3095295089649a76479f2069221a5bd860043e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 34/64] fix: ProphetModel reports a missing cap or floor of
 univariate data

---
 kats/models/prophet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 8054e0a..83f7a5e 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -275,12 +275,13 @@ class ProphetModel(Model[ProphetParams]):
             if not extra_regressor_names.issubset(value_cols):
                 msg = f"`data` should contain all columns listed in {extra_regressor_names}."
                 raise ValueError(msg)
+        columns = [] if self.data.is_univariate() else self.data.value.columns
         # validate cap
-        if (self.params.cap is True) and ("cap" not in self.data.value.columns):
+        if (self.params.cap is True) and ("cap" not in columns):
             msg = "`data` should contain a column called `cap` representing the cap when `cap = True`."
             _error_msg(msg)
         # validate floor
-        if (self.params.floor is True) and ("floor" not in self.data.value.columns):
+        if (self.params.floor is True) and ("floor" not in columns):
             msg = "`data` should contain a column called `floor` representing the floor when `floor = True`."
             _error_msg(msg)
 
-- 
2.43.0


From cd3962929e36ed73c3ca7cb4913ccc99861581f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 35/64] fix: ProphetDetectorModel.fit does not extend the
 caller's historical data

---
 kats/detectors/prophet_detector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 51b1c7b..843ccb0 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -520,8 +520,9 @@ class ProphetDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data)
-            total_data = historical_data
+            # extend a copy, so that the caller's history stays as it is
+            total_data = copy.deepcopy(historical_data)
+            total_data.extend(data)
 
         # Exclude training ranges if specified
         if self.exclude_training_ranges is not None:
-- 
2.43.0


From df715f1723020928ee3efda2ce6b42bdd4036404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 36/64] fix: the anomaly magnitude and significance of a
 Prophet detection are separate series

---
 kats/detectors/prophet_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 843ccb0..04defec 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -683,7 +683,7 @@ class ProphetDetectorModel(DetectorModel):
             confidence_band=confidence_band,
             predicted_ts=predicted_ts,
             anomaly_magnitude_ts=zeros_ts,
-            stat_sig_ts=zeros_ts,
+            stat_sig_ts=copy.deepcopy(zeros_ts),
         )
         return response
 
-- 
2.43.0


From 81576a2d5b0e08b8bed9f574ddeba9f8659731ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 37/64] fix: holiday_multiplier without holidays, and with a
 list of dates for a restored model

---
 kats/detectors/prophet_detector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 04defec..7510813 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -307,6 +307,8 @@ def get_holiday_dates(
             year_list=year_list, country=country_holidays
         )
         all_holidays = pd.concat((all_holidays, country_holidays_df), sort=False)
+    if all_holidays.empty:
+        return pd.Series(dtype="datetime64[ns]")
     all_holidays = pd.to_datetime(
         # pyre-fixme[16]: `Timestamp` has no attribute `__iter__`.
         pd.Series(list({x.date() for x in pd.to_datetime(all_holidays.ds)}))
@@ -660,9 +662,11 @@ class ProphetDetectorModel(DetectorModel):
             and round(self.holiday_multiplier, 10) != 1.0
         ):
             # convert the list of custom holidays into a df
-            custom_holidays = (
-                pd.DataFrame(self.holidays_list) if self.holidays_list else None
-            )
+            holidays_list = self.holidays_list
+            if isinstance(holidays_list, list):
+                # not yet converted by fit(), e.g. for a serialized model
+                holidays_list = {HOLIDAY_DATES_COLUMN_NAME: holidays_list}
+            custom_holidays = pd.DataFrame(holidays_list) if holidays_list else None
             holidays_df: Optional[pd.Series] = get_holiday_dates(
                 custom_holidays, self.country_holidays, data.time
             )
-- 
2.43.0


From 23b47b5c04dda7feb836ad2ce48d58fc37e4f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 38/64] fix: StaticThresholdModel scores are a copy of the data

---
 kats/detectors/threshold_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/threshold_detector.py b/kats/detectors/threshold_detector.py
index cb0da09..f7603d0 100644
--- a/kats/detectors/threshold_detector.py
+++ b/kats/detectors/threshold_detector.py
@@ -77,7 +77,7 @@ class StaticThresholdModel(DetectorModel):
             AnomalyResponse object whose scores is a copy of the time series. The length of this object is same as data.
         """
         output_ts = self._zeros_ts(data)
-        output_ts.value = data.value
+        output_ts.value = data.value.copy()
         return AnomalyResponse(
             scores=output_ts,
             confidence_band=None,
-- 
2.43.0


From 08fd5d75795565b65b8770c7937cc5093273965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 39/64] fix: temporal hierarchies accept data whose time column
 has another name

---
 kats/models/reconciliation/base_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/models/reconciliation/base_models.py b/kats/models/reconciliation/base_models.py
index 9e0405b..66d4d07 100644
--- a/kats/models/reconciliation/base_models.py
+++ b/kats/models/reconciliation/base_models.py
@@ -106,7 +106,9 @@ class GetAggregateTS:
             logging.error(msg)
             raise ValueError(msg)
 
-        self.data = TimeSeriesData(data.to_dataframe().copy())
+        self.data = TimeSeriesData(
+            data.to_dataframe().rename(columns={data.time_col_name: "time"})
+        )
 
     # pyre-fixme[3]: Return type must be annotated.
     # pyre-fixme[2]: Parameter must be annotated.
-- 
2.43.0


From e26692d47a9d1fc4a0b8a638bf1a7c08acf4e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 40/64] fix: TemporalHierarchicalModel.predict uses the freq
 and last_timestamp it is given

---
 kats/models/reconciliation/thm.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index cdead82..e2314c2 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -9,7 +9,7 @@
 
 import logging
 from math import gcd
-from typing import Dict, List, Optional, Type
+from typing import Dict, List, Optional, Type, Union
 
 import numpy as np
 import numpy.typing as npt
@@ -27,6 +27,7 @@ from kats.models import (
 )
 from kats.models.model import Model
 from kats.models.reconciliation.base_models import BaseTHModel, GetAggregateTS
+from pandas.tseries.frequencies import to_offset
 from sklearn.covariance import MinCovDet
 
 
@@ -102,6 +103,16 @@ class TemporalHierarchicalModel:
         # pyre-fixme[4]: Attribute must be annotated.
         self.info_residuals = {}
 
+    # pyre-fixme[11]: Annotation `Timedelta` is not defined as a type.
+    def _get_freq(
+        self, freq: Optional[str] = None
+    ) -> Union[pd.Timedelta, pd.DateOffset]:
+        """Get the frequency of level 1 as an object that can be multiplied."""
+
+        if freq is None:
+            return self.data.infer_freq_robust()
+        return to_offset(freq)
+
     def _get_m(self, ks: List[int]) -> int:
         """Calculate m.
 
@@ -456,6 +467,8 @@ class TemporalHierarchicalModel:
                 'hvar', 'mint_shrink' or 'mint_sample'.
             freq: The frequency of the time series at level 1. If None, then we
                 infer the frequency via ts.infer_freq_robust().
+            last_timestamp: The time the forecasts start after. Default is None,
+                which is the last time of the data.
             origin_fcst: Whether or not to return the forecasts of base models.
             fcst_levels: The levels to generate forecasts for. Default is None,
                 which generates forecasts for all the levels of the base models.
@@ -465,10 +478,9 @@ class TemporalHierarchicalModel:
             corresponding value is a np.array storing the forecasts.
         """
 
-        if freq is None:
-            # pyrefly: ignore [bad-assignment]
-            freq = self.data.infer_freq_robust()
-        last_timestamp = self.data.time.max()
+        freq = self._get_freq(freq)
+        if last_timestamp is None:
+            last_timestamp = self.data.time.max()
         fcsts = self._predict(
             steps, method=method, origin_fcst=origin_fcst, fcst_levels=fcst_levels
         )
@@ -477,12 +489,8 @@ class TemporalHierarchicalModel:
             tmp = {}
             for k in fcsts[elm]:
                 fcst_num = len(fcsts[elm][k])
-                time = pd.date_range(
-                    # pyrefly: ignore [unsupported-operation]
-                    last_timestamp + freq * k,
-                    # pyrefly: ignore [unsupported-operation]
-                    last_timestamp + freq * k * fcst_num,
-                    periods=fcst_num,
+                time = pd.DatetimeIndex(
+                    [last_timestamp + freq * k * (i + 1) for i in range(fcst_num)]
                 )
                 tmp[k] = pd.DataFrame({"time": time, "fcst": fcsts[elm][k]}, copy=False)
             ans[elm] = tmp
-- 
2.43.0


From 2f859fb08781939a814d3bdb0a8ae0fb1c8a4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 41/64] fix: base models of a temporal hierarchy forecast at
 the spacing of their level

---
 kats/models/reconciliation/thm.py | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index e2314c2..589be3f 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -319,13 +319,20 @@ class TemporalHierarchicalModel:
             raise _log_error(f"{method} is invalid for get_W() method.")
 
     # pyre-fixme[2]: Parameter must be annotated.
-    def _predict_origin(self, steps: int, method="struc") -> Dict[int, npt.NDArray]:
+    def _predict_origin(
+        self,
+        steps: int,
+        method="struc",
+        freq: Optional[str] = None,
+    ) -> Dict[int, npt.NDArray]:
         """
         Generate original forecasts from each base model (without time index).
 
         Args:
             steps: Number of forecasts for level 1.
             methd: Reconciliation method.
+            freq: The frequency of the time series at level 1. If None, then it
+                is inferred from the data.
 
         Returns:
             Dictionary of forecasts of each level, whose key is level and value
@@ -333,23 +340,26 @@ class TemporalHierarchicalModel:
         """
         m = self.m
         levels = self.levels
-        freq = self.freq
+        level_freq = self.freq
         h = int(np.ceil(steps / m))
         hf = steps // m
         orig_fcst = {}
         models = self.models
         # generate forecasts for each level
         for k in levels:
-            num = int(freq[k] * h)
+            num = int(level_freq[k] * h)
             # assert models is not None
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             if models[k] is not None:
+                # the points of level k are k steps of level 1 apart
                 # pyrefly: ignore [bad-index, unsupported-operation]
-                orig_fcst[k] = models[k].predict(steps=num, freq="D")["fcst"].values
+                orig_fcst[k] = models[k].predict(
+                    steps=num, freq=self._get_freq(freq) * k
+                )["fcst"].values
             else:
                 fcst_num = len(self.info_fcsts[k])
                 if fcst_num < num:
-                    if fcst_num >= hf * freq[k]:
+                    if fcst_num >= hf * level_freq[k]:
                         # since the final output only needs hf*freq[k] forecasts
                         # for level k, we pad the forecast array to desirable
                         # length. (note that the padding values would be ignored
@@ -366,7 +376,7 @@ class TemporalHierarchicalModel:
                         orig_fcst[k] = self.info_fcsts[k]
                     else:
                         msg = (
-                            f"{hf * freq[k]} steps of forecasts for level {k} are"
+                            f"{hf * level_freq[k]} steps of forecasts for level {k} are"
                             f" needed, but only receive {fcst_num} steps (and "
                             "forecast model is None)."
                         )
@@ -382,6 +392,7 @@ class TemporalHierarchicalModel:
         method="struc",
         origin_fcst: bool = False,
         fcst_levels: Optional[List[int]] = None,
+        freq: Optional[str] = None,
     ) -> Dict[str, Dict[int, npt.NDArray]]:
         """Generate forecasts for each level (without time index).
 
@@ -392,6 +403,8 @@ class TemporalHierarchicalModel:
             fcst_levels: Levels that one wants to generate forecasts for.
                 If None, then all forecasts for all levels of the base models
                 are generated.
+            freq: The frequency of the time series at level 1. If None, then it
+                is inferred from the data.
 
         Returns:
             Dictionary of forecasts, whose key is level and value is
@@ -402,12 +415,12 @@ class TemporalHierarchicalModel:
 
         m = self.m
         levels = self.levels
-        freq = self.freq
+        level_freq = self.freq
         h = int(np.ceil(steps / m))
         if fcst_levels is None:
             fcst_levels = list(levels)
         fcst = {}
-        orig_fcst = self._predict_origin(steps, method)
+        orig_fcst = self._predict_origin(steps, method, freq)
 
         if method == "bu":
             # bottom_up method
@@ -434,7 +447,7 @@ class TemporalHierarchicalModel:
                 T = np.linalg.solve(W, S).T
             yhat = np.dot(S, np.linalg.solve(T.dot(S), T)).dot(yh)
             # extract forecasts for level 1
-            yhat = (yhat[(-freq[1]) :, :].T).flatten()[:steps]
+            yhat = (yhat[(-level_freq[1]) :, :].T).flatten()[:steps]
         else:
             raise _log_error(f"Reconciliation method {method} is invalid.")
         # aggregate fcsts
@@ -478,12 +491,16 @@ class TemporalHierarchicalModel:
             corresponding value is a np.array storing the forecasts.
         """
 
+        fcsts = self._predict(
+            steps,
+            method=method,
+            origin_fcst=origin_fcst,
+            fcst_levels=fcst_levels,
+            freq=freq,
+        )
         freq = self._get_freq(freq)
         if last_timestamp is None:
             last_timestamp = self.data.time.max()
-        fcsts = self._predict(
-            steps, method=method, origin_fcst=origin_fcst, fcst_levels=fcst_levels
-        )
         ans = {}
         for elm in fcsts:
             tmp = {}
-- 
2.43.0


From 3ea22d71391fdef72686f065c72ac8fe7bf45edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 42/64] fix: TemporalHierarchicalModel does not make up
 forecasts that a level was not given

---
 kats/models/reconciliation/thm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index 589be3f..5c95895 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -342,7 +342,6 @@ class TemporalHierarchicalModel:
         levels = self.levels
         level_freq = self.freq
         h = int(np.ceil(steps / m))
-        hf = steps // m
         orig_fcst = {}
         models = self.models
         # generate forecasts for each level
@@ -359,11 +358,10 @@ class TemporalHierarchicalModel:
             else:
                 fcst_num = len(self.info_fcsts[k])
                 if fcst_num < num:
-                    if fcst_num >= hf * level_freq[k]:
-                        # since the final output only needs hf*freq[k] forecasts
+                    if fcst_num >= steps // k:
+                        # since the final output only needs steps // k forecasts
                         # for level k, we pad the forecast array to desirable
-                        # length. (note that the padding values would be ignored
-                        # in the final output.)
+                        # length.
                         orig_fcst[k] = np.concatenate(
                             [
                                 self.info_fcsts[k],
@@ -376,7 +374,7 @@ class TemporalHierarchicalModel:
                         orig_fcst[k] = self.info_fcsts[k]
                     else:
                         msg = (
-                            f"{hf * level_freq[k]} steps of forecasts for level {k} are"
+                            f"{steps // k} steps of forecasts for level {k} are"
                             f" needed, but only receive {fcst_num} steps (and "
                             "forecast model is None)."
                         )
-- 
2.43.0


From 664ea9e050608b13758640678b215f5b48c2f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 43/64] fix: ML-AR denormalization did not undo normalization
 with use_default_min

---
 kats/models/ml_ar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index ea46094..6eb5ea3 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -82,10 +82,9 @@ def denormalize(
     """Denormalization applied to the target `pd.DataFrame`."""
 
     if use_default_min:
-        x = x - default_min
-        normalizer = normalizer - default_min
+        normalizer = normalizer + default_min
         if normalizer2 is not None:
-            normalizer2 = normalizer2 - default_min
+            normalizer2 = normalizer2 + default_min
 
     if sub_div == "sub":
         norm_data = x.add(normalizer, axis=0)
@@ -95,6 +94,9 @@ def denormalize(
         norm_data = (x.mul(normalizer2, axis=0)).add(normalizer, axis=0)
     else:
         raise ValueError(f"`sub_dive` method {sub_div} is invalid.")
+
+    if use_default_min:
+        norm_data = norm_data - default_min
     # pyrefly: ignore [bad-return]
     return norm_data
 
-- 
2.43.0


From 3e79c7aa8d53527e850c4ffce0ee2c7e1becadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 44/64] fix: ML-AR lost monthly data at month starts and
 default features of anchored frequencies

---
 kats/models/ml_ar.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index 6eb5ea3..a485e80 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -422,12 +422,22 @@ class MLARModel:
                 msg = f"Fail to infer data frequency. Please specify `freq` in `MLARParams`. Got {freq}."
                 logging.error(msg)
                 raise ValueError(msg)
-            elif freq in {"BM", "CBM", "MS", "BMS", "CBMS"}:
-                freq = "M"
-            elif freq in {"BQ", "QS", "BQS"}:
-                freq = "Q"
-            elif freq in {"A", "BA", "BY", "AS", "YS", "BAS", "BYS"}:
-                freq = "Y"
+        return freq
+
+    @staticmethod
+    def _base_freq(freq: Optional[str]) -> Optional[str]:
+        """Map a (possibly anchored) frequency to the one its default features are defined for."""
+        if freq is None:
+            return None
+        freq = freq.split("-")[0]
+        if freq in {"BM", "CBM", "MS", "BMS", "CBMS"}:
+            return "M"
+        elif freq in {"BQ", "QS", "BQS"}:
+            return "Q"
+        elif freq in {"A", "BA", "BY", "AS", "YS", "BAS", "BYS"}:
+            return "Y"
+        elif freq == "T":
+            return "min"
         return freq
 
     def _check_single_ts(self, data: TimeSeriesData) -> pd.DataFrame:
@@ -715,6 +725,7 @@ class MLARModel:
 
     def _generate_auto_calendar_feature(self, freq: Optional[str]) -> List[str]:
         """Generate default calendar featureas based on data frequency."""
+        freq = self._base_freq(freq)
         calendar_features = []
         if freq == "Q":
             calendar_features = ["year"]
@@ -750,6 +761,7 @@ class MLARModel:
         self, freq: Optional[str]
     ) -> Tuple[List[int], List[int], int]:
         """Generate default fourier featureas based on data frequency."""
+        freq = self._base_freq(freq)
         if freq == "W":
             fperiod = [365]
             forder = [7]
-- 
2.43.0


From ed5aef5f280f31db4b5e39ef53206de12944389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 45/64] fix: iterating an ML-AR model not trained for one step
 never ended

---
 kats/models/ml_ar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index a485e80..04afe0b 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -1360,6 +1360,11 @@ class MLARModel:
             i = 1
             iterate_horizons = np.setdiff1d(steps, horizons)
 
+            if len(iterate_horizons) != 0 and cont_steps_in_hor < 1:
+                msg = f"Cannot forecast steps {list(iterate_horizons)}: iterating needs a model trained for 1-step."
+                logging.error(msg)
+                raise ValueError(msg)
+
             while len(iterate_horizons) != 0:
                 # pyre-fixme
                 self._predict(fill_missing=True, new_data=forecast_result)
-- 
2.43.0


From 1898e82ee3344cc034d62d68702a36b99fc4ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 46/64] fix: ML-AR lacked calendar features of target times
 when the last target values are missing

---
 kats/models/ml_ar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index 04afe0b..19a7cf2 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -515,7 +515,10 @@ class MLARModel:
             # add forecast timestamps
             timestamps.update(
                 # pyre-fixme
-                [curr_series_data.index[-1] + offset * i for i in self.params.horizon]
+                [
+                    curr_series_data.index[-1] + offset * i
+                    for i in range(1, self.params.max_horizon + 1)
+                ]
             )
         return data_dict, timestamps
 
-- 
2.43.0


From 8d49ab8f37377f51945ac972e28c0ca18a41192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 47/64] fix: ML-AR lost the categories of a series at gaps and
 in iterated forecasts

---
 kats/models/ml_ar.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index 19a7cf2..d3dd377 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -464,6 +464,9 @@ class MLARModel:
             freq=self.params.freq,
         )
         curr_series_data = curr_series_data.reindex(idx, fill_value=np.nan)
+        # categoricals are constant per series
+        for cat in self.params.categoricals:
+            curr_series_data[cat] = curr_series_data[cat].ffill().bfill()
 
         return curr_series_data
 
@@ -1244,6 +1247,12 @@ class MLARModel:
 
                     in_window.update(curr_new_data, overwrite=True)
 
+            # categoricals are constant per series, forecasts come without them
+            for cat in self.params.categoricals:
+                in_window[cat] = (
+                    in_window[cat].ffill().bfill().fillna(in_data[cat].iloc[0])
+                )
+
             new_data_dict[curr_series] = TimeSeriesData(
                 in_window.reset_index(),
                 time_col_name="index",
-- 
2.43.0


From b1cf3376579eba9d7c71c858ba73c2206a1bbcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 48/64] fix: ML-AR took the logarithm of its stored data, so
 forecasts used it twice

---
 kats/models/ml_ar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index d3dd377..b0126ba 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -645,6 +645,7 @@ class MLARModel:
         max_lags = self.params.max_lags
         # Transform the data
         if self.params.transform_data == "log":
+            data = data.copy()
             data[target_vars] = np.log(data[target_vars])
 
         # Get time stamps
-- 
2.43.0


From 81a00701b586cade286a6a4357d46daf9d3497f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 49/64] fix: interval detector overwrote the variances and
 extended the history of its caller

---
 kats/detectors/interval_detector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index ad048b9..3c8f199 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -38,6 +38,7 @@ Typical usage example:
 
 from __future__ import annotations
 
+import copy
 import itertools
 import json
 import logging
@@ -607,9 +608,11 @@ class IntervalDetectorModel(DetectorModel, ABC):
         """
         self.data = None
         self.schema._validate_data(pd.DataFrame(data.value))
+        # The variances of the stored data are overwritten by the test below.
         if historical_data is None:
-            self.data = data
+            self.data = copy.deepcopy(data)
         else:
+            historical_data = copy.deepcopy(historical_data)
             historical_data.extend(data, validate=False)
             self.data = historical_data
         assert self.data is not None
-- 
2.43.0


From 4b25c5735b7900432acb1a66f55daf0da8b4b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 50/64] fix: interval detector kept the intervals of an earlier
 call when not consolidating

---
 kats/detectors/interval_detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index 3c8f199..c63c5e1 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -633,6 +633,8 @@ class IntervalDetectorModel(DetectorModel, ABC):
         #       (2) duration
         #   If the user wishes to do this manually, this step can also be bypassed,
         #   returning just the raw test statistics without any critical_value or duration applied.
+        self.reject_intervals = None
+        self.fail_to_reject_intervals = None
         if consolidate_into_intervals:
             self.reject_intervals = self._get_intervals(
                 time=_data.time,
-- 
2.43.0


From 3747cf9effae3f53c489082ca2c466e395070299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 51/64] fix: interval detector determines its automatic
 duration for each call

---
 kats/detectors/interval_detector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index c63c5e1..7fd42d1 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -405,6 +405,7 @@ class IntervalDetectorModel(DetectorModel, ABC):
     _alpha: Optional[float] = None
     _corrected_alpha: Optional[float] = None
     _duration: Optional[int] = None
+    _automatic_duration: bool = True
     _test_statistic: Optional[TestStatistic] = None
     _test_type: Optional[TestType] = None
     data: Optional[TimeSeriesData] = None
@@ -501,6 +502,7 @@ class IntervalDetectorModel(DetectorModel, ABC):
         if duration is not None and duration <= 0:
             raise ValueError(f"duration must be > 0. Found {duration}.")
         self._duration = duration
+        self._automatic_duration = duration is None
 
     @property
     def anomaly_intervals(self) -> List[ABInterval]:
@@ -702,7 +704,7 @@ class IntervalDetectorModel(DetectorModel, ABC):
         Returns:
             Critical value used for determing whether to reject or fail to reject the null hypothesis.
         """
-        if self.duration is None:
+        if self._automatic_duration:
             # Use self.alpha and length to determine best duration
             # and also adjust alpha for the critical_value calculation.
             lowest_m = self._get_lowest_m(
@@ -714,6 +716,8 @@ class IntervalDetectorModel(DetectorModel, ABC):
                 + f"\ncorrected_alpha set to {lowest_m.p}"
             )
             self.duration = lowest_m.m
+            # Later calls determine their own duration from their own length.
+            self._automatic_duration = True
             self.corrected_alpha = lowest_m.p
         else:
             # With duration and length fixed, determine an adjusted Type-I error
-- 
2.43.0


From 2fbef540318e4f15368f28c51714a23033485ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 52/64] fix: STLFParams refuses an unknown decomposition also
 with method_params

---
 kats/models/stlf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/models/stlf.py b/kats/models/stlf.py
index 7ff9580..8e04bf2 100644
--- a/kats/models/stlf.py
+++ b/kats/models/stlf.py
@@ -142,10 +142,10 @@ class STLFParams(Params):
                 assert self.method == "quadratic"
                 self.method_params = quadratic_model.QuadraticModelParams()
 
-            if self.decomposition not in ["additive", "multiplicative"]:
-                msg = "decomposition can be only `additive` or `multiplicative` strings"
-                logging.error(msg)
-                raise ValueError(msg)
+        if self.decomposition not in ["additive", "multiplicative"]:
+            msg = "decomposition can be only `additive` or `multiplicative` strings"
+            logging.error(msg)
+            raise ValueError(msg)
 
 
 class STLFModel(Model[STLFParams]):
-- 
2.43.0


From 343f2a54cf6f7a4f103ee2089b764504fc2c4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 53/64] fix: STLF passes the freq it is given to its
 forecasting model

---
 kats/models/stlf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/models/stlf.py b/kats/models/stlf.py
index 8e04bf2..026916d 100644
--- a/kats/models/stlf.py
+++ b/kats/models/stlf.py
@@ -340,7 +340,9 @@ class STLFModel(Model[STLFParams]):
         self.alpha = kwargs.get("alpha", 0.05)
 
         # trend forecast
-        fcst = model.predict(steps=steps, include_history=include_history)
+        fcst = model.predict(
+            steps=steps, include_history=include_history, freq=self.freq
+        )
 
         # re-seasonalize
         m = self.params.m
-- 
2.43.0


From 7918051df8c1404731fc5b8da37369b1c72d3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 54/64] fix: STLF seasonality of the history and of the steps
 after it with include_history

---
 kats/models/stlf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kats/models/stlf.py b/kats/models/stlf.py
index 026916d..8263b03 100644
--- a/kats/models/stlf.py
+++ b/kats/models/stlf.py
@@ -348,7 +348,12 @@ class STLFModel(Model[STLFParams]):
         m = self.params.m
         rep = math.trunc(1 + fcst.shape[0] / m)
 
-        seasonality = decomp["seasonal"].value[-m:]
+        # the last cycle repeats after the data, the data has its own seasonality
+        seasonal = np.asarray(decomp["seasonal"].value)
+        seasonality = np.tile(seasonal[-m:], rep)
+        if include_history:
+            seasonality = np.concatenate((seasonal, seasonality))
+        seasonality = seasonality[: fcst.shape[0]]
 
         self.y_fcst = self.reseasonal_operator(
             # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame, Series]`
@@ -356,7 +361,7 @@ class STLFModel(Model[STLFParams]):
             fcst.fcst,
             # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame, Series]`
             #  but got `ndarray[Any, dtype[Any]]`.
-            np.tile(seasonality, rep)[: fcst.shape[0]],
+            seasonality,
         )
         if ("fcst_lower" in fcst.columns) and ("fcst_upper" in fcst.columns):
             self.fcst_lower = self.reseasonal_operator(
@@ -365,7 +370,7 @@ class STLFModel(Model[STLFParams]):
                 fcst.fcst_lower,
                 # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame,
                 #  Series]` but got `ndarray[Any, dtype[Any]]`.
-                np.tile(seasonality, rep)[: fcst.shape[0]],
+                seasonality,
             )
             self.fcst_upper = self.reseasonal_operator(
                 # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame,
@@ -373,7 +378,7 @@ class STLFModel(Model[STLFParams]):
                 fcst.fcst_upper,
                 # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame,
                 #  Series]` but got `ndarray[Any, dtype[Any]]`.
-                np.tile(seasonality, rep)[: fcst.shape[0]],
+                seasonality,
             )
         logging.info("Generated forecast data from STLF model.")
         logging.debug("Forecast data: {fcst}".format(fcst=self.y_fcst))
-- 
2.43.0


From 51688ec416c63eb78627f9f1683265aef624f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 55/64] fix: pooled chains of the ensemble prediction interval
 repeated the same random draws

---
 kats/utils/ensemble_predict_interval.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kats/utils/ensemble_predict_interval.py b/kats/utils/ensemble_predict_interval.py
index 970be60..b803480 100644
--- a/kats/utils/ensemble_predict_interval.py
+++ b/kats/utils/ensemble_predict_interval.py
@@ -224,11 +224,17 @@ class ensemble_predict_interval:
         self.error_matrix_flag = True
 
     def _projection_single(
-        self, idx: int, step: int = 30, rolling_based: bool = False
+        self,
+        idx: int,
+        step: int = 30,
+        rolling_based: bool = False,
+        seed: Optional[int] = None,
     ) -> Tuple[int, npt.NDArray]:
         """
         Get forecasting for future steps for one chain.
         """
+        if seed is not None:
+            np.random.seed(seed)
         future_block = step // self.block_size + int(step % self.block_size > 0)
 
         onechain_fcst = np.zeros(future_block * self.block_size)
@@ -289,7 +295,12 @@ class ensemble_predict_interval:
         ensemble_fcst = np.zeros([self.ensemble_size, step])
         if self.multiprocessing:
             num_process = max(min(self.ensemble_size, (cpu_count() - 1) // 2), 1)
-            ipt_list = [[i, step, rolling_based] for i in range(self.ensemble_size)]
+            # every worker process starts with the same random state
+            seeds = np.random.randint(0, 2**31 - 1, size=self.ensemble_size)
+            ipt_list = [
+                [i, step, rolling_based, int(seeds[i])]
+                for i in range(self.ensemble_size)
+            ]
             with Pool(processes=num_process) as pool:
                 records = pool.starmap(self._projection_single, ipt_list)
                 pool.close()
-- 
2.43.0


From 0ae2959fa91a230595c7be976b029cbbec7bf606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 56/64] fix: DTWCPDDetector.detector repeated its change points
 when called again

---
 kats/detectors/dtwcpd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/dtwcpd.py b/kats/detectors/dtwcpd.py
index 88b5136..91dc888 100644
--- a/kats/detectors/dtwcpd.py
+++ b/kats/detectors/dtwcpd.py
@@ -151,6 +151,7 @@ class DTWCPDDetector(Detector):
         """
 
         logging.info("Starting detection...")
+        self.outliers = []
         # We first downsample the time series and only consider non-zero
         # sub-sequences to reduce the computational complexity of the problem.
         all_non_flats_ts = self._get_all_nonzero_subsequences()
-- 
2.43.0


From 69532fd83e5ea32f36eae9bd5370bfe4e56d9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 57/64] fix: DTWCPDDetector raised for sliding windows of one
 or two points

---
 kats/detectors/dtwcpd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/dtwcpd.py b/kats/detectors/dtwcpd.py
index 91dc888..36246b0 100644
--- a/kats/detectors/dtwcpd.py
+++ b/kats/detectors/dtwcpd.py
@@ -291,6 +291,8 @@ class DTWCPDDetector(Detector):
                 ) in ts2list_of_non_zero_subsequences.items():
                     if (ts_name_a != ts_name_b) or self.match_against_same_time_series:
                         for indb, subsequence_b in subsequences_b.items():
+                            # windows of less than three points still need a band
+                            band = max(int(len(subsequence_b) / 3), 1)
                             # If it's the same time series (and we allow matching - above)
                             # Then they subsequences better not overlap - or we will
                             # obviously match.
@@ -309,14 +311,14 @@ class DTWCPDDetector(Detector):
                                 self.LB_Keogh(
                                     subsequence_a,
                                     subsequence_b,
-                                    int(len(subsequence_b) / 3),
+                                    band,
                                 )
                                 < bsf
                             ):
                                 dtw_distance = self.DTWDistance(
                                     subsequence_a,
                                     subsequence_b,
-                                    int(len(subsequence_b) / 3),
+                                    band,
                                 )
                                 if dtw_distance < bsf:
                                     bsf = dtw_distance
-- 
2.43.0


From e59699808eee9adea4944425f90149aa1be7b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 58/64] fix: ARIMA forecast limits ignored alpha

---
 kats/models/arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/arima.py b/kats/models/arima.py
index 8353cbd..94ede1a 100644
--- a/kats/models/arima.py
+++ b/kats/models/arima.py
@@ -264,7 +264,7 @@ class ARIMAModel(Model[ARIMAParams]):
             steps,
             exog=self.fcst_exog,
             signal_only=False,
-        ).summary_frame()
+        ).summary_frame(alpha=self.alpha)
         logging.info("Generated forecast data from arima model.")
 
         self.y_fcst = fcst["mean"].ravel()
-- 
2.43.0


From ad92e6aa9f89100ceab450b59d02c67fe64c6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 59/64] fix: Holt-Winters forecasts with empirical limits
 ignored freq

---
 kats/models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/holtwinters.py b/kats/models/holtwinters.py
index 36b5ece..5cbba0f 100644
--- a/kats/models/holtwinters.py
+++ b/kats/models/holtwinters.py
@@ -205,7 +205,7 @@ class HoltWintersModel(Model[HoltWintersParams]):
                 f"test_percentage = {test_percentage}, sliding_steps = "
                 f"{sliding_steps}, confidence_level = {1 - alpha}, multi={multi}."
             )
-            fcst = eci.get_eci(steps=steps)
+            fcst = eci.get_eci(steps=steps, freq=kwargs.get("freq", "D"))
             self.y_fcst = fcst["fcst"]
         else:
             fcst = model.forecast(steps)
-- 
2.43.0


From ae58e0408247942ea5d35baf20d63190a2dd2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 60/64] fix: SARIMA limits of the history ignored alpha

---
 kats/models/sarima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/sarima.py b/kats/models/sarima.py
index 53ba538..aa81d15 100644
--- a/kats/models/sarima.py
+++ b/kats/models/sarima.py
@@ -366,7 +366,7 @@ class SARIMAModel(Model[SARIMAParams]):
         if include_history:
             # generate historical fit
             history_fcst = model.get_prediction(0)
-            history_ci = history_fcst.conf_int()
+            history_ci = history_fcst.conf_int(alpha=self.alpha)
             if ("lower" in history_ci.columns[0]) and (
                 "upper" in history_ci.columns[1]
             ):
-- 
2.43.0


From d72e54b93c709e69c9ba22f45cd6057296a211d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 61/64] fix: SARIMA blanked forecasts when the history is
 shorter than the burn-in

---
 kats/models/sarima.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/models/sarima.py b/kats/models/sarima.py
index aa81d15..db2af87 100644
--- a/kats/models/sarima.py
+++ b/kats/models/sarima.py
@@ -406,6 +406,8 @@ class SARIMAModel(Model[SARIMAParams]):
                 + 1
             )
 
+            # only the historical fit, never the forecasts
+            k = min(k, len(history_fcst.predicted_mean) - 1)
             fcst_df.loc[0:k, ["fcst", "fcst_lower", "fcst_upper"]] = np.nan
         else:
             self.fcst_df = fcst_df = pd.DataFrame(
-- 
2.43.0


From e776ff9d5cae30a7b057315a6ec5b5970a7a7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 62/64] fix: VARModel.fit stored the default maxlags of its
 data in the params

---
 kats/models/var.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/models/var.py b/kats/models/var.py
index 4586bea..0061f9d 100644
--- a/kats/models/var.py
+++ b/kats/models/var.py
@@ -104,9 +104,10 @@ class VARModel(Model[VARParams]):
         """Fit VAR model"""
 
         logging.debug("Call fit()")
-        if self.params.maxlags is None:
+        maxlags = self.params.maxlags
+        if maxlags is None:
             # pyre-fixme[16]: `Optional` has no attribute `time`.
-            self.params.maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
+            maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
 
         # create VAR model
         # pyre-fixme[16]: `Optional` has no attribute `value`.
@@ -115,7 +116,7 @@ class VARModel(Model[VARParams]):
 
         # fit VAR model
         self.model = model = var.fit(
-            maxlags=self.params.maxlags,
+            maxlags=maxlags,
             method=self.params.method,
             ic=self.params.ic,
             verbose=self.params.verbose,
-- 
2.43.0


From baa2361ec1625aa87205a1b186b715883906bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 63/64] fix: BayesianVAR.predict with history added its
 forecasts to the history

---
 kats/models/bayesian_var.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/models/bayesian_var.py b/kats/models/bayesian_var.py
index 145eadf..05a571e 100644
--- a/kats/models/bayesian_var.py
+++ b/kats/models/bayesian_var.py
@@ -411,8 +411,9 @@ class BayesianVAR(m.Model[BayesianVARParams]):
 
         if include_history:
             times = self.data.time.iloc[self.p : T].tolist()
-            forecast_vals = self.forecast_vals
-            assert forecast_vals is not None
+            assert self.forecast_vals is not None
+            # a copy, the forecasts are not part of the history
+            forecast_vals = list(self.forecast_vals)
         else:
             times = []
             forecast_vals = []
-- 
2.43.0


From 48dae2a57ff5b9295985657094f3176e07c41965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 64/64] fix: BayesianVAR forecasts jumped in the time index

---
 kats/models/bayesian_var.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/models/bayesian_var.py b/kats/models/bayesian_var.py
index 05a571e..76e8338 100644
--- a/kats/models/bayesian_var.py
+++ b/kats/models/bayesian_var.py
@@ -431,7 +431,10 @@ class BayesianVAR(m.Model[BayesianVARParams]):
 
             ahead_time = X_ahead[np.newaxis, :, -1]
             for step, time in zip(range(T, T + steps), ahead_times):
-                X_ahead = np.concatenate([X_ahead, ahead_time + step], axis=1)
+                # the time index goes on from the last one of the data
+                X_ahead = np.concatenate(
+                    [X_ahead, ahead_time + (step - T + 1)], axis=1
+                )
                 look_ahead_pred = self._look_ahead_step(X_ahead, Y_curr)
 
                 if verbose:
-- 
2.43.0

