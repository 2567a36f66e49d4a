T = "kats/tests/"
prop("C01", "Building a series keeps times sorted and values attached to their times",
     "A series built from a frame, a pair of columns or a time index lists its rows in ascending time order with every value still attached to the time stamp it came with, or in the given order when sorting is switched off. Repeated time stamps are dropped, keeping the first, exactly when asked; the caller's objects are never modified; mismatching lengths, non-numeric values and missing columns are refused. The recorded minimum and maximum are the extremes of the present values and follow every later assignment of values.",
     ["inputs", "configurations"], "All row orders and (possibly repeated) day offsets of 3-4 rows, arbitrary real values, every construction route.",
     "Tests build a handful of fixed frames; row orders, duplicates and values are sampled, never quantified.",
     ["kats/consts.py"], [("sorting and extraction", "kats/consts.py:TimeSeriesData.__init__"), ("min/max upkeep", "kats/consts.py:TimeSeriesData.value setter")],
     note="Bounds: 3-4 rows, 1-2 columns, day grid 0..2 (0..5 for parsed times).")
prop("C02", "Selecting, extending, excluding, comparing and filling series is exact",
     "Slicing, column selection, excluding a closed time range, appending another series, iterating, converting to a frame and back and comparing series return exactly the rows and values the operation names, with times and values paired and minimum/maximum refreshed, and never change the other operand. Filling missing times keeps every original point and inserts the linear, previous or next value as chosen, and the robust frequency is a most frequent gap. Interval records require start before end and a confidence within [0,1]; point records are equal exactly when their content is, and equal ones hash alike.",
     ["inputs", "histories"], "All slice bounds, ranges and gaps on up to 5 rows, arbitrary real values.",
     "Tests check a few fixed slices and ranges of the air passengers data.",
     ["kats/consts.py"], [("row selection", "kats/consts.py:TimeSeriesData.__getitem__"), ("range removal", "kats/consts.py:TimeSeriesData.exclude"), ("append", "kats/consts.py:TimeSeriesData.extend"), ("equality", "kats/consts.py:TimeSeriesData.__eq__"), ("gap filling", "kats/consts.py:TimeSeriesData.interpolate")],
     note="Bounds: at most 6 rows, gaps of 1-3 days.")
prop("C03", "Arithmetic on series is pointwise by time stamp and column",
     "Adding, subtracting, multiplying or dividing two series with the same times gives, at each time and for each column name they share, the result of that operation on the two values, whatever row order each operand was built from; with a plain number the number is applied at every time. Columns present on one side only become missing, operands are left unchanged, the left operand's time column name is kept, a zero divisor yields a non-finite point only where it occurs, and operands with different times or of another type are refused.",
     ["inputs"], "All real values on 2-3 time stamps, several row orders, uni- and multivariate, real and integer constants.",
     "Tests use a few constant series; no test quantifies over values, column overlap and row order together.",
     ["kats/consts.py"], [("join on time and per-column operation", "kats/consts.py:TimeSeriesData._perform_op")],
     note="Bounds: 2-3 rows, up to 3 columns a side.")
prop("C04", "Forecast error metrics follow their formulas",
     "The point-forecast error metrics (residuals, absolute, squared, percentage, symmetric, scaled and log errors, their means, medians and root means, tracking signal, weighted and multi-output versions) equal their definitions for all true and predicted values, agree between function, short name and look-up, leave their inputs untouched, skip missing values in mean and median errors, refuse different lengths, are undefined on empty data, and stay inside the range their metadata declares. Division by a zero true value counts as +1, -1 or 0 by the numerator's sign; absolute versions are never negative.",
     ["inputs", "configurations"], "All real true and predicted values (zero, negative and equal ones included) and positive weights of 1-3 points.",
     "Tests compare a few fixed vectors with expected numbers; negative and zero true values are not covered.",
     ["kats/metrics/metrics.py", "kats/metrics/metadata.py"], [("error primitives", "kats/metrics/metrics.py:_err, _abs_err, _pct_err, _abs_pct_err"), ("documented zero division", "kats/metrics/metrics.py:_safe_divide"), ("look-up", "kats/metrics/metrics.py:metric, core_metric"), ("declared bounds", "kats/metrics/metadata.py:inspect")],
     note="Bounds: 1-3 points (2x2 multi-output), values in [-1000,1000].")
prop("C05", "Quantile, interval and probability metrics follow their formulas",
     "Pinball loss, exceed rates (single and several levels), interval coverage, interval (Winkler) score, their per-point and rolling versions, the probability-space losses (LEPS, CRPS) and the relative threshold frequency equal their definitions for all true values, forecasts, interval bounds and quantile levels. Pinball loss is never negative, coverage is a fraction in [0,1] counting both interval ends as inside, and quantile levels outside [0,1] or forecasts with a wrong layout are refused.",
     ["inputs", "configurations"], "All real values, bounds and levels of 1-4 points.",
     "Tests use one or two fixed vectors per metric, so ties, inverted bounds and edge levels are unsampled.",
     ["kats/metrics/metrics.py"], [("pinball", "kats/metrics/metrics.py:pinball_loss"), ("exceed", "kats/metrics/metrics.py:exceed, mult_exceed"), ("interval metrics", "kats/metrics/metrics.py:coverage, interval_score, mult_interval_score"), ("cdf distance", "kats/metrics/metrics.py:leps, crps")],
     note="Bounds: 1-4 points, rolling windows 2-3.")
prop("C06", "Data partitions split each series into the rows asked for",
     "Every data partition returns, for one series, a list or a dictionary of series (keys and order kept, sequential or pooled alike), training rows followed by test rows that are exactly the rows its size, fraction or timestamp rule names, each on its own length: no row is altered, repeated or invented, training rows precede test rows with the configured gap, rolling folds move forward in even steps, keep their sizes and the last one ends at the end of the data. Timestamp bounds are inclusive. Fractions, sizes, fold counts, bounds, core counts and inputs outside the documented ranges are refused.",
     ["inputs", "configurations"], "Every fraction (real), size, fold count and timestamp bound on series of up to 6 rows.",
     "Tests use three fixed datasets and fixed fractions.",
     ["kats/utils/datapartition.py"], [("fraction/size split", "kats/utils/datapartition.py:SimpleDataPartition"), ("timestamps", "kats/utils/datapartition.py:SimpleTimestampDataPartition"), ("rolling origin", "kats/utils/datapartition.py:RollingOriginDataParition"), ("containers and pools", "kats/utils/datapartition.py:DataPartitionBase.split")],
     note="Bounds: up to 6 rows, 3 folds; thread pools are replaced by a sequential stand-in.")
prop("C07", "Backtests train only on rows before the test rows",
     "For every percentage, window and fold setting, each backtest fold trains the model on exactly the configured leading (or sliding) rows and scores it on the configured rows that follow, after skipping the window in the fixed-window case: the model never sees a test row, test values and forecasts are aligned, sizes are the floored percentages, folds move forward evenly with the last one ending at the end of the data, and the aliases, cross validation and pooled runs agree with the sequential class. Impossible percentages, sizes and unknown errors are refused and the data is left untouched.",
     ["inputs", "configurations", "schedules"], "Every percentage (real), 1-4 folds, series of up to 6 rows with arbitrary values, sequential and pooled.",
     "Tests use one series with fixed percentages and compare against recorded folds.",
     ["kats/utils/backtesters.py"], [("fold construction", "kats/utils/backtesters.py:_create_train_test_splits, _return_fold_offsets, _get_absolute_size"), ("train/predict", "kats/utils/backtesters.py:BackTesterParent._create_model")],
     note="Bounds: up to 6 rows, 4 folds; the model is a recording stub; process pools are replaced by a sequential stand-in.")
prop("C08", "Backtest errors aggregate fold errors correctly",
     "The error a backtester reports is the chosen metric of test values against forecasts, combined over folds by their number of test rows; raw errors are value minus forecast. The generic backtester runs every fold once in order, reports each fold's metric, averages (or size-weights) over the folds that worked, substitutes the error score for a failed fold, keeps raw and fold results only when asked, and refuses to report when every fold failed, nothing was run, a scorer is unknown or truth and forecast do not match in length.",
     ["inputs", "faults"], "Arbitrary values and forecasts, every choice of failing folds among up to 3 folds.",
     "Tests mock the models with fixed forecasts and never fail individual folds.",
     ["kats/utils/backtesters.py"], [("weighted errors", "kats/utils/backtesters.py:BackTesterParent.calc_error"), ("summary", "kats/utils/backtesters.py:GenericBacktester._summarize, _get_fold_errors")],
     note="Bounds: up to 3 folds of 1-3 rows; forecasters are stubs.")
prop("C09", "Interval statistics and percentage change follow their formulas",
     "A change-point interval holds exactly the rows with start <= time < end, also after extension, and reports their mean, sample variance and spikes (points at least the threshold of deviations above the mean). A percentage change reports ratio, change, direction, mean difference, pooled t score (corrected or not, clipped below the minimum change), two-sided p-value in [0,1], t-based limits centred on the previous mean, and delta-method limits centred on the ratio that decide significance; several series are handled per column with Benjamini-Hochberg adjusted p-values that keep the sign of the change.",
     ["inputs", "configurations"], "Arbitrary real values of 1-4 points a side, all interval bounds.",
     "Tests compare single fixed examples with recorded numbers.",
     ["kats/detectors/detector_consts.py"], [("rows of the interval", "kats/detectors/detector_consts.py:ChangePointInterval.data"), ("t test", "kats/detectors/detector_consts.py:PercentageChange._ttest_manual, _pooled_stddev"), ("limits", "kats/detectors/detector_consts.py:PercentageChange._delta_method")],
     note="Bounds: 1-4 points a side. Distribution functions are uninterpreted functions with their mathematical contract; counterexamples are refined with true values.")
prop("C10", "Anomaly responses slide, update and extend all components together",
     "Updating an anomaly response appends one point and drops the oldest in every component it has; in-place update changes the values at the given time only; taking the last n points keeps exactly the newest n of every component and leaves the original alone; extending appends the other response to each component and refuses a component present on one side only. Absent components stay absent and no component gets another one's values.",
     ["histories", "inputs"], "Every combination of present components, arbitrary values.",
     "Tests check fixed responses with all components present.",
     ["kats/detectors/detector_consts.py"], [("slide", "kats/detectors/detector_consts.py:AnomalyResponse.update"), ("in place", "kats/detectors/detector_consts.py:AnomalyResponse.inplace_update"), ("tail", "kats/detectors/detector_consts.py:AnomalyResponse.get_last_n"), ("append", "kats/detectors/detector_consts.py:AnomalyResponse.extend")],
     note="Bounds: 2-4 points.")
prop("C11", "CUSUM reports the mean-shift split and decides it by the stated tests",
     "For each asked direction the CUSUM detector returns the split its iteration settles on, strictly inside the series (or inside the interest window, reported by its position in the whole series), with the time stamp, means before and after and their difference belonging to that split. Its log likelihood ratio is that of two levels against one and the p-value its chi-square tail. A change is reported exactly when it is significant (inside the window as well), goes in the asked direction by more than the minimum change, exceeds the asked number of deviations, and passes the magnitude comparison when one is asked. Adding a constant moves only the means, negating swaps the directions, the vectorized detector agrees with the univariate one in every column, and unknown directions or multivariate input are refused.",
     ["inputs", "configurations"], "Arbitrary real values on 4-7 points, all directions, windows, start points and thresholds listed.",
     "Tests use seeded random series with one clear change; ties, flat pieces, windows and column mixes are unsampled.",
     ["kats/detectors/cusum_detection.py"], [("split iteration", "kats/detectors/cusum_detection.py:CUSUMDetector._get_change_point"), ("likelihood ratio", "kats/detectors/cusum_detection.py:CUSUMDetector._get_llr, _log_llr"), ("decision", "kats/detectors/cusum_detection.py:CUSUMDetector.detector"), ("magnitude", "kats/detectors/cusum_detection.py:CUSUMDetector._magnitude_compare"), ("vectorized", "kats/detectors/cusum_detection.py:VectorizedCUSUMDetector.detector_"), ("multivariate", "kats/detectors/cusum_detection.py:MultiCUSUMDetector.detector")],
     note="Bounds: 4-7 points; likelihoods over one-parameter families of series; log and chi-square functions are uninterpreted with contracts.")
prop("C12", "Simple forecasting models follow their definitions",
     "The linear and quadratic models forecast the least-squares line or parabola through the data, evaluated at the following steps (at every step from the first row on when history is included), with limits that are the two-sided prediction interval at the declared level. The simple heuristic model forecasts, for each position of the horizon, the last value, mean, median or percentile of the values at that position in the trailing whole blocks of the data, and repeats the data when history is included; unknown methods and percentiles outside 0..100 are refused. The theta model adds half of the least-squares slope, times step plus (1-(1-a)^n)/a, to the exponential smoothing forecast of the deseasonalised series, multiplies by the seasonal factor of that future step, and widens its limits step by step. Harmonic regression forecasts the least-squares combination of the first harmonics of the period. Every forecast frame lists exactly the requested steps after the last time at the data's frequency.",
     ["inputs", "configurations"], "All real values on 3-7 rows (parametrised series up to 12, thorough 30), horizons 1-5, daily/hourly/weekly/monthly data, history on or off, two interval levels.",
     "Tests compare one forecast of one dataset with recorded numbers; one-step horizons, horizons that do not divide the data and seasonal phase are unsampled.",
     ["kats/models/linear_model.py", "kats/models/quadratic_model.py", "kats/models/simple_heuristic_model.py", "kats/models/theta.py", "kats/models/harmonic_regression.py"],
     [("least squares forecast", "kats/models/linear_model.py:LinearModel.predict"), ("parabola", "kats/models/quadratic_model.py:QuadraticModel.predict"), ("block statistics", "kats/models/simple_heuristic_model.py:SimpleHeuristicModel.predict"), ("theta combination", "kats/models/theta.py:ThetaModel.fit, predict"), ("harmonics", "kats/models/harmonic_regression.py:HarmonicRegressionModel.fit_harmonics, predict")],
     note="Bounds: 3-12 rows, horizons 1-5. The exponential smoothing fit and the seasonal decomposition of the theta model are stubs with arbitrary outputs; OLS and curve_fit are replaced by the exact least-squares solution in the symbolic run only.")
prop("C13", "Ensembles combine their members' forecasts as declared",
     "The median ensemble forecasts, step by step, the median of its members' forecasts; the weighted ensemble their average weighted by the inverse of each member's backtest error (last fifth of the data, asked error method), normalised to one. The decomposition ensemble (KatsEnsemble) fits its members on the series with the seasonal component removed (subtracted or divided out), gives every forecast and its limits the matching phase of the last seasonal cycle back, runs seasonal members on the series itself, and combines forecasts and limits by median or inverse-error weights; without seasonality members run on the series itself. Members without limits do not enter median limits, and a weighted average over missing limits is refused, as are unknown aggregations, season lengths above half the data, and predicting before fitting. The data handed in is not changed.",
     ["inputs", "configurations"], "Arbitrary member forecasts, limits, errors, data and seasonal components of 1-4 members, 2-4 steps and 3-6 rows.",
     "Tests run a few real models on one dataset and compare recorded numbers; alignment of weights, phases and limits is not isolated.",
     ["kats/models/ensemble/ensemble.py", "kats/models/ensemble/median_ensemble.py", "kats/models/ensemble/weighted_avg_ensemble.py", "kats/models/ensemble/kats_ensemble.py"],
     [("median", "kats/models/ensemble/median_ensemble.py:MedianEnsembleModel.predict"), ("weights", "kats/models/ensemble/weighted_avg_ensemble.py:WeightedAvgEnsemble._backtester_all, predict"), ("season out and back", "kats/models/ensemble/kats_ensemble.py:KatsEnsemble.deseasonalize, reseasonalize"), ("combination", "kats/models/ensemble/kats_ensemble.py:KatsEnsemble.aggregate, forecast, predict")],
     note="Bounds: 1-4 members, 2-4 steps. Members, seasonality detection and decomposition are stand-ins with arbitrary outputs; pools run sequentially.")
prop("C14", "The CUSUM detector model alerts and scores every point from its own windows",
     "Sliding over the data in steps, the CUSUM model looks for a change in the trailing scan window against the history window before it, opens an alert at a detected change, keeps it while the following windows stay shifted, and closes it when they return to the baseline; each data point is scored once, by the step that covers it, with the chosen score function of its value against the baseline, zero outside an alert, and the anomaly magnitude, directions and adapted baselines follow the same state. Only the configured length of past data and the change points still inside it are kept. A model written out and read back continues as if it had not been interrupted; the vectorized model and its columns agree with the univariate model; the response covers exactly the data's times; data shorter than a step, windows out of order, unknown directions and unknown score functions are handled or refused as documented.",
     ["inputs", "histories", "configurations"], "Arbitrary levels and jumps on 6-12 points, all interruption points, several window/step configurations.",
     "Tests use long seeded series with one obvious change; interruptions, window edges and carried alerts are unsampled.",
     ["kats/detectors/cusum_model.py"],
     [("run over the data", "kats/detectors/cusum_model.py:CUSUMDetectorModel.fit_predict, _fit, _predict"), ("one step", "kats/detectors/cusum_model.py:CUSUMDetectorModel._if_normal, _set_alert_on, _set_alert_off, _check_window_sizes"), ("scores", "kats/detectors/cusum_model.py:CUSUMDetectorModel._predict, _zeros_ts"), ("retention", "kats/detectors/cusum_model.py:CUSUMDetectorModel.serialize; VectorizedCUSUMDetectorModel._fit, fit_predict")],
     note="Bounds: 6-12 hourly points. The change detection itself is a stand-in rule (it is decided under C11).")
prop("C15", "Rolling statistics score each point against its own window",
     "Every data point gets the chosen statistic over its own window: the w points ending at it for IQR and MAD, the w points before it for the (modified) z scores and the median deviation, times the score base; zero deviation scores zero. A window in seconds covers exactly the points of that span, missing points are simply absent, and its size and iqr_base apply on every call alike. Too little history is refused or, when allowed, the window grows up to its size. With remove_seasonality history and data are deseasonalized together first. Detection leaves the caller's series unchanged, gives the same result when repeated, and a model written out and read back has the same settings and scores; multivariate input, unknown seasonality and windows of fewer than three points are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary values on 3-6 points, windows of 2-4 points, six statistics, point and time based.",
     "Tests check response sizes and a few recorded scores; repeated calls, gaps and restored models are unsampled.",
     ["kats/detectors/rolling_stats_model.py"],
     [("windows", "kats/detectors/rolling_stats_model.py:RollingStatsModel._point_based_vectorized_data, _fit_predict_point_based"), ("time based", "kats/detectors/rolling_stats_model.py:RollingStatsModel.fit_predict"), ("statistics", "kats/detectors/rolling_stats_model.py:calculate_iqr, calculate_mad, calculate_z_scores, calculate_modified_z_scores_mad, calculate_modified_z_scores_iqr, calculate_iqr_median_deviation")],
     note="Bounds: up to 7 points, windows of 2-4. The seasonal decomposition is a stand-in with arbitrary output.")
prop("C16", "Statistical significance detectors compare the right windows for every point",
     "The stat-sig detector scores each data point by comparing the points of the last n_test time units up to it with those of the n_control units before that; points without a full pair of windows get score, magnitude and significance zero and their own value as prediction and band. Long data, scored in parallel pieces, gives the same response for every split length; with rem_season the windows hold deseasonalized values and prediction and band get the season back; the multivariate detector does the same for every column; scores-only mode reports the t statistic of the same windows. The configured minimum change, correction, adjustment method and period reach every comparison, the caller's data and history stay unchanged, the response covers exactly the data's times, a stored detector keeps all its settings, and wrong dimensions, missing sizes, bad time units and data too short to infer one are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary values on 4-8 points with gaps, eight window layouts, nine split configurations, 1-3 columns.",
     "Tests check response lengths on random data; gaps, split lengths that divide the data and restored models are unsampled.",
     ["kats/detectors/stat_sig_detector.py"],
     [("windows", "kats/detectors/stat_sig_detector.py:StatSigDetectorModel._get_start_end_dates, _update_control_test"), ("history", "kats/detectors/stat_sig_detector.py:StatSigDetectorModel._handle_not_enough_history, _should_update"), ("pieces", "kats/detectors/stat_sig_detector.py:StatSigDetectorModel._reorganize_big_data, _reorganize_back"), ("scores only", "kats/detectors/stat_sig_detector.py:StatSigDetectorModel._get_anomaly_scores_only"), ("columns", "kats/detectors/stat_sig_detector.py:MultiStatSigDetectorModel.fit_predict")],
     note="Bounds: 4-9 points, windows of 1-3 units. The window comparison is a stand-in with arbitrary linear outputs in most harnesses (the real one is decided under C09 and composed in one harness); decomposition is a stand-in.")
prop("C17", "Outlier detectors flag and score residuals as defined",
     "The univariate outlier detector judges every column on its own: the residual is the value without trend, and without season as well when the season explains at least 60% of the detrended variance; outliers are exactly the residuals beyond the quartiles by iqr_mult times their distance, and the score is the residual's position between these limits. A column that cannot be decomposed gets no outliers; irregular times are filled in daily first. Removing outliers blanks exactly them, or interpolates linearly over them. The detector model judges history and data together, answers for the data only, is fitted anew by every fit_predict, leaves the caller's series unchanged and keeps its settings when stored. The multivariate detector cleans its training span of points three or more deviations from the mean, forecasts each point one step ahead from exactly the span before it, scores each metric by its error's distance from the mean residual in deviations and the whole by the Mahalanobis distance with the chi-square p-value of its square; anomalous times are those below the asked level, anomalous metrics the top k by score; irregular data and covariances that are not positive definite are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary levels, trends and one or two free points on 5-12 rows, 1-3 columns, all listed multipliers, spans and layouts.",
     "Tests check shapes and one list of outliers of a recorded dataset; scores, strength of season, repeated calls and alignment of forecasts are unsampled.",
     ["kats/detectors/outlier.py", "kats/detectors/outlier_detector.py", "kats/detectors/detector.py"],
     [("limits and scores", "kats/detectors/outlier.py:OutlierDetector.__clean_ts__, detector"), ("removal", "kats/detectors/detector.py:Detector.remover"), ("model", "kats/detectors/outlier_detector.py:OutlierDetectorModel.fit, predict, fit_predict"), ("multivariate scores", "kats/detectors/outlier.py:MultivariateAnomalyDetector._calc_anomaly_scores, _clean_data"), ("walk", "kats/detectors/outlier.py:MultivariateAnomalyDetector.detector, _generate_forecast"), ("lookups", "kats/detectors/outlier.py:MultivariateAnomalyDetector.get_anomaly_timepoints, get_anomalous_metrics")],
     note="Bounds: 5-12 rows. The seasonal decomposition and the VAR model are stand-ins with arbitrary outputs; chi-square tails are uninterpreted with contract in the symbolic run; symbolic runs use an exact quadratic form for the Mahalanobis distance.")
prop("C18", "Mann-Kendall trend detection tests every window and reports the trends asked for",
     "The trend detector smooths the series (exponential smoothing of level 0.2, after a moving average over one season when a seasonality is named) and runs the Mann-Kendall test, at the configured significance level, on the window_size smoothed values ending at each time after the first full window; with training_days only the last time is tested, from the days before it. A significant trend whose correlation does not exceed the threshold in absolute value counts as no trend. The statistics list every test with its time, trend, p-value and correlation; the change points are exactly those with the asked direction, at their own time with confidence one minus p. With several metrics the joint test decides and each metric's own trend and correlation are kept under its name; the top metrics of a time are ranked by correlation (rising, falling or absolute, as asked). Univariate data is tested as such whatever was announced. Windows that do not fit, unknown directions, and questions before the detection are refused; the data is not changed.",
     ["inputs", "configurations"], "Arbitrary values on 4-14 points (seasonal cases up to 32), 1-3 metrics, arbitrary test results, thresholds and levels.",
     "Tests run the detector on simulated trends and count the reported points.",
     ["kats/detectors/trend_mk.py"],
     [("windows", "kats/detectors/trend_mk.py:MKDetector.detector, _preprocessing"), ("decision", "kats/detectors/trend_mk.py:MKDetector.MKtest, multivariate_MKtest, _apply_threshold"), ("selection", "kats/detectors/trend_mk.py:MKDetector.get_MK_results, _convert_detected_tps"), ("ranking", "kats/detectors/trend_mk.py:MKDetector.get_top_k_metrics, _metrics_analysis")],
     note="Bounds: 4-32 points. The Mann-Kendall tests (pymannkendall) and the exponential smoothing of statsmodels are stand-ins: arbitrary results and the exact recursion.")
prop("C19", "Decompositions add up and seasonality is removed point by point",
     "A decomposition returns trend, season and remainder of the chosen method and model at the times of the data, each under its own name and column, and they sum (or multiply) to the data, missing values having been filled first; multiplicative STL parts are the exponentials of the parts of the logarithms. The seasonality handler decomposes the series with gaps filled linearly on its own grid, for a period that is the given length in steps but at most half the data (7 when below 2), and reports season and the rest at exactly the data's own times, in order, so that the two sum to the data, per column, in any call order, without changing the data. Regular data of any fixed step and starting time, weekly included, is accepted; fewer than seven points, unknown periods and times off the grid are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary values and components on 5-10 points, 1-2 columns, gaps, ten step/offset/period layouts.",
     "Tests compare two datasets with recorded sums and only check that something changed for the handler.",
     ["kats/utils/decomposition.py", "kats/consts.py"],
     [("parts", "kats/utils/decomposition.py:TimeSeriesDecomposition.decomposer, _get_period"), ("grid and period", "kats/utils/decomposition.py:SeasonalityHandler.__init__"), ("season and rest", "kats/utils/decomposition.py:SeasonalityHandler.get_seasonality, remove_seasonality, _decompose_multi"), ("step", "kats/consts.py:TimeSeriesData.freq_to_timedelta")],
     note="Bounds: 5-10 points. STL and seasonal_decompose are stand-ins returning arbitrary parts that add up.")
prop("C20", "Prophet and threshold detectors score as defined, leaving inputs unchanged",
     "The Prophet detector fits one model on the history (and the data that follows it, when given) without the excluded ranges, both ends included, and, when asked, without the points outside the wide band of a first model; settings, saturation limits (which make growth logistic) and holidays reach the model, limits and weekend masks also its questions. Seasonalities asked for are used, others left to Prophet; an automatic weekend seasonality needs two weeks of data less than a week apart and replaces the weekly one. Every data point is answered with the prediction at its own time, the band (the prediction itself without uncertainty), and the score: the deviation relative to the prediction's size, or to the width of the band, floored, for z scores in both scalings; the scores of holidays, own or of a country, and of no other day are multiplied, also for a restored model and when there are none. The parts of an answer are separate and can be extended and updated. Trend scores are the mean absolute slope change at change points, zero elsewhere; threshold scores are a copy of the data. Inputs stay unchanged; wrong ranges, settings, multivariate data, prediction before fitting and missing history are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary values and forecasts on 2-7 points, all combinations of the listed settings.",
     "Tests fit real models on seeded data and check response lengths and some orderings.",
     ["kats/detectors/prophet_detector.py", "kats/detectors/threshold_detector.py"],
     [("scores", "kats/detectors/prophet_detector.py:deviation_from_predicted_val, z_score, ProphetDetectorModel.predict"), ("training data", "kats/detectors/prophet_detector.py:ProphetDetectorModel.fit, _exclude_ranges, _remove_outliers"), ("seasonalities", "kats/detectors/prophet_detector.py:seasonalities_to_dict, seasonalities_processing, prophet_weekend_masks"), ("holidays", "kats/detectors/prophet_detector.py:get_holiday_dates"), ("trend", "kats/detectors/prophet_detector.py:ProphetTrendDetectorModel.fit_predict"), ("threshold", "kats/detectors/threshold_detector.py:StaticThresholdModel.fit_predict")],
     note="Bounds: 2-16 points. Prophet itself (fitting, forecasting, country calendars) is a stand-in with arbitrary forecasts that records what it is given.")
prop("C21", "Prophet forecasts cover the asked times and simulate uncertainty consistently",
     "The forecaster hands all settings, custom seasonalities, regressors and limits to Prophet, with the times and values of the data and only the columns asked for; a forecast has one row for each of the steps right after the end of the data, preceded by all of the data's times with include_history, in order, with the prediction and bounds of that time, whatever values are missing in the data and whatever other columns it has. A future given by the user is used as it is, must name time, regressors and limits, and stays unchanged; data and settings that do not fit together are refused. The forecast is trend times one plus the multiplicative terms plus the additive terms; bands are the percentiles of the simulations, widened by half the margin on each side. Every parameter draw is simulated equally often and in all at least as often as asked; vectorized simulations follow the same formula, and for every random draw a simulated trend is the fitted one up to the end of the history, continues without a jump, and averages to the forecast trend for logistic growth.",
     ["inputs", "configurations", "schedules of random draws"], "Arbitrary values, parameters and random draws on 2-6 points, six patterns of missing values.",
     "Tests fit real models on seeded data; missing values, custom futures and the draws themselves are unsampled.",
     ["kats/models/prophet.py"],
     [("data", "kats/models/prophet.py:ProphetModel._ts_to_df, _data_params_validation, fit"), ("times", "kats/models/prophet.py:ProphetModel._future_validation, predict"), ("band", "kats/models/prophet.py:predict, predict_uncertainty"), ("draws", "kats/models/prophet.py:sample_posterior_predictive, sample_model_vectorized, sample_linear_predictive_trend_vectorize, _piecewise_linear_vectorize, _logistic_uncertainty")],
     note="Bounds: 5-6 points, 1-3 steps, 1-3 parameter draws, up to two samples. Prophet's fitting is a stand-in; its make_future_dataframe is the real one.")
prop("C22", "Temporal hierarchies aggregate, reconcile and add up",
     "A level k of the hierarchy sums blocks of k points, the last block ending with the data, at the time of each block's last point, whatever the time column is called. Reconciled forecasts of all levels, those of the base models or those asked for, are sums of the first level's; bottom-up keeps the first level, median takes the median of the levels' shares, and the other methods give the generalised least squares fit of the summing matrix to the base forecasts under the method's weights, so that base forecasts that already add up are not changed. Weights are the level (structural), mean squared residuals, residual variances, or their covariances (off-diagonals shrunk by one common factor), with residuals aligned at the end of the data. Forecasts start after the last time (or the one given) at the spacing of their level (of the frequency given), for which the base models are asked; a level that is not given enough forecasts, wrong levels, models, methods, metrics and multivariate data are refused. Median validation reports exactly the levels further than the threshold above the median distance.",
     ["inputs", "configurations"], "Arbitrary forecasts and residuals for five hierarchies of up to three levels, 1-8 steps.",
     "Tests only check that calls succeed or are refused on one random dataset.",
     ["kats/models/reconciliation/thm.py", "kats/models/reconciliation/base_models.py"],
     [("aggregation", "kats/models/reconciliation/base_models.py:GetAggregateTS.aggregate"), ("summing matrix and weights", "kats/models/reconciliation/thm.py:TemporalHierarchicalModel.get_S, get_W, _get_residual_matrix"), ("reconciliation", "kats/models/reconciliation/thm.py:TemporalHierarchicalModel._predict"), ("base forecasts", "kats/models/reconciliation/thm.py:TemporalHierarchicalModel._predict_origin"), ("times", "kats/models/reconciliation/thm.py:TemporalHierarchicalModel.predict"), ("validation", "kats/models/reconciliation/thm.py:TemporalHierarchicalModel.median_validation")],
     note="Bounds: levels up to 4, blocks of up to 6, 1-8 steps. Base models and the robust covariance estimator are stand-ins with arbitrary results; with full weight matrices the weights are listed constants.")
prop("C23", "ML-AR trains on aligned windows and forecasts at the times asked for",
     "For every series, target variable, horizon h and origin with a full window, ML-AR trains on one row holding the input_window values up to the origin, normalised by the chosen statistic (mean, median, max, std, z-score; division or subtraction, with or without default_min) of their last norm_window_size values, the statistics of that window when asked, the covariate histories that end at the origin, the series' category and variable one-hot, calendar and Fourier features and the covariates around the target time, and h; the output is the value h steps after the origin, normalised alike; rows without an output are left out and gaps in time are missing values. Forecasts ask one such row per series, variable and horizon at the last observation, or that of new data (whose windows reach back into older data and never use later data), undo normalisation and logarithm, and carry the time origin + h on the data's own frequency; further steps use the forecasts so far in the place of data, keeping the first forecast of a time. Inputs stay unchanged, settings reach the regressor, and impossible ones are refused.",
     ["inputs", "configurations"], "Arbitrary values and regressor answers on 1-2 series of 3-6 points, 1-2 variables, eight normalisations, gaps and missing ends.",
     "No stable test runs this model at all.",
     ["kats/models/ml_ar.py", "kats/tsfeatures/tsfeatures.py"],
     [("windows", "kats/models/ml_ar.py:embed, MLARModel._embed_and_gen_past_features_single_series, _embed_regressor, _embed_future_cov"), ("normalisation", "kats/models/ml_ar.py:normalize, denormalize, MLARModel._normalize_data"), ("rows", "kats/models/ml_ar.py:MLARModel._merge_past_and_future_reg, _train"), ("forecasts", "kats/models/ml_ar.py:MLARModel._predict, predict, _post_process"), ("calendar", "kats/models/ml_ar.py:MLARModel._gen_cal_feat, _valid_and_fillna"), ("calendar features", "kats/tsfeatures/tsfeatures.py:TsCalenderFeatures, TsFourierFeatures")],
     note="Bounds: 3-6 points, windows 1-4, horizons up to 4, up to 6 iterated steps. LightGBM is a stand-in with arbitrary answers. Normalised future covariates and categories without one-hot encoding are outside.")
prop("C24", "Interval detector tests, decides and groups by the corrected level",
     "For two samples the statistic of every time is the difference (or log ratio) less the effect size (log(1+effect)) over the standard error of that row, with the class's variance (real: variance/n, proportion: v(1-v)/n, count: v/n, arrival time: v*v/n; delta method for ratios); its significance is the normal tail of the test's side (the smaller one when two-sided), and its limits lie the critical value times the standard error away, infinite on the open side. Proportions of one sample are tested against the binomial law of each row's own size and threshold, with exact one-sided limits. Critical values are the normal quantiles at the corrected level. A statistic at or beyond the critical value is a rejection; maximal runs become intervals padded on both ends, those of at least the duration anomalies, the others cautions; predictions mark exactly the anomalies and masked scores exactly the rejections. The probability of a run of m rejections in n tests is exact for independent tests, and with a covariance made of the joint tail probabilities of the first tests. An automatic duration is the shortest whose run probability is at most alpha within tolerance, found anew in each call, and its probability is the corrected level; for a given duration the corrected level's run probability is within tolerance of alpha or none is given. History and data are judged together; calls leave their inputs alone and do not depend on earlier ones; without consolidation there are no intervals. A stored model keeps its settings; missing columns or values, negative variances, counts below one and values outside a class's range are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary values, variances, effects and probabilities on 1-4 rows, all classes, sides and statistics; run probabilities for up to 7 tests.",
     "Tests compare simulated datasets with stored results; single rows, ties of runs and repeated calls are unsampled.",
     ["kats/detectors/interval_detector.py"],
     [("statistics", "kats/detectors/interval_detector.py:TwoSampleIntervalDetectorModel._absolute_difference_test_statistic, _relative_difference_test_statistic, _get_variance"), ("proportions", "kats/detectors/interval_detector.py:OneSampleProportionIntervalDetectorModel"), ("decisions", "kats/detectors/interval_detector.py:IntervalDetectorModel.fit_predict, _get_intervals, _get_true_run_indices, anomaly_intervals"), ("run probabilities", "kats/detectors/interval_detector.py:IntervalDetectorModel._probability_of_at_least_one_m_run_in_n_trials, _w"), ("levels", "kats/detectors/interval_detector.py:IntervalDetectorModel._get_lowest_m, _get_lowest_p"), ("validation", "kats/detectors/interval_detector.py:Schema")],
     note="Bounds: 1-4 rows (6 when thorough). Multivariate normal probabilities are stand-ins; sample counts and the proportions test use listed constants. Two-sided limits of the one-sample test are outside.")
prop("C25", "STLF forecasts the series without its season and puts the season back",
     "The STLF model hands its forecasting model (linear, quadratic, theta, prophet or simple) the series at the same times less its seasonal component (divided by it when the decomposition is multiplicative; the simple method gets the trend component), with the given parameters of that model or its default ones, and the frequency asked for. Every forecast and every limit the forecasting model gives gets back the seasonal component of its own time: the last m seasonal values repeat after the end of the data, whatever number of steps is asked for, and with include_history past rows get the component of their own row; limits that were not given are not made up. The decomposition is an STL decomposition of the data itself and receives all the settings of the parameters. Fitting again replaces the first fit, repeated forecasts are equal and the data is left alone. Unknown methods and decompositions (also when model parameters are given), a season longer than the data, multivariate data and forecasting before fitting are refused.",
     ["inputs", "configurations"], "Arbitrary values, seasonal and trend components, forecasts and limits on up to 8 rows, seasons of 2-4, all five methods, both decompositions.",
     "Tests only check that a call on one dataset succeeds or raises; no test looks at the values.",
     ["kats/models/stlf.py"],
     [("season removed", "kats/models/stlf.py:STLFModel.deseasonalize"), ("model fitted", "kats/models/stlf.py:STLFModel.fit"), ("season put back", "kats/models/stlf.py:STLFModel.predict"), ("settings", "kats/models/stlf.py:STLFParams")],
     note="Bounds: at most 8 rows. The decomposition and the forecasting models are stand-ins with arbitrary outputs (C12, C19 and C21 judge some of them).")
prop("C26", "Empirical and ensemble prediction intervals follow the backtest errors",
     "The empirical interval backtests the model with the given folds, takes for every horizon the sample standard deviation of the errors over the folds, fits a straight line through these and gives forecasts of the model fitted on all the data, with limits the normal quantile of the level times the line's value at that step away on both sides. Percentages outside (0,100] and negative numbers of steps are refused. The ensemble interval cuts the latest whole blocks off the series, forecasts each from the block before it, and projects every chain block by block: each block is the model's forecast from the block before (or from everything before it when rolling), at the spacing of the data, plus noise drawn with the mean and covariance of the block errors; every chain and block gets a draw of its own, also with worker processes. Forecasts are the means of the chains, limits lie the Student t quantile of the level times the deviation of the chains away. Blocks below ten rows, fewer than five blocks, too short series and ensembles below four are refused, and a size not given is derived from the other. The data is left alone.",
     ["inputs", "configurations", "schedules"], "Arbitrary series values and noise draws, 1-6 folds, 6-63 rows, 1-31 steps, both projections, with and without a pool.",
     "Tests check the shapes of the results for one dataset; values, draws and levels are not looked at.",
     ["kats/utils/emp_confidence_int.py", "kats/utils/ensemble_predict_interval.py"],
     [("spread line", "kats/utils/emp_confidence_int.py:EmpConfidenceInt.run_cv, get_lr, get_eci"), ("block errors", "kats/utils/ensemble_predict_interval.py:ensemble_predict_interval._get_error_matrix_single"), ("chains", "kats/utils/ensemble_predict_interval.py:ensemble_predict_interval._projection, _projection_single"), ("interval", "kats/utils/ensemble_predict_interval.py:mean_confidence_interval")],
     note="Bounds: blocks of 10 with 5 blocks and 4 chains, 3 coefficients for the series of the ensemble; the forecasting model is a linear stand-in and random draws are arbitrary values keyed by seed and position.")
prop("C27", "Distribution distance scores compare each time with one window earlier",
     "Every data point's score is the asked metric's distance between the vector one window earlier (the earliest row at most a window before it) and its own vector; points without a row more than nine tenths of a window before them score zero, as do all magnitudes; scores stand at the times of the data, history only serves as reference. For jensenshannon the two vectors are percentiles and are compared as probabilities on common cells: of the vector with more distinct values (the second one on ties), every distinct value carries the number of its repetitions over the length, and the other vector's probability of a cell is the increment of its interpolated distribution function; equal vectors have equal probabilities, probabilities are not negative and do not exceed one in total; the base asked for is used. History and data are left alone, repeated calls are equal, and a stored model keeps its settings and scores. Univariate or differently wide data, windows not shorter than the data, gaps and missing values, decreasing percentiles (with jensenshannon or when validation is asked for), unknown metrics and separate fit and predict calls are refused.",
     ["inputs", "configurations", "histories"], "Arbitrary values on 4-7 rows of several spacings with and without history, percentile vectors of 2-3 values with any ties.",
     "Tests compare the scores of simulated data with stored numbers; ties, references at the window's edge and histories are unsampled.",
     ["kats/detectors/distribution_distance_model.py"],
     [("distances and windows", "kats/detectors/distribution_distance_model.py:DistributionDistanceModel.fit_predict"), ("probabilities", "kats/detectors/distribution_distance_model.py:_percentile_to_prob, _merge_percentile"), ("validation", "kats/detectors/distribution_distance_model.py:DistributionDistanceModel._validate_ts_input_data, _validate_monotonic, _validate_data_granularity")],
     note="Bounds: 4-7 rows, 2 columns, percentile vectors of 2-3 (4 when thorough). scipy's metrics are stand-ins: some asymmetric function of both vectors.")
prop("C28", "DTW and robust statistic detectors report exactly the outlying points",
     "The time warping distance is the root of the least sum of squared differences over the warping paths in the band, zero from a series to itself, and the lower bound used for pruning never exceeds it. The DTW detector takes for every series its non-zero windows, finds for each the nearest non-zero window of another series (or one of its own not overlapping it, when asked) and per series the window farthest from its nearest; it reports, with start and end of that window, exactly the series whose distance deviates from the median distance by more than the threshold in mean absolute deviations, with that ratio as confidence. Without non-zero windows nothing is reported, with a single non-zero series its first non-zero window; repeated calls are equal; windows longer than the data and univariate data are refused. The robust statistic detector smooths the series with a trailing mean (the first mean repeated at the start), differences it at the comparison window (zero beyond the ends), standardises and reports, in order of time, exactly the points whose upper tail probability of the absolute z-score is below the cutoff, except those less than a smoothing window after the last one reported; confidence is one less that probability and the metric the difference. Multivariate data is refused; data is left alone.",
     ["inputs", "configurations", "histories"], "Arbitrary values for warping costs of up to 3x3 and lower bounds of up to 3 points; one or two arbitrary values in series of 3-7 rows for whole detections.",
     "Tests check the number of change points of a few simulated series.",
     ["kats/detectors/dtwcpd.py", "kats/detectors/robust_stat_detection.py"],
     [("distance", "kats/detectors/dtwcpd.py:DTWCPDDetector.DTWDistance, LB_Keogh"), ("windows and neighbours", "kats/detectors/dtwcpd.py:DTWCPDDetector._get_all_nonzero_subsequences, _calculate_distances_for_all_subsequences"), ("decisions", "kats/detectors/dtwcpd.py:DTWCPDDetector.detector, _find_subsequences_anomalies"), ("robust statistic", "kats/detectors/robust_stat_detection.py:RobustStatDetector.detector")],
     note="Bounds: distances 3x3 (4 when thorough), detections with one arbitrary value among constants in 3-7 rows and 3-4 series. The normal tail is a decreasing line in the robust harness.")

prop("C29", "Statistical models fit what they are given and label their forecasts right",
     "The ARIMA, SARIMA, Holt-Winters and VAR models hand the values (ARIMA also the times) of the series, the orders and every setting of the parameters and of fit to statsmodels unchanged; what comes back is reported row by row: forecasts continue the data at the spacing given (Holt-Winters without empirical interval: daily when none is given) or, for the others on regular daily or hourly data, at its own; limits are those of the level asked for by alpha (5% unless given), for Holt-Winters those of the empirical interval built from the same data and parameters. With history the past rows come first: for ARIMA from the row after the differences, for VAR the fitted values from the row after the lags, for SARIMA all rows, blank within the burn-in of the orders but with values afterwards, and forecasts are never blanked. SARIMA forecasts that are all missing are refused. VAR's default number of lags follows each series the parameters are used for. Forecasts before the fit are refused, multivariate data is refused by ARIMA, SARIMA and Holt-Winters, univariate data by VAR and BayesianVAR, and so are unknown trends and seasonalities. BayesianVAR's noise covariance is that of the least squares residuals; its posterior precision is that of the prior (a random walk, tighter for longer lags and for other columns by the ratio of variances) plus that of the data, its mean follows; fitted values and forecasts are the coefficients times the last lags of every column, the time going on row by row and one, each forecast serving the next; residuals are data less fitted values. Asking for a forecast changes neither the data nor later answers.",
     ["inputs", "configurations", "histories"], "Arbitrary data, model answers and interval widths for 4-10 rows and 1-3 steps; two columns, one or two lags, two arbitrary values or three arbitrary coefficients for BayesianVAR.",
     "Tests compare forecasts of a few data sets with stored numbers at default levels and one spacing.",
     ["kats/models/arima.py", "kats/models/sarima.py", "kats/models/holtwinters.py", "kats/models/var.py", "kats/models/bayesian_var.py"],
     [("ARIMA", "kats/models/arima.py:ARIMAModel.fit, predict"), ("SARIMA", "kats/models/sarima.py:SARIMAModel.fit, predict"), ("Holt-Winters", "kats/models/holtwinters.py:HoltWintersModel.fit, predict"), ("VAR", "kats/models/var.py:VARModel.fit, predict"), ("BayesianVAR", "kats/models/bayesian_var.py:BayesianVAR.fit, predict, _compute_sigma_ols, _construct_v_prior, _look_ahead_step")],
     note="statsmodels is replaced by a stand-in with arbitrary answers; matrix inverses in BayesianVAR are computed for plain numbers and arbitrary symbols otherwise. Bounds: 4-10 rows, 1-3 steps, two columns. SARIMA without freq on monthly data is not claimed (its spacing is guessed as 31 days).")
