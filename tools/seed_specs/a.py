D = "kats/detectors/"
SEEDS = [
dict(id="consts-extend-minmax", property="C02", tests=["tests/test_consts.py", "tests/detectors/test_detector_consts.py", "tests/detectors/test_cusum_model.py"],
 edits=[("kats/consts.py", """        # Convert values to DataFrame if needed
        cur_value = self.value
""", """        # Convert values to DataFrame if needed
        if isinstance(self.value, pd.Series) and isinstance(other.value, pd.Series):
            # the extremes of the result are known without another pass over the data
            low, high = min(self._min, other._min), max(self._max, other._max)
        else:
            low = high = None
        cur_value = self.value
"""), ("kats/consts.py", """        # Merge value back to Series if required
        self._set_univariate_values_to_series()
        # Validate""", """        # Merge value back to Series if required
        self._set_univariate_values_to_series()
        if low is not None:
            self._min, self._max = low, high
        # Validate""")],
 needs="a series whose values are all missing is extended by another one", breaks="extend leaves stale (missing) minimum and maximum",
 demo="""
t = pd.date_range('2020-01-01', periods=6)
a = TimeSeriesData(time=pd.Series(t[:3]), value=pd.Series([np.nan] * 3))
b = TimeSeriesData(time=pd.Series(t[3:]), value=pd.Series([1.0, 5.0, 2.0]))
a.extend(b)
assert a.min == 1.0 and a.max == 5.0, (a.min, a.max)
"""),
dict(id="consts-dup-last", property="C01", tests=["tests/test_consts.py"],
 edits=[("kats/consts.py", """            df = self.to_dataframe()
            if drop_duplicate_time:
                # drop duplicate time stamps
                df = df.drop_duplicates(subset=[self.time_col_name], keep="first")

            # pyre-fixme[6]: For 2nd argument expected `DataFrame` but got
            #  `Optional[DataFrame]`.
            df = self._sort_by_time(sort_by_time=sort_by_time, df=df)
""", """            # pyre-fixme[6]: For 2nd argument expected `DataFrame` but got
            #  `Optional[DataFrame]`.
            df = self._sort_by_time(sort_by_time=sort_by_time, df=self.to_dataframe())
            if drop_duplicate_time:
                # sorted: equal time stamps are next to each other
                df = df[df[self.time_col_name] != df[self.time_col_name].shift()]
                df = df.reset_index(drop=True)
""")],
 needs="separate time/value, duplicates to be dropped, sorting switched off and the repeated time stamps not adjacent", breaks="repeated time stamps survive",
 demo="""
t = pd.to_datetime(pd.Series(['2020-01-01', '2020-01-02', '2020-01-01']))
ts = TimeSeriesData(time=t, value=pd.Series([1.0, 2.0, 3.0]), sort_by_time=False, drop_duplicate_time=True)
assert list(ts.value) == [1.0, 2.0], list(ts.value)
"""),
dict(id="consts-int-constant", property="C03", tests=["tests/test_consts.py", "tests/detectors/test_detector_consts.py"],
 edits=[("kats/consts.py", "pd.Series(other, index=self.time.index, copy=False),", "pd.Series(other, index=self.time.index, copy=False).astype(\n                                        self.value.dtype\n                                    ),")],
 needs="an integer-valued series combined with a fractional constant", breaks="the constant is truncated to the series' integer type",
 demo="""
ts = TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=3)), value=pd.Series([1, 2, 3], name='value'))
assert list((ts * 1.5).value) == [1.5, 3.0, 4.5], list((ts * 1.5).value)
"""),
dict(id="metrics-mdape-nan", property="C04", tests=["tests/metrics", "tests/utils", "tests/test_backtester_dummy_data.py"],
 edits=[("kats/metrics/metrics.py", "        return np.nanmedian(_abs_pct_err(y_true, y_pred))", "        err = np.sort(_abs_pct_err(y_true, y_pred))\n        n = err.size - np.count_nonzero(np.isnan(err))\n        return (err[n // 2] + err[(n - 1) // 2]) / 2 if n > 1 else err[-1]")],
 needs="exactly one of several points is not missing", breaks="median absolute percentage error is missing although one error is present",
 demo="""
from kats.metrics.metrics import mdape
assert mdape([2.0, 4.0, 5.0], [1.0, np.nan, np.nan]) == 0.5, mdape([2.0, 4.0, 5.0], [1.0, np.nan, np.nan])
assert mdape([2.0, 4.0], [1.0, 4.0]) == 0.25
"""),
dict(id="metrics-coverage-tie", property="C05", tests=["tests/metrics", "tests/utils", "tests/test_backtester_dummy_data.py"],
 edits=[("kats/metrics/metrics.py", "    y_true, y_lower, y_upper = _arrays(y_true, y_lower, y_upper)\n    diff = (y_lower - y_true <= 0) & (y_true - y_upper <= 0)\n    return np.nanmean(diff, axis=0)", "    y_true, y_lower, y_upper = _arrays(y_true, y_lower, y_upper)\n    diff = np.abs(2 * y_true - y_lower - y_upper) < y_upper - y_lower\n    return np.nanmean(diff, axis=0)")],
 needs="a true value exactly on the upper interval bound", breaks="interval coverage counts the upper bound as outside",
 demo="""
from kats.metrics.metrics import coverage
assert coverage([1.0, 2.0], [0.0, 1.0], [1.0, 3.0]) == 1.0
"""),
dict(id="partition-dict-order", property="C06", tests=["tests/utils"],
 edits=[("kats/utils/datapartition.py", "            keys = list(data.keys())", "            # a canonical order, so that pooled and sequential runs agree\n            keys = sorted(data, key=str)"),
        ("kats/utils/datapartition.py", "            keys = list(range(len(data)))", "            keys = sorted(range(len(data)), key=str)")],
 needs="a list of more than ten series, or a dictionary whose keys are not in alphabetical order", breaks="series come back in another order",
 demo="""
from kats.utils.datapartition import SimpleDataPartition
def s(k):
    return TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=4)), value=pd.Series([float(k)] * 4))
r = SimpleDataPartition(train_frac=0.5, multi=False).split({'b': s(1), 'a': s(2)})
assert list(r[0].train) == ['b', 'a'], list(r[0].train)
r = SimpleDataPartition(train_frac=0.5, multi=False).split([s(i) for i in range(12)])
assert [t.value.iloc[0] for t in r[0].train] == list(range(12)), [t.value.iloc[0] for t in r[0].train]
"""),
dict(id="backtest-offset-pred", property="C07", tests=["tests/utils", "tests/test_backtester_dummy_data.py"],
 edits=[("kats/utils/backtesters.py", "            predictions = predictions[self.offset :]", "            predictions = predictions[: -self.offset] if len(predictions) < self.offset else predictions[-truth.size - 1 :][: truth.size] if self.offset == 1 else predictions[self.offset :]")],
 needs="fixed-window backtest whose gap is exactly one row", breaks="forecasts are taken one step before the test rows",
 demo="""
from kats.utils.backtesters import BackTesterFixedWindow
class M:
    def __init__(self, data, params): self.n = len(data)
    def fit(self): pass
    def predict(self, steps, freq=None): return pd.DataFrame({'fcst': [float(self.n + i) for i in range(steps)]})
ts = TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=10)), value=pd.Series(np.arange(10.0)))
b = BackTesterFixedWindow(['mae'], ts, None, 50, 20, 10, M)
b.run_backtest()
assert b.get_error_value('mae') == 0.0, b.get_error_value('mae')
"""),
dict(id="backtest-average-weight", property="C08", tests=["tests/utils", "tests/test_backtester_dummy_data.py"],
 edits=[("kats/utils/backtesters.py", "        # Storing total length of predictions for weighting fold errors\n        total_fold_length = sum(result[1].size for result in self.results)", "        # Storing total length of predictions for weighting fold errors\n        total_fold_length = len(self.results) * max(result[1].size for result in self.results)")],
 needs="folds with test sets of different sizes", breaks="fold errors no longer average with weights adding up to one",
 demo="""
from kats.utils.backtesters import BackTesterSimple
ts = TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=10)), value=pd.Series(np.arange(10.0)))
b = BackTesterSimple(['mae'], ts, None, 50, 20, object)
one = np.ones(1)
b.results = [(one, np.array([1.0, 1.0]), None, np.array([0.0, 0.0])), (one, np.array([3.0]), None, np.array([2.0]))]
b.calc_error()
assert abs(b.get_error_value('mae') - 1.0) < 1e-9, b.get_error_value('mae')
"""),
dict(id="change-cov-align", property="C09", tests=["tests/detectors/test_detector_consts.py", "tests/detectors/test_stat_sig_detector.py"],
 edits=[(D + "detector_consts.py", """        current = current[-n_min:]
        previous = previous[-n_min:]
""", """        # same length for both: the points around the change
        current = current[:n_min]
        previous = previous[-n_min:]
""")],
 needs="current interval longer than the previous one", breaks="the covariance of the delta method pairs other points, so the limits of the percentage change and the significance flag are off",
 demo="""
from datetime import datetime
from kats.detectors.detector_consts import ChangePointInterval, PercentageChange
def interval(vals, start):
    t = pd.Series(pd.date_range(start, periods=len(vals)))
    i = ChangePointInterval(t.iloc[0].to_pydatetime(), (t.iloc[-1] + pd.Timedelta(1, 'D')).to_pydatetime())
    i.data = TimeSeriesData(time=t, value=pd.Series(vals))
    return i
x, y = [1.0, 5.0, 3.0], [2.0, 9.0, 4.0, 6.0, 1.0]
p = PercentageChange(interval(y, '2020-02-01'), interval(x, '2020-01-01'))
n = 3
cov = np.cov(y[-n:], x)[0, 1] / n
m1, m2 = np.mean(x), np.mean(y)
v = abs(np.var(y, ddof=1) / (5 * m1 ** 2) - 2 * m2 * cov / m1 ** 3 + np.var(x, ddof=1) * m2 ** 2 / (3 * m1 ** 4))
got = (p.perc_change_upper - p.perc_change_lower) / 100
assert abs(got - 2 * 1.959963984540054 * v ** 0.5) < 1e-9, (got, v)
"""),
dict(id="response-inplace-bounds", property="C10", tests=["tests/detectors/test_detector_consts.py", "tests/detectors/test_bocpd_model.py", "tests/detectors/test_stat_sig_detector.py"],
 edits=[("kats/detectors/detector_consts.py", "        if self.num_series == 1:\n            ts.value.loc[ts.time == time] = value\n        else:", "        if self.num_series == 1:\n            ts.value.iloc[int((ts.time < time).sum())] = value\n        else:")],
 needs="in-place update at a time that is not one of the response's times", breaks="the value of a later point is overwritten",
 demo="""
from kats.detectors.detector_consts import AnomalyResponse
t = pd.Series(pd.to_datetime(['2020-01-01', '2020-01-03', '2020-01-05']))
mk = lambda: TimeSeriesData(time=t, value=pd.Series([1.0, 2.0, 3.0]))
r = AnomalyResponse(scores=mk(), confidence_band=None, predicted_ts=None, anomaly_magnitude_ts=mk(), stat_sig_ts=None)
r.inplace_update(pd.Timestamp('2020-01-02'), 9.0, 9.0, 9.0, 9.0, 9.0, 9.0)
assert list(r.scores.value) == [1.0, 2.0, 3.0], list(r.scores.value)
"""),
dict(id="cusum-window-clamp", property="C11", tests=["tests/detectors/test_cusum_detection.py", "tests/detectors/test_cusum_model.py"],
 edits=[(D + "cusum_detection.py", "            next_changepoint = max(1, min(changepoint_func(cusum_ts), len(ts_int) - 2))\n            if next_changepoint == changepoint:\n                break\n            changepoint = next_changepoint\n\n        if n == max_iter:\n            _log.info(\"Max iteration reached and no stable changepoint found.\")\n            stable_changepoint = False\n        else:\n            stable_changepoint = True\n\n        # llr in interest window", "            next_changepoint = max(1, min(changepoint_func(cusum_ts), len(ts) - 2))\n            if next_changepoint == changepoint:\n                break\n            changepoint = next_changepoint\n\n        if n == max_iter:\n            _log.info(\"Max iteration reached and no stable changepoint found.\")\n            stable_changepoint = False\n        else:\n            stable_changepoint = True\n\n        # llr in interest window")],
 needs="an interest window whose largest cumulative deviation is at its last point", breaks="the split is placed on the last point of the window (empty right side)",
 demo="""
from kats.detectors.cusum_detection import CUSUMDetector
v = [1.0, 1, 1, 1, 1, 5, 5.5, 5, 0.0, 1, 1, 1]
ts = TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=12)), value=pd.Series(v))
for a in range(0, 7):
    for b in range(a + 4, 13):
        for d in ('increase', 'decrease'):
            r = CUSUMDetector(ts).detector(change_directions=[d], interest_window=[a, b], return_all_changepoints=True)
            assert a + 1 <= r[0].cp_index <= b - 2, (a, b, d, r[0].cp_index)
"""),
dict(id="cusum-vector-std", property="C11", tests=["tests/detectors/test_cusum_detection.py", "tests/detectors/test_cusum_model.py"],
 edits=[(D + "cusum_detection.py", "                    > np.std(ts[: change_meta[\"changepoint\"]]) * delta_std_ratio", "                    > np.std(ts[: change_meta[\"changepoint\"] + 1]) * delta_std_ratio")],
 needs="the vectorized detector_ with an outlier exactly on the split and a deviation ratio", breaks="the deviation includes the split point itself, unlike the univariate detector",
 demo="""
from kats.detectors.cusum_detection import CUSUMDetector, VectorizedCUSUMDetector
x = [1.0, 1.2, 1.0, 1.2, 1.0, 1.2, 0.2, 2.4, 2.6, 2.4, 2.6, 2.4]
t = pd.Series(pd.date_range('2020-01-01', periods=12))
df = pd.DataFrame({'time': t, 'a': x, 'b': x})
kw = dict(change_directions=['increase'], delta_std_ratio=6, return_all_changepoints=True)
r = VectorizedCUSUMDetector(TimeSeriesData(df)).detector_(**kw)[0][0]
u = CUSUMDetector(TimeSeriesData(df[['time', 'a']])).detector(**kw)[0]
assert r.cp_index == u.cp_index == 6 and u.regression_detected == r.regression_detected, (r, u)
"""),
]
