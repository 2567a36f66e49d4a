D = "kats/detectors/"
M = "kats/models/"
SEEDS = [
dict(id="heuristic-leading-blocks", property="C12", tests=["tests/models/test_simple_heuristic_model.py"],
 edits=[(M + "simple_heuristic_model.py", """        fitted_values_s = self.data.value[-fitted_len:]
""", """        fitted_values_s = self.data.value[:fitted_len]
""")],
 needs="a horizon that does not divide the length of the data", breaks="the newest values are left out and the blocks shift",
 demo="""
from kats.models.simple_heuristic_model import SimpleHeuristicModel, SimpleHeuristicModelParams
ts = TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=7)), value=pd.Series([9.0, 1, 2, 3, 4, 5, 6]))
m = SimpleHeuristicModel(ts, SimpleHeuristicModelParams(method='last'))
m.fit()
assert list(m.predict(steps=3).fcst) == [4.0, 5.0, 6.0], list(m.predict(steps=3).fcst)
"""),
dict(id="weights-sorted", property="C13", tests=["tests/models/test_ensemble.py"],
 edits=[(M + "ensemble/kats_ensemble.py", "            weights = np.array(list(weights.values()))\n            self.fcst_df", "            weights = np.array([w for _, w in sorted(weights.items())])\n            self.fcst_df")],
 needs="members listed in an order other than alphabetical, weighted aggregation", breaks="members get each other's weights",
 demo="""
from kats.models.ensemble.kats_ensemble import KatsEnsemble
import kats.models.ensemble.kats_ensemble as K
ts = TimeSeriesData(time=pd.Series(pd.date_range('2020-01-01', periods=10)), value=pd.Series(np.arange(10.0)))
e = KatsEnsemble.__new__(KatsEnsemble)
e.data, e.freq, e.steps = ts, 'D', 2
e.params = {'aggregation': 'weightedavg'}
mk = lambda x: pd.DataFrame({'time': pd.date_range('2020-01-11', periods=2), 'fcst': [x, x], 'fcst_lower': [x, x], 'fcst_upper': [x, x]})
e.predicted = {'theta': mk(1.0), 'arima': mk(2.0)}
e.weights = {'theta': 0.9, 'arima': 0.1}
f = e.aggregate().fcst.values
assert np.allclose(f, 1.1), f
"""),
dict(id="cusum-vector-retention", property="C14", tests=["tests/detectors/test_cusum_model.py"],
 edits=[(D + "cusum_model.py", "                    current_time - x[-1] > CHANGEPOINT_RETENTION if len(x) else False\n", "                    current_time - x[0] > CHANGEPOINT_RETENTION if len(x) else False\n")],
 needs="several series, one with a change more than a week ago and a second one still open", breaks="the open alert is closed because of the old change",
 demo="""
import kats.detectors.cusum_model as CM
t = pd.date_range('2020-01-20', periods=6, freq='h')
m = CM.VectorizedCUSUMDetectorModel(scan_window=7200, historical_window=7200, step_window=3600)
ix = ['a', 'b']
m.alert_fired = pd.Series([True, False], index=ix)
m.pre_mean, m.pre_std = pd.Series([1.0, 1.0], index=ix), pd.Series([0.1, 0.1], index=ix)
m.number_of_normal_scan = pd.Series([0, 0], index=ix)
m.alert_change_direction = pd.Series(['increase', None], index=ix)
now = int(t[3].value // 10**9)
m.cps = [[now - 10 * 86400, now - 3600], []]
m.cps_meta = [[], []]
df = pd.DataFrame({'time': t, 'a': [1.0, 1.1, 9.0, 9.1, 9.0, 9.1], 'b': [1.0, 1.1, 1.0, 1.1, 1.0, 1.1]})
m._fit(TimeSeriesData(df[4:].reset_index(drop=True)), TimeSeriesData(df[:4]), scan_window=7200)
assert bool(m.alert_fired[0]), 'alert closed'
"""),
dict(id="rolling-history-gap", property="C15", tests=["tests/detectors/test_rolling_stats_model.py"],
 edits=[(D + "rolling_stats_model.py", "            and not historical_data.is_data_missing()\n", "            and not data.is_data_missing()\n")],
 needs="a window in seconds, a gap in the history and none in the data", breaks="the window reaches too far back",
 demo="""
from kats.detectors.rolling_stats_model import RollingStatsModel
t = pd.date_range('2020-01-01', periods=12, freq='h')
keep = [0, 1, 2, 3, 4, 6, 7]
v = np.array([100.0, 5, 1, 2, 9, 0, 4, 3, 2, 7, 1, 0])
h = TimeSeriesData(time=pd.Series(t[keep]), value=pd.Series(v[keep]))
d = TimeSeriesData(time=pd.Series(t[8:]), value=pd.Series(v[8:]))
r = RollingStatsModel(rolling_window=4 * 3600, statistics='iqr', point_based=False).fit_predict(d, h)
w = v[[6, 7, 8]]
assert abs(r.scores.value.iloc[0] - (np.percentile(w, 75) - np.percentile(w, 25))) < 1e-9, list(r.scores.value)
"""),
dict(id="rolling-expanding-pad", property="C15", tests=["tests/detectors/test_rolling_stats_model.py"],
 edits=[(D + "rolling_stats_model.py", "        result = np.divide(numerator, d, out=np.zeros_like(numerator), where=d != 0)\n\n    return result[0] if len(result) == 1 else result\n\n\ndef calculate_mad".replace("        result", "    result"), "    # a window without spread has no scale, compare the plain distance\n    result = np.divide(numerator, np.where(d == 0, 1.0, d))\n\n    return result[0] if len(result) == 1 else result\n\n\ndef calculate_mad")],
 needs="a window of equal values followed by a different one", breaks="the z score of a flat window is the plain distance instead of zero",
 demo="""
from kats.detectors.rolling_stats_model import RollingStatsModel
t = pd.date_range('2020-01-01', periods=5)
h = TimeSeriesData(time=pd.Series(t[:3]), value=pd.Series([2.0, 2.0, 2.0]))
d = TimeSeriesData(time=pd.Series(t[3:]), value=pd.Series([7.0, 2.0]))
r = RollingStatsModel(rolling_window=3).fit_predict(d, h)
assert r.scores.value.iloc[0] == 0, list(r.scores.value)
"""),
dict(id="statsig-piece-history", property="C16", tests=["tests/detectors/test_stat_sig_detector.py"],
 edits=[(D + "stat_sig_detector.py", """            new_ts.append(
                new_ts[-1][-first_half_len:]
                + list(data.value[i : i + max_split_ts_length])
            )
""", """            # the points right before the piece, from the data as far as possible
            if i >= first_half_len:
                before = list(data.value[i - first_half_len : i])
            else:
                before = new_ts[0][-first_half_len:]
            new_ts.append(before + list(data.value[i : i + max_split_ts_length]))
""")],
 needs="a history longer than two pieces and at least three pieces", breaks="the third piece is compared with the history of the second",
 demo="""
from kats.detectors.stat_sig_detector import StatSigDetectorModel
rs = np.random.RandomState(0)
t = pd.date_range('2020-01-01', periods=60)
v = pd.Series(np.round(rs.randn(60), 2) + np.arange(60) * 0.3)
def go(k):
    h = TimeSeriesData(time=pd.Series(t[:30]), value=v[:30])
    d = TimeSeriesData(time=pd.Series(t[30:]).reset_index(drop=True), value=v[30:].reset_index(drop=True))
    return StatSigDetectorModel(n_control=8, n_test=4, time_unit='D', max_split_ts_length=k).fit_predict(d, h)
a, b = go(500), go(7)
assert np.allclose(a.predicted_ts.value.values, b.predicted_ts.value.values), 'predictions depend on the split length'
"""),
]
