D = "kats/detectors/"
SEEDS = [
dict(id="outlier-strength-resid", property="C17", tests=["tests/detectors/test_outlier.py", "tests/detectors/test_outlier_detector.py"],
 edits=[(D + "outlier.py", "        strength = float(1 - np.nanvar(rem) / np.nanvar(detrend))\n", "        strength = float(1 - np.nanvar(rem) / np.nanvar(original[\"y\"]))\n")],
 needs="a series with a strong trend and weak seasonality", breaks="the trend's variance makes the season look strong, so it is removed from the residuals",
 demo="""
import kats.detectors.outlier as O
t = pd.date_range('2020-01-01', periods=42)
rng = np.random.RandomState(3)
v = 5.0 * np.arange(42) + rng.randn(42) * 3
d = O.OutlierDetector(TimeSeriesData(time=pd.Series(t), value=pd.Series(v)))
d.detector()
from statsmodels.tsa.seasonal import seasonal_decompose
s = pd.DataFrame({'y': v}, index=t)
r = seasonal_decompose(s, extrapolate_trend='freq')
resid = s.y - r.trend
q = np.nanpercentile(resid, [25, 75])
lo, hi = q[0] - 3 * (q[1] - q[0]), q[1] + 3 * (q[1] - q[0])
assert np.allclose(d.output_scores.value, (resid - lo) / (hi - lo)), 'season removed'
"""),
dict(id="outlier-multi-train-window", property="C17", tests=["tests/detectors/test_outlier.py"],
 edits=[(D + "outlier.py", "        fcstTime = self.df.index.min() + look_back\n        while fcstTime < self.df.index.max():\n", "        fcstTime = self.df.index.min() + look_back\n        last = self.df.index.max() - dt.timedelta(days=self.granularity_days)\n        while fcstTime < last:\n")],
 needs="looking at the newest point of the data", breaks="the last observation is never scored",
 demo="""
from kats.detectors.outlier import MultivariateAnomalyDetector
from kats.models.var import VARParams
rng = np.random.RandomState(0)
t = pd.date_range('2020-01-01', periods=40)
df = pd.DataFrame({'time': t, 'a': rng.randn(40), 'b': rng.randn(40)})
d = MultivariateAnomalyDetector(TimeSeriesData(df), VARParams(maxlags=1), training_days=30)
r = d.detector()
assert r.index[-1] == t[-1], r.index[-1]
"""),
dict(id="outlier-remover-backfill", property="C17", tests=["tests/detectors/test_outlier.py", "tests/detectors/test_outlier_detector.py"],
 edits=[(D + "detector.py", '            df_final.interpolate(method="linear", limit_direction="both", inplace=True)\n', '            df_final.interpolate(method="linear", limit_direction="forward", inplace=True)\n')],
 needs="an outlier at the very first point and interpolation asked for", breaks="the first value stays missing",
 demo="""
from kats.detectors.outlier import OutlierDetector
t = pd.date_range('2020-01-01', periods=42)
v = np.sin(np.arange(42)) + 10
v[0] = 500.0
d = OutlierDetector(TimeSeriesData(time=pd.Series(t), value=pd.Series(v)))
d.detector()
assert t[0] in d.outliers[0], d.outliers
o = d.remover(interpolate=True)
assert not np.isnan(o.value.values).any(), 'missing value left'
"""),
dict(id="outlier-model-positional", property="C17", tests=["tests/detectors/test_outlier.py", "tests/detectors/test_outlier_detector.py"],
 edits=[(D + "outlier_detector.py", "        output_scores_df = output_scores_df.loc[data.time]\n", "        output_scores_df = output_scores_df.iloc[: len(data)]\n")],
 needs="history passed together with the data", breaks="the data get the scores of the oldest points of the history",
 demo="""
from kats.detectors.outlier_detector import OutlierDetectorModel
t = pd.date_range('2020-01-01', periods=42)
v = np.sin(np.arange(42)) + 10
v[40] = 500.0
ts = lambda a, b: TimeSeriesData(time=pd.Series(t[a:b]), value=pd.Series(v[a:b]))
r = OutlierDetectorModel().fit_predict(ts(35, 42), ts(0, 35))
s = r.scores.value.values.reshape(-1)
assert np.argmax(s) == 5, s
"""),
]
