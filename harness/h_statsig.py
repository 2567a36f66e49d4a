"""C16 statistical significance detectors: rolling control/test windows."""
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.stat_sig_detector as SG
import kats.detectors.detector_consts as DC
from kats.consts import TimeSeriesData

H = 3600
LOG = []
REALPC = SG.PercentageChange


def kernel(cur, prev):
    """arbitrary (but linear) statistics of two windows: order and membership of every point matter"""
    a = ssum([(i + 2.0) * v for i, v in enumerate(cur)])
    b = ssum([(i + 1.0) * v for i, v in enumerate(prev)])
    return {"score": a - b, "ci_upper": a + 2.0 * b + 1.0, "ci_lower": 3.0 * a + b, "mean_previous": b * 0.5,
            "mean_difference": a * 0.25 - b, "stat_sig": 1.0 if (len(cur) + len(prev)) % 2 else 0.0}


class StubPC(object):
    """stands in for the comparison of two windows (verified on its own under C09)"""

    def __init__(self, current, previous, method="fdr_bh", skip_rescaling=False, use_corrected_scores=False, min_perc_change=0.0):
        LOG.append({"method": method, "skip": skip_rescaling, "corr": use_corrected_scores, "mpc": min_perc_change})
        if current.num_series == 1:
            r = kernel(list(current.data_df["value"]), list(previous.data_df["value"]))
            for k, v in r.items():
                setattr(self, k, v)
        else:
            rs = [kernel(list(current.data_df[c]), list(previous.data_df[c])) for c in current._ts_cols]
            for k in rs[0]:
                setattr(self, k, [r[k] for r in rs])


def ser(xs):
    return pd.Series(xs, dtype=object if SYMBOLIC else float)


class StubSeason(object):
    """arbitrary seasonal component, looked up by time"""
    season = {}
    asked = []

    def __init__(self, data, seasonal_period="daily", ignore_irregular_freq=False, **kw):
        self.data = data
        StubSeason.asked.append(seasonal_period)
        self.s = [StubSeason.season[o] for o in offs(data.time, "h")]

    def _make(self, f):
        v = self.data.value
        if isinstance(v, pd.DataFrame):
            cols = {c: f(list(v[c])) for c in v.columns}
            return TimeSeriesData(time=self.data.time, value=pd.DataFrame({c: ser(x) for c, x in cols.items()}))
        return TimeSeriesData(time=self.data.time, value=ser(f(list(v))))

    def get_seasonality(self):
        return self._make(lambda xs: list(self.s))

    def remove_seasonality(self):
        return self._make(lambda xs: [x - s for x, s in zip(xs, self.s)])


class stubbed(object):
    def __enter__(self):
        SG.PercentageChange = StubPC
        self.sh, SG.SeasonalityHandler = SG.SeasonalityHandler, StubSeason
        del LOG[:]
        del StubSeason.asked[:]
        return self

    def __exit__(self, *a):
        SG.PercentageChange = REALPC
        SG.SeasonalityHandler = self.sh


def windows(allv, o, i, nc, nt):
    cur = [v for v, t in zip(allv, o) if o[i] - nt < t <= o[i]]
    prev = [v for v, t in zip(allv, o) if o[i] - nt - nc < t <= o[i] - nt]
    return cur, prev


def want(allv, o, n_hist, nc, nt, season=None):
    """one dictionary per data point"""
    raw = allv
    if season is not None:
        allv = [v - season[t] for v, t in zip(allv, o)]
    out = []
    for i in range(n_hist, len(allv)):
        if o[i] >= o[0] + nc + nt - 1:
            r = kernel(*windows(allv, o, i, nc, nt))
            if season is not None:
                for k in ("ci_upper", "ci_lower", "mean_previous"):
                    r[k] = r[k] + season[o[i]]
        else:
            x = raw[i]
            r = {"score": 0.0, "ci_upper": x, "ci_lower": x, "mean_previous": x, "mean_difference": 0.0, "stat_sig": 0.0}
        out.append(r)
    return out


def pieces(r, col=None):
    f = (lambda t: list(t.value)) if col is None else (lambda t: list(t.value.iloc[:, col]))
    return {"score": f(r.scores), "ci_upper": f(r.confidence_band.upper), "ci_lower": f(r.confidence_band.lower),
            "mean_previous": f(r.predicted_ts), "mean_difference": f(r.anomaly_magnitude_ts), "stat_sig": f(r.stat_sig_ts)}


def same_response(ctx, r, w, o, col=None, what=""):
    p = pieces(r, col)
    for k in p:
        ctx.check(len(p[k]) == len(w), what + k + " (length)")
        for g, v in zip(p[k], w):
            ctx.eq(g, v[k], what + k)
    for t in (r.scores, r.confidence_band.upper, r.confidence_band.lower, r.predicted_ts, r.anomaly_magnitude_ts, r.stat_sig_ts):
        ctx.check(offs(t.time, "h") == list(o), what + "times")


def split(ctx, xs, o, n_hist):
    h = tsd(ctx, xs[:n_hist], o[:n_hist], unit="h") if n_hist else None
    return tsd(ctx, xs[n_hist:], o[n_hist:], unit="h"), h


def split_multi(ctx, cols, o, n_hist):
    h = tsd_multi(ctx, {k: v[:n_hist] for k, v in cols.items()}, o[:n_hist], unit="h") if n_hist else None
    return tsd_multi(ctx, {k: v[n_hist:] for k, v in cols.items()}, o[n_hist:], unit="h"), h


LAYOUTS = [(2, 2, tuple(range(8)), 5), (2, 2, tuple(range(7)), 4), (1, 2, tuple(range(5)), 2), (3, 1, tuple(range(7)), 0),
           (2, 1, tuple(range(6)), 3), (2, 2, (0, 1, 2, 3, 4, 6, 7, 8), 5), (2, 3, (0, 1, 2, 4, 5, 6, 7), 3), (1, 1, (0, 1, 2, 3), 1)]


def plain(ctx, n):
    return ctx.reals("x", n)


@harness("C16", params=[{"unit": "given"}, {"unit": "inferred"}], weight=2)
def rolling(ctx, unit):
    """each data point is scored by comparing the points of the last n_test time units with those of the n_control units
    before; points before the first full pair of windows get no score and keep their own value as prediction and band"""
    nc, nt, o, nh = ctx.choice("layout", LAYOUTS)
    xs = plain(ctx, len(o))
    corr = ctx.choice("corr", [True, False])
    d, h = split(ctx, xs, o, nh)
    with stubbed():
        m = SG.StatSigDetectorModel(n_control=nc, n_test=nt, use_corrected_scores=corr, min_perc_change=0.25,
                                    **({"time_unit": "h"} if unit == "given" else {}))
        r = m.fit_predict(d, h)
        ctx.check(all(c["corr"] is corr and c["mpc"] == 0.25 for c in LOG), "settings reach the comparison")
    same_response(ctx, r, want(xs, o, nh, nc, nt), o[nh:])
    for g, v in zip(list(d.value), xs[nh:]):
        ctx.eq(g, v, "data stay as they are")
    if h is not None:
        ctx.check(len(h) == nh, "history keeps its length")
        for g, v in zip(list(h.value), xs[:nh]):
            ctx.eq(g, v, "history stays as it is")
    ctx.reach("end")


@harness("C16", params=[{"season": False}, {"season": True}], weight=2)
def long_data(ctx, season):
    """data longer than the split length are scored in parallel pieces with the same result, also when the pieces come out
    even; with rem_season on the deseasonalized values, and band and prediction get the season back"""
    nc, nt, n, nh, k = ctx.choice("cfg", [(2, 2, 4, 5, 2), (2, 2, 5, 5, 2), (1, 2, 6, 4, 3), (2, 1, 5, 4, 3), (2, 2, 8, 0, 2), (2, 2, 7, 2, 2),
                                          (1, 1, 6, 5, 4), (2, 2, 4, 6, 4), (2, 2, 4, 5, 3)])
    o = list(range(nh + n))
    xs = plain(ctx, len(o))
    d, h = split(ctx, xs, o, nh)
    s = {t: v for t, v in enumerate(ctx.reals("s", len(o)))} if season else None
    StubSeason.season = s or {}
    with stubbed():
        m = SG.StatSigDetectorModel(n_control=nc, n_test=nt, max_split_ts_length=k, rem_season=season, min_perc_change=0.5,
                                    seasonal_period="daily", time_unit="h")
        r = m.fit_predict(d, h)
        ctx.check(all(c["corr"] is True and c["mpc"] == 0.5 for c in LOG), "settings reach the comparison")
        ctx.check(all(p == "daily" for p in StubSeason.asked), "period")
    same_response(ctx, r, want(xs, o, nh, nc, nt, s), o[nh:])
    for g, v in zip(list(d.value), xs[nh:]):
        ctx.eq(g, v, "data stay as they are")
    ctx.reach("end")


@harness("C16", weight=2)
def seasonal(ctx):
    """with rem_season the windows hold deseasonalized values and band and prediction get the season back"""
    nc, nt, o, nh = ctx.choice("layout", [l for l in LAYOUTS if l[3]])
    xs = plain(ctx, len(o))
    s = {t: v for t, v in zip(o, ctx.reals("s", len(o)))}
    StubSeason.season = s
    d, h = split(ctx, xs, o, nh)
    with stubbed():
        m = SG.StatSigDetectorModel(n_control=nc, n_test=nt, rem_season=True, seasonal_period="biweekly", time_unit="h")
        r = m.fit_predict(d, h)
        ctx.check(all(p == "biweekly" for p in StubSeason.asked) and len(StubSeason.asked) > 0, "period")
    same_response(ctx, r, want(xs, o, nh, nc, nt, s), o[nh:])
    ctx.check(len(h) == nh, "history keeps its length")
    ctx.reach("end")


@harness("C16", params=[{"season": False}, {"season": True}], weight=2)
def many_columns(ctx, season):
    """the multivariate detector does the same for every column"""
    nc, nt, o, nh = ctx.choice("layout", LAYOUTS)
    cols = {"a": ctx.reals("a", len(o)), "b": ctx.reals("b", len(o)), "c": ctx.reals("c", len(o))}
    d, h = split_multi(ctx, cols, o, nh)
    s = {t: v for t, v in zip(o, ctx.reals("s", len(o)))} if season else None
    StubSeason.season = s or {}
    with stubbed():
        m = SG.MultiStatSigDetectorModel(n_control=nc, n_test=nt, time_unit="h", method="holm", skip_rescaling=True,
                                         use_corrected_scores=True, min_perc_change=0.5, rem_season=season)
        r = m.fit_predict(d, h)
        ctx.check(all(c == {"method": "holm", "skip": True, "corr": True, "mpc": 0.5} for c in LOG), "settings reach the comparison")
    for j, c in enumerate("abc"):
        same_response(ctx, r, want(cols[c], o, nh, nc, nt, s), o[nh:], col=j)
    if h is not None:
        ctx.check(len(h) == nh, "history keeps its length")
        for j, c in enumerate("abc"):
            for g, v in zip(list(h.value.iloc[:, j]), cols[c][:nh]):
                ctx.eq(g, v, "history stays as it is")
    ctx.reach("end")


@harness("C16")
def too_short(ctx):
    """without one full pair of windows nothing is scored"""
    nc, nt, n, nh = ctx.choice("cfg", [(3, 2, 4, 0), (3, 3, 3, 2), (5, 2, 3, 3)])
    o = list(range(n + nh))
    multi = ctx.choice("multi", [False, True])
    xs = plain(ctx, len(o))
    with stubbed():
        if multi:
            d, h = split_multi(ctx, {"a": xs, "b": xs[::-1]}, o, nh)
            r = SG.MultiStatSigDetectorModel(n_control=nc, n_test=nt).fit_predict(d, h)
            same_response(ctx, r, want(xs, o, nh, nc, nt), o[nh:], col=0)
            same_response(ctx, r, want(xs[::-1], o, nh, nc, nt), o[nh:], col=1)
        else:
            d, h = split(ctx, xs, o, nh)
            so = ctx.choice("only", [False, True])
            r = SG.StatSigDetectorModel(n_control=nc, n_test=nt, anomaly_scores_only=so).fit_predict(d, h)
            same_response(ctx, r, want(xs, o, nh, nc, nt), o[nh:])
        ctx.check(len(LOG) == 0, "nothing compared")
    ctx.reach("end")


def t_score(cur, prev):
    nx, ny = len(cur), len(prev)
    v = ((nx - 1) * var(cur, 1) + (ny - 1) * var(prev, 1)) / (nx + ny - 2)
    return (mean(cur) - mean(prev)) / np.sqrt(v * (1.0 / nx + 1.0 / ny))


def ttest(a, b, equal_var=True, **k):
    if min(len(a), len(b)) < 2:
        return (NAN, NAN)
    return (t_score(list(a), list(b)), None)


class FakeStats(object):
    ttest_ind = staticmethod(ttest)


@harness("C16", weight=2)
def scores_only(ctx):
    """the scores-only mode reports the t statistic of the two windows once both lie inside the data, zero before; it
    leaves data and history as they are"""
    nc, nt, o, nh = ctx.choice("layout", [(2, 2, tuple(range(7)), 4), (2, 2, tuple(range(6)), 0), (3, 2, tuple(range(7)), 2),
                                          (2, 2, (0, 1, 2, 3, 4, 5, 7, 8), 5), (3, 3, (0, 1, 2, 3, 4, 6, 7), 5)])
    b = ctx.real("b", -100, 100)
    g = ctx.real("g", -100, 100)
    xs = [b + v for v in [3.0, 1.0, 4.0, 1.5, 9.0, 2.0, 6.0, 5.0][:len(o)]]
    for i in range(len(o) // 2, len(o)):
        xs[i] = xs[i] + g if ctx.choice("jump", [True, False]) else xs[i]
    d, h = split(ctx, xs, o, nh)
    m = SG.StatSigDetectorModel(n_control=nc, n_test=nt, time_unit="h", anomaly_scores_only=True)
    real = SG.stats
    if SYMBOLIC:
        SG.stats = FakeStats()
    try:
        r = m.fit_predict(d, h)
    finally:
        SG.stats = real
    ctx.check(offs(r.scores.time, "h") == list(o[nh:]), "times")
    for i, gt in zip(range(nh, len(o)), list(r.scores.value)):
        cur, prev = windows(xs, o, i, nc, nt)
        if o[i] - nt - nc + 1 >= o[0]:
            if len(cur) >= 2 and len(prev) >= 2:
                ctx.eq(gt, t_score(cur, prev), "t score")
        else:
            ctx.eq(gt, 0.0, "no score yet")
    ctx.check(list(r.anomaly_magnitude_ts.value) == [0.0] * (len(o) - nh), "magnitude")
    ctx.check(r.confidence_band is None and r.predicted_ts is None and r.stat_sig_ts is None, "only scores")
    for gt, v in zip(list(d.value), xs[nh:]):
        ctx.eq(gt, v, "data stay as they are")
    if h is not None:
        ctx.check(len(h) == nh, "history keeps its length")
    ctx.reach("end")


SETTINGS = ("n_control", "n_test", "time_unit", "rem_season", "seasonal_period", "use_corrected_scores", "max_split_ts_length",
            "min_perc_change", "anomaly_scores_only")


@harness("C16")
def resume(ctx):
    """a detector written out and read back has the same settings and gives the same response"""
    multi = ctx.choice("multi", [False, True])
    corr = ctx.choice("corr", [False, True])
    mpc = ctx.choice("mpc", [0.0, 0.75])
    if multi:
        skip = ctx.choice("skip", [False, True])
        m = SG.MultiStatSigDetectorModel(n_control=2, n_test=1, time_unit="h", method="holm", skip_rescaling=skip,
                                         use_corrected_scores=corr, min_perc_change=mpc, seasonal_period="monthly")
        m2 = SG.MultiStatSigDetectorModel(serialized_model=m.serialize())
        extra = ("method", "skip_rescaling")
    else:
        only = ctx.choice("only", [False, True])
        m = SG.StatSigDetectorModel(n_control=2, n_test=1, time_unit="h", use_corrected_scores=corr, max_split_ts_length=3,
                                    min_perc_change=mpc, seasonal_period="monthly", anomaly_scores_only=only)
        m2 = SG.StatSigDetectorModel(serialized_model=m.serialize())
        extra = ()
    for f in SETTINGS + extra:
        ctx.check(getattr(m, f) == getattr(m2, f), "setting " + f)
    o = list(range(7))
    xs = plain(ctx, 7)
    with stubbed():
        if multi:
            rs = [k.fit_predict(*split_multi(ctx, {"a": xs, "b": xs[::-1]}, o, 3)) for k in (m, m2)]
            for c in (0, 1):
                a, b = pieces(rs[0], c), pieces(rs[1], c)
                for k in a:
                    for g, v in zip(b[k], a[k]):
                        ctx.eq(g, v, "same " + k)
        elif not only:
            rs = [k.fit_predict(*split(ctx, xs, o, 3)) for k in (m, m2)]
            a, b = pieces(rs[0]), pieces(rs[1])
            for k in a:
                for g, v in zip(b[k], a[k]):
                    ctx.eq(g, v, "same " + k)
    ctx.reach("end")


@harness("C16", params=[{"corr": False}, {"corr": True}], weight=2)
def with_comparison(ctx, corr):
    """with the real comparison the magnitude is the difference of the window means, the prediction the control mean, and
    the score the pooled t statistic (uncorrected: without the sample size factor)"""
    k = ctx.choice("split", [500, 1]) if corr else 500
    b, g = (20.0 if corr and k == 500 else ctx.real("b", 10, 100)), ctx.real("g", 1, 5)
    o = list(range(7))
    xs = [b + v for v in [3.0, 1.0, 4.0, 1.5, 9.0, 2.0, 6.0]]
    xs[5], xs[6] = xs[5] + g, xs[6] + g
    d, h = split(ctx, xs, o, 5)
    r = SG.StatSigDetectorModel(n_control=3, n_test=2, time_unit="h", use_corrected_scores=corr,
                                max_split_ts_length=k).fit_predict(d, h)
    for i in (5, 6):
        cur, prev = windows(xs, o, i, 3, 2)
        ctx.eq(list(r.predicted_ts.value)[i - 5], mean(prev), "prediction")
        ctx.eq(list(r.anomaly_magnitude_ts.value)[i - 5], mean(cur) - mean(prev), "magnitude")
        if k == 500:
            f = 1.0 if corr else float(np.sqrt(1 / 2 + 1 / 3))
            ctx.eq(list(r.scores.value)[i - 5], t_score(cur, prev) * f, "score")
        ctx.check(list(r.stat_sig_ts.value)[i - 5] in (0.0, 1.0), "significance flag")
    ctx.reach("end")


@harness("C16")
def refusals(ctx):
    """wrong dimensions, missing window sizes, bad time units and data too short to infer one are refused"""
    from kats.consts import ParameterError, DataError, InternalError, DataInsufficientError
    a, b = ctx.reals("a", 6), ctx.reals("b", 6)
    multi, uni = tsd_multi(ctx, {"p": a, "q": b}, unit="h"), tsd(ctx, a, unit="h")
    ctx.raises(DataError, lambda: SG.StatSigDetectorModel(2, 2).fit_predict(multi), "multivariate")
    ctx.raises(DataError, lambda: SG.MultiStatSigDetectorModel(2, 2).fit_predict(uni), "univariate")
    ctx.raises(ParameterError, lambda: SG.StatSigDetectorModel(n_control=2), "no test size")
    ctx.raises(ParameterError, lambda: SG.StatSigDetectorModel(n_test=2), "no control size")
    ctx.raises(ParameterError, lambda: SG.MultiStatSigDetectorModel(n_test=2), "no control size")
    ctx.raises(ParameterError, lambda: SG.StatSigDetectorModel(2, 2, time_unit="banana"), "time unit")
    ctx.raises(InternalError, lambda: SG.StatSigDetectorModel(2, 2).predict(uni), "predict")
    ctx.raises(DataInsufficientError, lambda: SG.StatSigDetectorModel(1, 1).fit_predict(tsd(ctx, a[:2], unit="h")), "unit unknown")
    ctx.check(pd.Timedelta(SG.StatSigDetectorModel(2, 2, time_unit="h").time_unit) == pd.Timedelta("1h"), "unit name")
    ctx.check(pd.Timedelta(SG.StatSigDetectorModel(2, 2, time_unit="3D").time_unit) == pd.Timedelta("3D"), "unit with number")
    ctx.check(SG.StatSigDetectorModel(2, 2).fit(uni) is None, "fit does nothing")
    ctx.reach("end")
