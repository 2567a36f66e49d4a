"""C15 rolling statistics detector."""
import json as realjson
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.rolling_stats_model as RM
from kats.consts import TimeSeriesData

H = 3600
STATS = ["iqr", "mad", "z_score", "modified_z_score_mad", "modified_z_score_iqr", "iqr_median_deviation"]
INCLUSIVE = ("iqr", "mad")


def swap_sort(ctx, xs):
    """sorting network without case splits"""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = ctx.ite(a <= b, a, b), ctx.ite(a <= b, b, a)
    return xs


def quant(ctx, xs, q):
    s = swap_sort(ctx, xs)
    p = q * (len(s) - 1)
    k = int(p)
    f = p - k
    return s[k] if f == 0 else s[k] * (1 - f) + s[k + 1] * f


def med(ctx, xs):
    return quant(ctx, xs, 0.5)


def ref(ctx, stat, win, base=1.0, iqr_base=1.5):
    """score of the last point of the window"""
    if stat == "iqr":
        return (quant(ctx, win, 0.75) - quant(ctx, win, 0.25)) * base
    if stat == "mad":
        m = med(ctx, win)
        return med(ctx, [abs(x - m) for x in win]) * base
    past, x = win[:-1], win[-1]
    if stat == "z_score":
        c, d = mean(past), np.sqrt(var(past))
    elif stat == "iqr_median_deviation":
        m, q3, q1 = med(ctx, past), quant(ctx, past, 0.75), quant(ctx, past, 0.25)
        if bool(m == 0):
            return 0.0
        r = (q3 - q1) * iqr_base
        return ctx.ite(x >= q3 + r, abs(x - m) / m, ctx.ite(x < q1 - r, -abs(x - m) / m, 0.0 * m)) * base
    else:
        c = med(ctx, past)
        d = med(ctx, [abs(p - c) for p in past]) if stat == "modified_z_score_mad" else \
            quant(ctx, past, 0.75) - quant(ctx, past, 0.25)
    if bool(d == 0):
        return 0.0
    return (x - c) / d * base


def windows(stat, vals, offs_, w, n_hist):
    """for every scored point the window of w points (and the point itself unless inclusive)"""
    k = w if stat in INCLUSIVE else w + 1
    return [vals[max(0, i + 1 - k):i + 1] for i in range(n_hist, len(vals))]


def same_list(ctx, got, want, label):
    got = list(got)
    ctx.check(len(got) == len(want), label + " (length)")
    for g, v in zip(got, want):
        ctx.eq(g, v, label)


def split(ctx, xs, offsets, n_hist, unit="h"):
    h = tsd(ctx, xs[:n_hist], offsets[:n_hist], unit=unit) if n_hist else None
    return tsd(ctx, xs[n_hist:], offsets[n_hist:], unit=unit), h


def data(ctx, stat, n):
    """n points: free location, one or two free points, the rest a fixed pattern (keeps the statistics linear)"""
    if stat == "z_score":
        b = ctx.real("b", -50, 50)
        w = [0.0, 2.0, 1.0, 4.0, 3.0, 7.0, 5.0]
        return [b + w[i] for i in range(n - 1)] + [ctx.real("last", -50, 50)]
    if stat in ("iqr", "mad"):
        return ctx.reals("x", n)
    if stat == "iqr_median_deviation":
        xs = [4.0, 6.0, 5.0, 9.0, 3.0, 7.0, 5.0][:n]
        xs[1] = ctx.real("p", 1, 20)
        xs[-1] = ctx.real("last", -50, 50)
        return xs
    b = ctx.real("b", -50, 50)
    xs = [b + v for v in [0.0, 2.0, 1.0, 4.0, 3.0, 7.0, 5.0][:n]]
    xs[-1] = ctx.real("last", -50, 50)
    xs[-2] = ctx.real("prev", -50, 50)
    return xs


@harness("C15", params=[{"stat": s, "w": w, "n": n} for s, w, n in
                        [("iqr", 3, 1), ("iqr", 2, 2), ("mad", 3, 1), ("z_score", 3, 2), ("z_score", 2, 3), ("modified_z_score_mad", 3, 1),
                         ("modified_z_score_iqr", 3, 1), ("modified_z_score_iqr", 4, 1), ("iqr_median_deviation", 3, 1),
                         ("iqr_median_deviation", 4, 1), ("modified_z_score_mad", 2, 2)]], weight=2)
def scores(ctx, stat, w, n):
    """every point is scored by the statistic over its window: the w points ending at it (iqr, mad) or the w points
    before it (z scores, median deviation)"""
    n_hist = w - 1 if stat in INCLUSIVE else w
    n_hist += ctx.choice("extra", [0, 1]) if n == 1 else 0
    xs = data(ctx, stat, n_hist + n)
    base = ctx.choice("base", [1.0, 0.5])
    ib = ctx.choice("iqr_base", [1.5, 0.5]) if stat == "iqr_median_deviation" else 1.5
    m = RM.RollingStatsModel(rolling_window=w, statistics=stat, score_base=base, iqr_base=ib)
    d, h = split(ctx, xs, list(range(n_hist + n)), n_hist)
    r = m.fit_predict(d, h)
    want = [ref(ctx, stat, win, base, ib) for win in windows(stat, xs, None, w, n_hist)]
    same_list(ctx, r.scores.value, want, "score")
    same_list(ctx, r.anomaly_magnitude_ts.value, [0.0] * n, "magnitude")
    ctx.check(offs(r.scores.time, "h") == list(range(n_hist, n_hist + n)), "times")
    ctx.check(offs(r.anomaly_magnitude_ts.time, "h") == list(range(n_hist, n_hist + n)), "times")
    ctx.reach("end")


@harness("C15", params=[{"stat": s} for s in STATS], weight=2)
def time_based(ctx, stat):
    """a window in seconds covers the points of that span; missing points are simply absent; fewer than two points
    score zero; the deviation multiplier applies here as well"""
    layout = ctx.choice("layout", [(0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 5, 6), (0, 1, 2, 3, 4, 9)])
    w = 3
    xs = data(ctx, stat, 6)
    ib = ctx.choice("iqr_base", [1.5, 0.5]) if stat == "iqr_median_deviation" else 1.5
    m = RM.RollingStatsModel(rolling_window=w * H, statistics=stat, point_based=False, iqr_base=ib, score_base=2.0)
    d, h = split(ctx, xs, list(layout), 4)
    r = m.fit_predict(d, h)
    want = []
    for i in (4, 5):
        first = layout[i] - (w - 1 if stat in INCLUSIVE else w)
        win = [x for x, o in zip(xs, layout) if first <= o <= layout[i]]
        want.append(ref(ctx, stat, win, 2.0, ib) if len(win) >= 2 else 0.0)
    same_list(ctx, r.scores.value, want, "score")
    ctx.check(offs(r.scores.time, "h") == list(layout[4:]), "times")
    ctx.check(m.rolling_window == w * H, "the setting is kept")
    ctx.reach("end")


@harness("C15", params=[{"stat": s} for s in ("iqr", "z_score", "modified_z_score_iqr")])
def expanding(ctx, stat):
    """with too little history the window grows up to its size if that is allowed, otherwise it is refused"""
    from kats.consts import DataInsufficientError
    w, n_hist = 4, 2
    xs = data(ctx, stat, 5)
    mk = lambda **k: RM.RollingStatsModel(rolling_window=w, statistics=stat, **k)  # noqa
    d, h = split(ctx, xs, list(range(5)), n_hist)
    ctx.raises(DataInsufficientError, lambda: mk().fit_predict(d, h), "too little history")
    d, h = split(ctx, xs, list(range(5)), n_hist)
    r = mk(allow_expanding_window=True).fit_predict(d, h)
    same_list(ctx, r.scores.value, [ref(ctx, stat, win) for win in windows(stat, xs, None, w, n_hist)], "score")
    ctx.reach("end")


@harness("C15", params=[{"stat": s} for s in STATS[2:]])
def flat(ctx, stat):
    """a window without deviation (all points equal, or most of them) scores zero, next to windows with deviation"""
    b, x, y = ctx.real("b", -50, 50), ctx.real("x", -50, 50), ctx.real("y", -50, 50)
    kind = ctx.choice("kind", ["equal", "most", "zero"])
    pb = ctx.cbool("point_based")
    past = {"equal": [b, b, b, b], "most": [b, b + 3, b, b], "zero": [0.0 * b, 2.0, 0.0 * b, -2.0]}[kind]
    if stat == "iqr_median_deviation" and kind != "zero":
        past = [v * 0 + 5 + k for k, v in enumerate(past)] if kind == "most" else [v * 0 + 5 for v in past]
    xs = past + [x, y] if kind != "most" else past + [x, b + 1]
    w = 4
    n_hist = w - 1 + (stat not in INCLUSIVE)
    xs = xs[4 - n_hist:]
    n = len(xs) - n_hist
    m = RM.RollingStatsModel(rolling_window=w if pb else w * H, statistics=stat, point_based=pb)
    d, h = split(ctx, xs, list(range(n_hist + n)), n_hist)
    r = m.fit_predict(d, h)
    got = list(r.scores.value)
    ctx.check(len(got) == n, "length")
    want = [ref(ctx, stat, win) for win in windows(stat, xs, None, w, n_hist)]
    ctx.eq(got[0], want[0], "score")
    if stat != "z_score":
        ctx.eq(got[1], want[1], "next score")
    ctx.reach("end")


@harness("C15", params=[{"point_based": True}, {"point_based": False}])
def repeatable(ctx, point_based):
    """detecting twice with the same model and history gives the same scores; the caller's series stay as they are"""
    xs = ctx.reals("x", 5)
    w = 3 if point_based else 3 * H
    m = RM.RollingStatsModel(rolling_window=w, statistics="iqr", point_based=point_based)
    d, h = split(ctx, xs, list(range(5)), 3)
    r1 = m.fit_predict(d, h)
    same_list(ctx, h.value, xs[:3], "history")
    same_list(ctx, d.value, xs[3:], "data")
    ctx.check(offs(h.time, "h") == [0, 1, 2], "history times")
    d2, h2 = split(ctx, xs, list(range(5)), 3)
    r2 = m.fit_predict(d2, h2)
    same_list(ctx, r2.scores.value, list(r1.scores.value), "same scores again")
    ctx.check(m.rolling_window == w, "setting")
    ctx.reach("end")


@harness("C15", params=[{"stat": s} for s in STATS])
def resume(ctx, stat):
    """a model written out and read back has the same settings and gives the same scores"""
    pb, base, ib, ex = ctx.choice("set", [(True, 1.0, 1.5, False), (False, 0.5, 0.5, True)])
    w = 3 if pb else 3 * H
    m = RM.RollingStatsModel(rolling_window=w, statistics=stat, point_based=pb, score_base=base, iqr_base=ib,
                             allow_expanding_window=ex, seasonality_period="weekly")
    m2 = RM.RollingStatsModel(rolling_window=7, serialized_model=m.serialize())
    for f in ("rolling_window", "statistics", "remove_seasonality", "point_based", "seasonality_period", "score_base", "iqr_base",
              "allow_expanding_window", "extend_rolling_window"):
        ctx.check(getattr(m, f) == getattr(m2, f), "setting " + f)
    xs = data(ctx, "iqr_median_deviation", 5)
    d, h = split(ctx, xs, list(range(5)), 4)
    r1 = m.fit_predict(d, h)
    d, h = split(ctx, xs, list(range(5)), 4)
    r2 = m2.fit_predict(d, h)
    same_list(ctx, r2.scores.value, list(r1.scores.value), "same scores")
    ctx.reach("end")


@harness("C15")
def refusals(ctx):
    """multivariate input, unknown seasonality and windows of fewer than three points are refused; an unknown statistic
    means the z score"""
    from kats.consts import ParameterError, DataError, InternalError
    a, b = ctx.reals("a", 5), ctx.reals("b", 5)
    m = RM.RollingStatsModel(rolling_window=3)
    multi = tsd_multi(ctx, {"p": a, "q": b}, unit="h")
    ctx.raises(DataError, lambda: m.fit_predict(multi), "multivariate")
    ctx.raises(DataError, lambda: m.fit_predict(tsd(ctx, a, unit="h"), multi), "multivariate history")
    ctx.raises(ParameterError, lambda: RM.RollingStatsModel(rolling_window=3, seasonality_period="often"), "seasonality")
    d, h = split(ctx, a, list(range(5)), 4)
    k = ctx.choice("k", [1, 2])
    ctx.raises(ParameterError, lambda: RM.RollingStatsModel(rolling_window=k * H, point_based=False).fit_predict(d, h), "window")
    ctx.raises(InternalError, lambda: m.predict(d), "predict")
    ctx.raises(InternalError, lambda: m.fit(d), "fit")
    ctx.check(RM.RollingStatsModel(rolling_window=3, statistics="nonsense").statistics == "z_score", "default statistic")
    ctx.check(RM.RollingStatsModel(rolling_window=3, statistics="IQR").statistics == "iqr", "upper case")
    ctx.reach("end")


class Season(object):
    """arbitrary deseasonalized series"""
    values = None
    period = None

    def __init__(self, data, seasonal_period="daily", **kw):
        self.data = data
        Season.period = seasonal_period
        Season.seen = (list(data.value), offs(data.time, "h"))

    def remove_seasonality(self):
        return TimeSeriesData(time=self.data.time, value=pd.Series(Season.values, dtype=object if SYMBOLIC else float))


@harness("C15", params=[{"pb": True}, {"pb": False}])
def seasonal(ctx, pb):
    """with remove_seasonality the history and the data are deseasonalized together and the scores are those of the result"""
    xs, ys = ctx.reals("x", 6), ctx.reals("y", 6)
    real, RM.SeasonalityHandler = RM.SeasonalityHandler, Season
    Season.values = ys
    try:
        m = RM.RollingStatsModel(rolling_window=3 if pb else 3 * H, statistics="iqr", point_based=pb, remove_seasonality=True,
                                 seasonality_period="weekly")
        d, h = split(ctx, xs, list(range(6)), 4)
        r = m.fit_predict(d, h)
    finally:
        RM.SeasonalityHandler = real
    ctx.check(Season.period == "weekly", "period")
    same_list(ctx, Season.seen[0], xs, "history and data")
    ctx.check(Season.seen[1] == list(range(6)), "times")
    same_list(ctx, r.scores.value, [ref(ctx, "iqr", win) for win in windows("iqr", ys, None, 3, 4)], "score")
    same_list(ctx, h.value, xs[:4], "history stays")
    ctx.reach("end")
