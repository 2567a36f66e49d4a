"""C28 dynamic time warping and robust statistic change detection."""
import contextlib
import itertools
import numpy as np
import pandas as pd
import scipy.stats
from symex.registry import harness
from .common import *
import kats.detectors.dtwcpd as DT
from kats.consts import TimeSeriesData

D = DT.DTWCPDDetector


def paths(n, m, w):
    """all warping paths through the band"""
    ok = lambda i, j: i - w <= j < i + w
    out = []

    def go(i, j, acc):
        if not ok(i, j):
            return
        acc = acc + [(i, j)]
        if (i, j) == (n - 1, m - 1):
            out.append(acc)
            return
        for a, b in ((i + 1, j), (i, j + 1), (i + 1, j + 1)):
            if a < n and b < m:
                go(a, b, acc)
    go(0, 0, [])
    return out


def best(ctx, s1, s2, w):
    """least total squared difference over the warping paths"""
    tot = [ssum([(s1[i] - s2[j]) * (s1[i] - s2[j]) for i, j in p]) for p in paths(len(s1), len(s2), w)]
    return vmin(ctx, tot)


class Diff(object):
    """difference of two opaque values; its square is an arbitrary non-negative number of its own"""

    def __init__(self, sq):
        self.sq = sq

    def __pow__(self, k):
        assert k == 2
        return self.sq

    def __mul__(self, other):
        assert other is self
        return self.sq

    def __abs__(self):
        return self

    __neg__ = __abs__


class Val(object):
    def __init__(self, side, i, cost):
        self.side, self.i, self.cost = side, i, cost

    def __sub__(self, other):
        a, b = (self, other) if self.side == "a" else (other, self)
        return Diff(self.cost[a.i][b.i])


class PlainRoot(object):
    """numpy whose sqrt is the identity: distances stay squared, their order is the same"""

    def __init__(self, np_):
        self.np_ = np_

    def sqrt(self, x):
        return x

    def __getattr__(self, name):
        return getattr(self.np_, name)


@contextlib.contextmanager
def squared():
    old = DT.np
    DT.np = PlainRoot(old)
    try:
        yield
    finally:
        DT.np = old


@harness("C28", params=[{"n": 1, "m": 1, "w": 1}, {"n": 2, "m": 2, "w": 1}, {"n": 2, "m": 2, "w": 2}, {"n": 3, "m": 3, "w": 1},
                        {"n": 3, "m": 3, "w": 2}, {"n": 3, "m": 3, "w": 3}, {"n": 4, "m": 4, "w": 1}],
         thorough=[{"n": 4, "m": 4, "w": 2}, {"n": 5, "m": 5, "w": 1}])
def warping_cost(ctx, n, m, w):
    """the distance is the least sum of squared differences over the warping paths in the band, whatever these are"""
    cost = [[ctx.real("c%d%d" % (i, j), 0, 100) for j in range(m)] for i in range(n)]
    with squared():
        got = D.DTWDistance([Val("a", i, cost) for i in range(n)], [Val("b", j, cost) for j in range(m)], w)
    tot = [ssum([cost[i][j] for i, j in p]) for p in paths(n, m, w)]
    for t in tot:
        ctx.check(got <= t + 1e-9, "no warping path is cheaper")
    ctx.eq(got, vmin(ctx, tot), "the cheapest warping path")
    ctx.reach("end")


@harness("C28")
def warping_root(ctx):
    """the distance is the root of that cost; zero from a series to itself"""
    a, b = ctx.real("a", -5, 5), ctx.real("b", -5, 5)
    got = D.DTWDistance([a], [b], 1)
    ctx.check(got >= 0, "not negative")
    ctx.eq(got * got, (a - b) * (a - b), "root", tol=1e-9)
    ctx.eq(D.DTWDistance([a, b, 1.0], [a, b, 1.0], 1), 0.0, "no distance to itself")
    lb = D.LB_Keogh([a], [b], 1)
    ctx.check(lb >= 0, "bound not negative")
    ctx.eq(lb * lb, (a - b) * (a - b), "root of the bound", tol=1e-9)
    ctx.reach("end")


@harness("C28", params=[{"n": 1, "w": 1}, {"n": 2, "w": 1}, {"n": 3, "w": 1}], thorough=[{"n": 3, "w": 2}, {"n": 4, "w": 1}])
def lower_bound(ctx, n, w):
    """the lower bound never exceeds the cost of any warping path"""
    a, b = ctx.reals("a", n, -5, 5), ctx.reals("b", n, -5, 5)
    with squared():
        lb = D.LB_Keogh(list(a), list(b), w)
    ctx.check(lb >= 0, "lower bound not negative")
    for p in paths(n, n, w):
        ctx.check(lb <= ssum([(a[i] - b[j]) * (a[i] - b[j]) for i, j in p]) + 1e-9, "lower bound")
    ctx.reach("end")


def table(ctx, cols, win, skip, same, minv):
    """squared distance of every non-zero window to its nearest window (other series, or apart in its own)"""
    n = len(next(iter(cols.values())))
    subs = {k: {i: v[i:i + win] for i in range(0, n - win + 1, skip) if any(bool(x > minv) for x in v[i:i + win])}
            for k, v in cols.items()}
    subs = {k: v for k, v in subs.items() if v}
    w = max(win // 3, 1)
    near = {}
    for k, wins in subs.items():
        near[k] = {}
        for i, a in wins.items():
            ds = [best(ctx, a, b, w) for m, other in subs.items() for j, b in other.items()
                  if (m != k) or (same and abs(i - j) >= win)]
            if ds:
                near[k][i] = vmin(ctx, ds)
    return subs, near


def middle(ctx, xs):
    """median of two to four values"""
    if len(xs) == 2:
        return mean(xs)
    return (ssum(xs) - vmax(ctx, xs) - vmin(ctx, xs)) / (len(xs) - 2)


SER = {"plain": {"a": [0, 1, 2, 1, 0], "b": [0, 2, 3, 1, 0], "c": [0, 0, "x", 0, 0]},
       "later": {"a": [1, 1, 1, 1, 1], "b": ["x", 1, 1, 1, 1], "c": [2, 2, 2, 2, "y"]},
       "zero": {"a": [0, 0, 0, 0, 0], "b": [0, 0, 0, 0, "x"], "c": [0, 3, 0, 0, 0]},
       "four": {"a": [1, 2, 1], "b": [1, 3, 2], "c": ["x", 1, 1], "d": [5, 9, 5]}}


@harness("C28", params=[{"series": "plain", "win": 3, "skip": 1, "same": False}, {"series": "later", "win": 3, "skip": 2, "same": False},
                        {"series": "plain", "win": 2, "skip": 1, "same": True}, {"series": "zero", "win": 2, "skip": 2, "same": True},
                        {"series": "four", "win": 1, "skip": 1, "same": True}, {"series": "four", "win": 3, "skip": 1, "same": False}])
def detection(ctx, series, win, skip, same):
    """per series the window farthest from its nearest neighbour; reported when its deviation from the median distance
    exceeds the threshold in mean deviations"""
    x, y = ctx.real("x", 4, 9), 6.0
    cols = {k: [{"x": x, "y": y}.get(e, e) if isinstance(e, str) else float(e) for e in v] for k, v in SER[series].items()}
    n = len(cols["a"])
    ts = tsd_multi(ctx, cols)
    cut = ctx.choice("cut", [1.0, 0.4])
    det = DT.DTWCPDDetector(ts, sliding_window_size=win, skip_size=skip, mad_threshold=cut, match_against_same_time_series=same)
    with squared():
        cps = det.detector()
    subs, near = table(ctx, cols, win, skip, same, 1e-9)
    names = list(subs)
    got = {c.ts_name: c for c in cps}
    ctx.check(len(got) == len(cps) and all(k in names for k in got), "at most one change a series")
    if len(names) > 1:
        far = {k: vmax(ctx, list(near[k].values())) for k in names}
        med = middle(ctx, list(far.values()))
        mad = mean([abs(med - f) for f in far.values()])
        for k in names:
            dev = abs(med - far[k])
            if k in got:
                ctx.check(dev >= cut * mad - 1e-9, "only far windows are reported")
                ctx.eq(got[k].confidence * mad, dev, "score", tol=1e-7)
                i = int((got[k].start_time - T0).days)
                ctx.check(got[k].end_time == T0 + pd.Timedelta(i + win - 1, "D"), "end of the window")
                ctx.check(i in near[k], "a window of the series")
                ctx.eq(near[k].get(i, -1.0), far[k], "the farthest window", tol=1e-7)
            else:
                ctx.check(dev <= cut * mad + 1e-9, "all far windows are reported")
    with squared():
        again = det.detector()
    ctx.check([(c.ts_name, c.start_time) for c in again] == [(c.ts_name, c.start_time) for c in cps], "same when repeated")
    ctx.reach("end")


@harness("C28")
def dtw_trivial(ctx):
    """without non-zero windows nothing is reported, a single non-zero series reports its first non-zero window; windows
    longer than the data and univariate data are refused"""
    n, win = 4, ctx.cint("win", 1, 5)
    skip = ctx.cint("skip", 1, 2)
    pos = ctx.cint("pos", -1, 3)
    x = ctx.real("x", 1, 9)
    limit = ctx.choice("limit", [1e-9, 5.0])
    cols = {"a": [0.0] * n, "b": [x if i == pos else 0.0 for i in range(n)]}
    multi = ctx.cbool("multi")
    ts = tsd_multi(ctx, cols) if multi else tsd(ctx, cols["b"])
    mk = lambda: DT.DTWCPDDetector(ts, sliding_window_size=win, skip_size=skip, min_value=limit)
    if win > n or not multi:
        ctx.raises(DT.DTWTimeSeriesTooSmallException, mk, "refused")
        ctx.reach("end")
        return
    det = mk()
    wins = [i for i in range(0, n - win + 1, skip) if i <= pos < i + win]
    seen = pos >= 0 and bool(x > limit) and len(wins) > 0
    for _ in range(2):
        cps = det.detector()
        ctx.check(len(cps) == (1 if seen else 0), "number of changes")
        if seen:
            ctx.check(cps[0].ts_name == "b" and cps[0].start_time == T0 + pd.Timedelta(wins[0], "D") and
                      cps[0].end_time == T0 + pd.Timedelta(wins[0] + win - 1, "D") and cps[0].confidence == 1e9, "first window")
    ctx.reach("end")


# ------------------------------------------------------------------ robust statistic detector
import kats.detectors.robust_stat_detection as RS


class Tail(object):
    """stand-in of the normal law: the tail probability is a decreasing line"""

    @staticmethod
    def sf(z):
        f = lambda v: NAN if isnan(v) else 0.5 - v * 0.125
        a = np.asarray(z, dtype=object)
        return np.array([f(v) for v in a], dtype=object if SYMBOLIC else float)


@contextlib.contextmanager
def tail():
    old = RS.norm
    RS.norm = Tail
    try:
        yield
    finally:
        RS.norm = old


@harness("C28", params=[{"pattern": p, "smooth": s, "lag": l} for p, s, l in (
    ((0, 0, 0, "x", "x", "x"), 2, -2), ((0, 1, "x", 0, 1, 0, "y"), 1, -1), ((1, 0, "x", 0, 0, 1), 3, -2), (("x", 0, 0, 1, "y"), 2, 1),
    ((0, "x", 0, 0, "x", 0, 0), 1, -2))])
def robust_statistic(ctx, pattern, smooth, lag):
    """the smoothed series is differenced at the comparison window and standardised; points whose tail probability is below
    the cutoff are changes, except those less than a smoothing window after the last one reported"""
    x, y = ctx.real("x", 2, 9), 13.0
    vals = [{"x": x, "y": y}.get(v, v) if isinstance(v, str) else float(v) for v in pattern]
    n = len(vals)
    name = ctx.choice("name", [None, "v"])
    ts = tsd(ctx, vals, name=name)
    cut = ctx.choice("cut", [0.375, 0.25])
    det = RS.RobustStatDetector(ts)
    with tail():
        cps = det.detector(p_value_cutoff=cut, smoothing_window_size=smooth, comparison_window=lag)
    sm = [mean(vals[i - smooth + 1:i + 1]) for i in range(smooth - 1, n)]
    sm = [sm[0]] * (smooth - 1) + sm
    d = [sm[i] - sm[i - lag] if 0 <= i - lag < n else 0.0 for i in range(n)]
    m, v = mean(d), var(d)
    zc = (0.5 - cut) * 8
    got = {c.index: c for c in cps}
    ctx.check([c.index for c in cps] == sorted(got), "in order")
    last = None
    for i in range(n):
        free = last is None or i - last >= smooth
        if i in got:
            c = got[i]
            ctx.check(free, "apart from the change before")
            ctx.check((d[i] - m) * (d[i] - m) >= zc * zc * v - 1e-6, "beyond the cutoff")
            ctx.check(c.start_time == T0 + pd.Timedelta(i, "D") == c.end_time, "time of the change")
            ctx.eq(c.metric, d[i], "difference")
            t = (c.confidence - 0.5) * 8
            ctx.check(t >= 0, "confidence at least one half")
            ctx.eq(t * t * v, (d[i] - m) * (d[i] - m), "confidence", tol=1e-6)
            last = i
        elif free:
            ctx.check((d[i] - m) * (d[i] - m) <= zc * zc * v + 1e-6, "no change missed")
    ctx.check(len(det.zscore) == n, "one z-score a point")
    for i in range(n):
        ctx.eq(det.zscore[i] * det.zscore[i] * v, (d[i] - m) * (d[i] - m), "z-score", tol=1e-6)
    ctx.eq_list(list(ts.value), vals, "data unchanged")
    ctx.reach("end")


@harness("C28")
def robust_multivariate(ctx):
    """multivariate data is refused"""
    v = ctx.reals("v", 3)
    multi = ctx.cbool("multi")
    if multi:
        ctx.raises(ValueError, lambda: RS.RobustStatDetector(tsd_multi(ctx, {"a": v, "b": v})), "refused")
    else:
        RS.RobustStatDetector(tsd(ctx, v))
    ctx.reach("end")
