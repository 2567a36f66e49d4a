"""C18 Mann-Kendall trend detector."""
import collections

import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.trend_mk as TM
from kats.consts import DataError, InternalError, ParameterError

REALMK, REALSES = TM.mk, TM.SimpleExpSmoothing
Res = collections.namedtuple("Res", "trend h p z Tau s var_s slope intercept")


class Fit(object):
    def __init__(self, y):
        self.y = y

    def predict(self, start=None, end=None):
        level, out = self.y.iloc[0], []
        for v in self.y:
            out.append(level)
            level = 0.2 * v + 0.8 * level
        return pd.Series(out, index=self.y.index, dtype=object if SYMBOLIC else float).loc[start:end]


class Ses(object):
    """fitted values of simple exponential smoothing with a fixed level, started at the first value"""
    broken = ()
    calls = []

    def __init__(self, y):
        self.y = y
        Ses.calls.append(y.name)

    def fit(self, smoothing_level=None, optimized=True):
        if len(Ses.calls) - 1 in Ses.broken:
            raise FloatingPointError("no noise")
        if smoothing_level != 0.2 or optimized:
            raise AssertionError("smoothing level")
        return Fit(self.y)


class Mk(object):
    """arbitrary test results, in the order of the calls"""

    def __init__(self, results):
        self.results, self.seen = results, []

    def give(self, kind, x, alpha):
        r = self.results[len(self.seen) % len(self.results)]
        x = np.asarray(x)
        self.seen.append((kind, x.shape, list(x.flatten()), alpha))
        if r is None:
            raise ZeroDivisionError("float division by zero")
        tau, p = r
        trend = "no trend"
        if bool(p < alpha):
            trend = "increasing" if bool(tau > 0) else "decreasing"
        return Res(trend, trend != "no trend", p, 0.0, tau, 0.0, 0.0, 0.0, 0.0)

    def original_test(self, x, alpha=0.05):
        return self.give("one", x, alpha)

    def multivariate_test(self, x, alpha=0.05):
        return self.give("multi", x, alpha)


class stubbed(object):
    def __init__(self, results, broken=()):
        self.mk = Mk(results)
        Ses.broken = broken
        del Ses.calls[:]

    def __enter__(self):
        TM.mk, TM.SimpleExpSmoothing = self.mk, Ses
        return self.mk

    def __exit__(self, *a):
        TM.mk, TM.SimpleExpSmoothing = REALMK, REALSES


def smooth(xs):
    level, out = xs[0], []
    for v in xs:
        out.append(level)
        level = 0.2 * v + 0.8 * level
    return out


def rolled(xs, k):
    return [mean(xs[i - k + 1:i + 1]) for i in range(k - 1, len(xs))]


def trend_of(tau, p, alpha, thr):
    if not bool(p < alpha) or bool((tau <= thr) & (tau >= -thr)):
        return "no trend"
    return "increasing" if bool(tau > 0) else "decreasing"


WANT = {"up": ("increasing",), "down": ("decreasing",), "both": ("increasing", "decreasing")}


@harness("C18", params=[{"n": n, "w": w} for n, w in [(6, 3), (4, 4), (8, 6)]], weight=2)
def windows(ctx, n, w):
    """at every time after the first full window the window of smoothed values that ends there is tested; the result is a change point if the test is
    significant, its correlation exceeds the threshold and has the wanted direction"""
    ys = [ctx.real("y%d" % i, -100, 100) for i in range(n)]
    m = n - w
    taus = [ctx.real("tau%d" % i, -1, 1) for i in range(m)]
    ps = [ctx.real("p%d" % i, 0, 1) if i == 0 else 0.001 * (i + 1) for i in range(m)]
    alpha = ctx.real("alpha", 0.01, 0.9)
    thr = ctx.real("thr", 0, 1)
    if m == 3:
        ctx.assume(taus[1] > thr)
    direction = ctx.choice("direction", ["up", "down", "both"])
    broken = ctx.choice("broken", [False, True]) if m == 2 else False
    data = tsd(ctx, ys)
    with stubbed(list(zip(taus, ps)) or [None], (0,) if broken else ()) as mk:
        d = TM.MKDetector(data, threshold=thr, alpha=alpha, multivariate=ctx.choice("announced", [False, True]) if m < 3 and not broken else False)
        cps = d.detector(window_size=w, direction=direction)
    sm = ys if broken else smooth(ys)
    ctx.check(len(mk.seen) == m, "one test for every window")
    for i, (kind, shape, xs, a) in enumerate(mk.seen):
        ctx.check(kind == "one" and shape == (w,), "univariate test of the window")
        ctx.eq_list(xs, sm[i + 1:i + 1 + w], "window[%d]" % i)
        ctx.eq(a, alpha, "significance level")
    st = d.get_MK_statistics()
    ctx.check(list(st.columns) == ["ds", "trend_direction", "p", "Tau"], "statistics columns")
    ctx.check(offs(st.ds) == list(range(w, n)), "statistics times")
    ctx.eq_list(list(st.p), ps, "statistics p")
    ctx.eq_list(list(st.Tau), taus, "statistics Tau")
    tr = [trend_of(t, p, alpha, thr) for t, p in zip(taus, ps)]
    ctx.check(list(st.trend_direction) == tr, "statistics trend")
    sel = [i for i in range(m) if tr[i] in WANT[direction]]
    ctx.check(offs([c.start_time for c in cps]) == [i + w for i in sel], "change points")
    for c, i in zip(cps, sel):
        ctx.check(c.end_time == c.start_time and c.trend_direction == tr[i] and c.is_multivariate is False, "change point")
        ctx.eq(c.confidence, 1 - ps[i], "confidence")
        ctx.eq(c.Tau, taus[i], "Tau")
    ctx.eq_list(list(data.value), ys, "data unchanged")
    ctx.reach("end")


@harness("C18", params=[{"freq": "daily", "n": 5, "w": 3}, {"freq": "weekly", "n": 11, "w": 4},
                        {"freq": "monthly", "n": 32, "w": 3}, {"freq": "weekly", "n": 9, "w": 4}])
def seasonality(ctx, freq, n, w):
    """with a seasonality the windows come from the smoothed moving averages over one season"""
    k = {"daily": 1, "weekly": 7, "monthly": 30}[freq]
    a = [ctx.real("a%d" % i, -50, 50) for i in range(4)]
    ys = [a[i % 4] + 0.25 * i for i in range(n)]
    data = tsd(ctx, ys)
    with stubbed([(0.9, 0.01)]) as mk:
        d = TM.MKDetector(data)
        cps = d.detector(window_size=w, freq=freq)
    sm = smooth(rolled(ys, k))
    m = len(sm) - w
    ctx.check(len(mk.seen) == max(0, m), "one test for every full window")
    for i, (kind, shape, xs, al) in enumerate(mk.seen):
        ctx.eq_list(xs, sm[i + 1:i + 1 + w], "window[%d]" % i)
    ctx.check(offs([c.start_time for c in cps]) == list(range(k - 1 + w, n)), "change points")
    ctx.check(len(d.get_MK_statistics()) == max(0, m), "statistics")
    ctx.reach("end")


@harness("C18", params=[{"n": n, "w": w, "days": t, "freq": f} for n, w, t, f in
                        [(8, 3, 3, None), (8, 3, 5, None), (6, 4, 6, None), (14, 3, 9, "weekly"), (7, 3, 4, "daily")]])
def anchor(ctx, n, w, days, freq):
    """with training days only the last time is tested, from the values of the given number of days before it"""
    ys = [ctx.real("y%d" % i, -100, 100) for i in range(n)]
    tau = ctx.real("tau", -1, 1)
    p = ctx.real("p", 0, 1)
    thr = ctx.real("thr", 0, 1)
    two = ctx.choice("two", [False, True])
    direction = ctx.choice("direction", ["up", "down", "both"])
    xs2 = [3.0 - y for y in ys]
    data = tsd_multi(ctx, {"b": ys, "a": xs2}) if two else tsd(ctx, ys)
    with stubbed([(tau, p)]) as mk:
        d = TM.MKDetector(data, threshold=thr, multivariate=two)
        cps = d.detector(window_size=w, training_days=days, direction=direction, freq=freq)
    use = [ys[max(0, n - days - 1):], xs2[max(0, n - days - 1):]]
    if freq:
        use = [rolled(u, {"weekly": 7, "daily": 1}[freq]) for u in use]
    sm = [smooth(u)[-w:] for u in use]
    ctx.check(len(mk.seen) == (3 if two else 1), "tests")
    if two:
        ctx.eq_list(mk.seen[0][2], [v for r in zip(*sm) for v in r], "joint window")
        ctx.eq_list(mk.seen[1][2], sm[0], "window of b")
        ctx.eq_list(mk.seen[2][2], sm[1], "window of a")
    else:
        ctx.eq_list(mk.seen[0][2], sm[0], "window")
    st = d.get_MK_statistics()
    ctx.check(offs(st.ds) == [n - 1], "only the anchor is tested")
    want = trend_of(tau, p, 0.05, thr)
    got = st.trend_direction.iloc[0]
    ctx.check((got["overall"] if two else got) == want, "trend")
    ctx.check(offs([c.start_time for c in cps]) == ([n - 1] if want in WANT[direction] else []), "change point")
    if two:
        top = d.get_top_k_metrics(T0, top_k=1)
        ctx.check(len(top) == 1 and offs(top.ds) == [n - 1], "metrics of the anchor")
    ctx.reach("end")


@harness("C18", params=[{"bad": None}, {"bad": 1}, {"bad": 0}], weight=2)
def metrics(ctx, bad):
    """several metrics: the joint test decides, every metric is reported with its own test"""
    n, w = 5, 3
    ys = [ctx.real("y%d" % i, -100, 100) for i in range(n)]
    z = ctx.real("z", -100, 100)
    cols = {"b": ys, "a": [z + v for v in [0.0, 1.0, -1.0, 0.5, 2.0]]}
    alpha = ctx.real("alpha", 0.01, 0.9) if bad is None else 0.05
    thr = 0.5
    res = []
    for i in range(2):
        t = ctx.real("tau%d" % i, -1, 1) if i == 0 or bad is not None else -0.9
        res.append((t, ctx.real("p0", 0, 1) if i == 0 else 0.005))
        res.append((ctx.real("tb", -1, 1), 0.002) if i == 0 else (0.25, 0.001))
        res.append((-0.75, 0.003) if i == 0 else (0.625, ctx.real("pa", 0, 1)))
    if bad is not None:
        res[2 + 3 * bad] = None
    direction = ctx.choice("direction", ["up", "down", "both"]) if bad is None else "both"
    data = tsd_multi(ctx, cols)
    with stubbed(res) as mk:
        d = TM.MKDetector(data, threshold=thr, alpha=alpha, multivariate=bad is not None)
        cps = d.detector(window_size=w, direction=direction)
    sm = {k: smooth(v) for k, v in cols.items()}
    ctx.check(len(mk.seen) == 6, "tests")
    for i in range(2):
        ctx.check(mk.seen[3 * i][0] == "multi" and mk.seen[3 * i][1] == (w, 2), "joint test")
        ctx.eq_list(mk.seen[3 * i][2], [v for r in zip(sm["b"][i + 1:i + 1 + w], sm["a"][i + 1:i + 1 + w]) for v in r], "joint window")
        for j, k in enumerate(["b", "a"]):
            ctx.check(mk.seen[3 * i + 1 + j][:2] == ("one", (w,)), "own test")
            ctx.eq_list(mk.seen[3 * i + 1 + j][2], sm[k][i + 1:i + 1 + w], "own window")
    for s in mk.seen:
        ctx.eq(s[3], alpha, "significance level")
    st = d.get_MK_statistics()
    ctx.check(offs(st.ds) == [3, 4], "times")
    tr = []
    for i in range(2):
        want = {}
        for k, r in zip(["overall", "b", "a"], res[3 * i:3 * i + 3]):
            want[k] = (None, None) if r is None else (r[0], trend_of(r[0], r[1], alpha, thr))
        ctx.check(dict(st.trend_direction.iloc[i]) == {k: v[1] for k, v in want.items()}, "trends")
        got = st.Tau.iloc[i]
        ctx.check(set(got) == set(want), "correlations of all metrics")
        for k in want:
            if want[k][0] is None:
                ctx.check(got[k] is None, "no correlation")
            else:
                ctx.eq(got[k], want[k][0], "correlation")
        ctx.eq(st.p.iloc[i], res[3 * i][1], "p")
        tr.append(want["overall"][1])
    sel = [i for i in range(2) if tr[i] in WANT[direction]]
    ctx.check(offs([c.start_time for c in cps]) == [i + 3 for i in sel], "change points")
    for c, i in zip(cps, sel):
        ctx.check(c.is_multivariate is True and c.trend_direction["overall"] == tr[i], "change point")
        ctx.eq(c.confidence, 1 - res[3 * i][1], "confidence")
        ctx.eq(c.Tau["overall"], res[3 * i][0], "Tau")
    ctx.reach("end")


@harness("C18", params=[{"direction": d} for d in ["up", "down", "both"]], weight=2)
def top(ctx, direction):
    """the metrics at a time are ranked by their correlation in the wanted direction"""
    n, w = 5, 3
    ys = [ctx.real("y%d" % i, -100, 100) for i in range(n)]
    cols = {"b": ys, "c": [2.0, 1.0, 5.0, 3.0, 1.0], "a": [0.0, 1.0, -1.0, 0.5, 2.0]}
    ts = [ctx.real("t0", -1, 1), ctx.real("t1", 0.31, 1), -0.5]
    at = ctx.choice("at", [3, 4])
    other = (0.125, 0.25, -0.5)
    res = []
    for i in (3, 4):
        res += [(0.5, 0.001)] + [(t, 0.001) for t in (ts if i == at else other)]
    key = [t if direction == "up" else -t if direction == "down" else abs(t) for t in ts]
    for i in range(3):
        for j in range(i):
            ctx.assume(key[i] != key[j])
    data = tsd_multi(ctx, {k: [v + 0 * ys[0] for v in vs] for k, vs in cols.items()})
    k = None if at == 3 else ctx.choice("k", [1, 2, 5])
    with stubbed(res):
        d = TM.MKDetector(data, threshold=0.3, multivariate=True)
        d.detector(window_size=w, direction=direction)
        got = d.get_top_k_metrics(T0 + pd.Timedelta(at, "D"), top_k=k)
    names = list(cols)
    sign = -1 if direction == "down" else 1
    order = []
    for i in range(3):
        pos = sum(1 for j in range(3) if j != i and bool(key[j] > key[i]))
        order.append((pos, i))
    order = [i for _, i in sorted(order)][:k]
    ctx.check(list(got.metric) == [names[i] for i in order], "ranked metrics")
    ctx.eq_list(list(got.Tau), [ts[i] for i in order], "their correlation")
    ctx.check(list(got.trend_direction) == [trend_of(ts[i], 0.001, 0.05, 0.3) for i in order], "their trend")
    ctx.check(offs(got.ds) == [at] * len(order), "their time")
    ctx.reach("end")


@harness("C18")
def refusals(ctx):
    """windows that do not fit, unknown directions and questions before the detection are refused"""
    n = 5
    ys = [ctx.real("y%d" % i, -100, 100) for i in range(n)]
    data = tsd(ctx, ys)
    w = ctx.choice("w", [3, 5, 6, 9])
    days = ctx.choice("days", [None, 2, 4, 5, 6])
    direction = ctx.choice("direction", ["both", "sideways"])
    with stubbed([(0.9, 0.01)]) as mk:
        d = TM.MKDetector(data)
        try:
            d.get_MK_statistics()
            ctx.check(False, "statistics before the detection refused")
        except InternalError:
            pass
        ok = (w <= n if days is None else w <= days <= n) and direction == "both"
        try:
            d.detector(window_size=w, training_days=days, direction=direction)
            ctx.check(ok, "refused")
        except ParameterError:
            ctx.check(not ok, "accepted")
        if ok:
            try:
                d.get_top_k_metrics(T0, 1)
                ctx.check(False, "ranking of one metric refused")
            except DataError:
                pass
    ctx.reach("end")
