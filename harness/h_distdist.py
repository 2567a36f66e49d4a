"""C27 distribution distance detector."""
import contextlib
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.distribution_distance_model as DD
from kats.consts import (TimeSeriesData, DataError, DataInsufficientError, DataIrregularGranularityError, InternalError,
                         ParameterError)

UNIT = {"min": 60, "h": 3600, "D": 86400}


class Distance(object):
    """stand-in of scipy.spatial.distance: every metric is some asymmetric function of the two vectors; keeps what it got"""

    def __init__(self):
        self.js = []
        self.metrics = set()

    @staticmethod
    def f(metric, x, y):
        w = 1.0 + len(metric)
        return ssum([(j + 1.0) * (w * b - a) for j, (a, b) in enumerate(zip(x, y))])

    def cdist(self, XA, XB, metric="euclidean", **k):
        self.metrics.add((metric, tuple(sorted(k))))
        return np.array([[self.f(metric, x, y) for y in XB] for x in XA], dtype=object if SYMBOLIC else float)

    def jensenshannon(self, p, q, base=None, **k):
        self.js.append((list(p), list(q), base))
        return 100.0 + len(self.js)


class ObjectArrays(object):
    """numpy whose array() can hold symbolic values even when it starts from plain numbers"""

    def __init__(self, np_):
        self.np_ = np_

    def array(self, x, *a, **k):
        return self.np_.array(x, dtype=object) if SYMBOLIC and not a and not k else self.np_.array(x, *a, **k)

    def __getattr__(self, name):
        return getattr(self.np_, name)


@contextlib.contextmanager
def stubbed():
    old = DD.distance, DD.np
    DD.distance = st = Distance()
    DD.np = ObjectArrays(old[1])
    try:
        yield st
    finally:
        DD.distance, DD.np = old


def percentile_to_prob(a, b):
    with stubbed():
        return DD._percentile_to_prob(a, b)


GRIDS = [  # time unit, offsets of history and data, window in units, index of the first data row
    {"unit": "h", "offs": (0, 1, 2, 3, 4, 5), "window": 2, "first": 4},
    {"unit": "min", "offs": (0, 10, 19, 30, 39, 49), "window": 20, "first": 3},
    {"unit": "D", "offs": (0, 1, 2, 3, 4), "window": 3, "first": 0},
    {"unit": "D", "offs": (3, 4, 5, 6, 7), "window": 3, "first": 1},
    {"unit": "min", "offs": (0, 4, 10, 14, 20, 24), "window": 10, "first": 2},
    {"unit": "h", "offs": (1, 2, 3, 4), "window": 1, "first": 2},
]


def reference(offs_, i, window):
    """the earliest row at most a window before row i, if it is more than nine tenths of the window away"""
    for j in range(i + 1):
        if offs_[i] - offs_[j] <= window:
            return j if (offs_[i] - offs_[j]) > 0.9 * window else None


@harness("C27", params=GRIDS)
def distances(ctx, unit, offs, window, first):
    """every data point is scored by its distance to the point one window earlier; points without one score zero"""
    n = len(offs)
    cols = {"q1": ctx.reals("a", n), "q2": ctx.reals("b", n)}
    metric = ctx.choice("metric", ["euclidean", "cityblock", "correlation"])
    hist = tsd_multi(ctx, {k: v[:first] for k, v in cols.items()}, offs[:first], unit) if first else None
    data = tsd_multi(ctx, {k: v[first:] for k, v in cols.items()}, offs[first:], unit)
    refs = [reference(offs, i, window) for i in range(n)]
    start = next(i for i in range(n) if refs[i] is not None)
    assert all(r is not None for r in refs[start:])
    with stubbed() as st:
        m = DD.DistributionDistanceModel(window_size_sec=window * UNIT[unit], distance_metric=metric)
        again = ctx.cbool("again")
        r = m.fit_predict(data=data, historical_data=hist)
        if again:
            r = m.fit_predict(data=data, historical_data=hist)
    ctx.check(st.metrics == {(metric, ())}, "metric asked for")
    ctx.check(list(r.scores.time) == list(data.time), "times of the data")
    ctx.check(len(r.scores) == n - first and len(r.anomaly_magnitude_ts) == n - first, "one score a point")
    for i in range(first, n):
        want = 0.0 if i < start else Distance.f(metric, [c[refs[i]] for c in cols.values()], [c[i] for c in cols.values()])
        ctx.eq(r.scores.value.iloc[i - first], want, "distance to the point one window earlier")
        ctx.eq(r.anomaly_magnitude_ts.value.iloc[i - first], 0.0, "magnitude")
    if hist is not None:
        ctx.check(len(hist) == first, "history unchanged")
        ctx.eq_list(list(hist.value["q1"]), cols["q1"][:first], "history unchanged")
    ctx.eq_list(list(data.value["q2"]), cols["q2"][first:], "data unchanged")
    ctx.reach("end")


def same(ctx, got, want, label):
    ctx.check(len(got) == len(want), label + ": length")
    for a, b in zip(got, want):
        ctx.eq(a, b, label, tol=1e-7)


def merged(ctx, l, pieces):
    """values without repetitions and their probabilities, for a list whose equal neighbours are known"""
    vals, probs = [], []
    for i, x in enumerate(l):
        if i and pieces[i - 1]:
            probs[-1] += 1.0 / len(l)
        else:
            vals.append(x)
            probs.append(1.0 / len(l))
    return vals, probs


def cdf(vals, probs, n, x):
    """interpolated distribution function at x, as the detector documents: pieces of weight 1/n between the values"""
    cum = np.cumsum(probs)
    j = next((k for k in range(len(vals)) if bool(x < vals[k])), None)
    if j is None:
        return 1.0
    if j:
        return cum[j - 1] + (x - vals[j - 1]) / (vals[j] - vals[j - 1]) / n
    if len(vals) == 1:
        return 0.0
    v = (x - vals[0]) / (vals[1] - vals[0]) / n
    return 0.0 if bool(v < 0) else v


@harness("C27", params=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}], weight=3)
def percentile_probabilities(ctx, n):
    """two percentile vectors become the probabilities of the one with more distinct values and of the other's
    distribution on the same cells"""
    pieces = {}
    lists = {}
    for name in ("p", "q"):
        pieces[name] = ctx.choice(name + "ties", [[bool(k >> i & 1) for i in range(n - 1)] for k in range(2 ** (n - 1))])
        x = [ctx.real(name + "0", -10, 10)]
        for i in range(1, n):
            x.append(x[-1] if pieces[name][i - 1] else x[-1] + ctx.real("%s%d" % (name, i), 0.1, 5))
        lists[name] = x
    arr = lambda v: np.array(v, dtype=object if SYMBOLIC else float)
    a, b = percentile_to_prob(arr(lists["p"]), arr(lists["q"]))
    (pv, pp), (qv, qp) = [merged(ctx, lists[k], pieces[k]) for k in ("p", "q")]
    swap = len(pv) < len(qv)
    if swap:
        a, b, pv, pp, qv, qp = b, a, qv, qp, pv, pp
    ctx.eq_list(list(a), pp, "probabilities of the list with more values")
    c = [cdf(qv, qp, n, x) for x in pv]
    same(ctx, b, [c[0]] + [y - x for x, y in zip(c, c[1:])], "probabilities of the other on the same cells")
    for y in list(a) + list(b):
        ctx.check(y >= -1e-9, "probabilities are not negative")
    ctx.eq(ssum(list(a)), 1.0, "total probability", tol=1e-9)
    ctx.check(ssum(list(b)) <= 1 + 1e-9, "at most everything")
    ctx.reach("end")


@harness("C27", params=[{"n": 3}])
def same_percentiles(ctx, n):
    """equal percentile vectors have equal probabilities"""
    ties = ctx.choice("ties", [[bool(k >> i & 1) for i in range(n - 1)] for k in range(2 ** (n - 1))])
    x = [ctx.real("x0", -10, 10)]
    for i in range(1, n):
        x.append(x[-1] if ties[i - 1] else x[-1] + ctx.real("x%d" % i, 0.1, 5))
    arr = np.array(x, dtype=object if SYMBOLIC else float)
    a, b = percentile_to_prob(arr, arr.copy())
    ctx.eq_list(list(a), merged(ctx, x, ties)[1], "merged probabilities")
    same(ctx, b, a, "same distribution")
    ctx.reach("end")


@harness("C27", params=[{"hist": True}, {"hist": False}])
def js_scores(ctx, hist):
    """the Jensen-Shannon scores compare the distribution one window earlier with the one now, with the asked base"""
    n, w = 4, 1
    xs = [ctx.real("x%d" % i, 0, 20) for i in range(n)]
    gaps = [1.0, 2.0, 1.0, 3.0]
    cols = {"c1": xs, "c2": [x + g for x, g in zip(xs, gaps)], "c3": [x + 2 * g + 0.5 for x, g in zip(xs, gaps)]}
    for i in range(1, n):      # far apart, so that the comparison of the values is settled
        ctx.assume(xs[i] > xs[i - 1] + 8) if i % 2 else ctx.assume(xs[i] < xs[i - 1] - 8)
    base = ctx.choice("base", [2, 10])
    first = 2 if hist else 0
    h = tsd_multi(ctx, {k: v[:first] for k, v in cols.items()}, range(first), "h") if hist else None
    data = tsd_multi(ctx, {k: v[first:] for k, v in cols.items()}, range(first, n), "h")
    with stubbed() as st:
        m = DD.DistributionDistanceModel(window_size_sec=3600, jsd_base=base)
        r = m.fit_predict(data=data, historical_data=h)
        begin = max(first, 1)
        ctx.check(len(st.js) == n - begin, "one comparison a point")
        for k, (p, q, bs) in enumerate(list(st.js)):
            i = begin + k
            row = lambda t: np.array([c[t] for c in cols.values()], dtype=object if SYMBOLIC else float)
            a, b = DD._percentile_to_prob(row(i - 1), row(i))
            ctx.eq_list(p, list(a), "distribution one window earlier")
            ctx.eq_list(q, list(b), "distribution now")
            ctx.check(bs == base, "base")
        got = [float(x) for x in r.scores.value]
    ctx.check(got == [0.0] * (begin - first) + [101.0 + k for k in range(n - begin)], "scores of the points")
    ctx.reach("end")


@harness("C27")
def refusals(ctx):
    """univariate data, different widths, windows longer than the data, gaps, decreasing percentiles and unknown metrics
    are refused"""
    case = ctx.choice("case", ["univariate", "univariate history", "width", "window", "gap", "missing", "decreasing", "metric", "fit"])
    v = ctx.reals("v", 6, 0, 5)
    up = [x + 6 for x in v]
    mk = lambda a, b, o: tsd_multi(ctx, {"a": a, "b": b}, o, "h")
    with stubbed():
        M = lambda metric="euclidean", w=3600, **k: DD.DistributionDistanceModel(window_size_sec=w, distance_metric=metric, **k)
        good = mk(v, up, range(6))
        if case == "univariate":
            ctx.raises(DataError, lambda: M().fit_predict(tsd(ctx, v, unit="h")), "refused")
        elif case == "univariate history":
            ctx.raises(DataError, lambda: M().fit_predict(mk(v[3:], up[3:], range(3, 6)), tsd(ctx, v[:3], unit="h")), "refused")
        elif case == "width":
            h = tsd_multi(ctx, {"a": v[:3], "b": v[:3], "c": v[:3]}, range(3), "h")
            ctx.raises(DataError, lambda: M().fit_predict(mk(v[3:], up[3:], range(3, 6)), h), "refused")
        elif case == "window":
            w = ctx.choice("w", [5 * 3600, 5 * 3600 + 1, 7 * 3600])
            if w > 5 * 3600:
                ctx.raises(DataInsufficientError, lambda: M(w=w).fit_predict(good), "refused")
            else:
                ctx.check(len(M(w=w).fit_predict(good).scores) == 6, "accepted")
        elif case == "gap":
            ctx.raises(DataIrregularGranularityError, lambda: M(w=2 * 3600).fit_predict(mk(v, up, (0, 1, 2, 3, 7, 8))), "refused")
        elif case == "missing":
            ctx.raises(DataIrregularGranularityError, lambda: M().fit_predict(mk(v[:3] + [NAN] + v[4:], up, range(6))), "refused")
        elif case == "decreasing":
            d = ctx.real("d", -3, 3)
            ts = mk(v[:4], [x + 1 for x in v[:3]] + [v[3] + d], range(4))
            asked = ctx.choice("asked", [True, False, "js"])
            m = M("jensenshannon") if asked == "js" else M(validate_monotonic=asked)
            if asked and bool(d < 0):
                ctx.raises(DataError, lambda: m.fit_predict(ts), "refused")
            elif asked != "js":
                ctx.check(len(m.fit_predict(ts).scores) == 4, "accepted")
        elif case == "metric":
            ctx.raises(ParameterError, lambda: M("two_sum"), "refused")
        else:
            ctx.raises(InternalError, lambda: M().fit(good), "refused")
            ctx.raises(InternalError, lambda: M().predict(good), "refused")
    ctx.reach("end")


@harness("C27")
def stored(ctx):
    """a model written out and read back has the same settings and scores"""
    metric = ctx.choice("metric", ["jensenshannon", "cityblock", "correlation"])
    mono = ctx.choice("mono", [None, True, False])
    base = ctx.choice("base", [2, 10])
    w = ctx.choice("w", [3600, 7200])
    v = ctx.reals("v", 4, 0, 5)
    for i in range(1, 4):
        ctx.assume(v[i] > v[i - 1] + 0.5)
    ts = tsd_multi(ctx, {"a": v, "b": [x + 6 for x in v]}, range(4), "h")
    with stubbed() as st:
        m = DD.DistributionDistanceModel(w, distance_metric=metric, jsd_base=base, validate_monotonic=mono)
        b = DD.DistributionDistanceModel(1, serialized_model=m.serialize())
        for k in ("window_size_sec", "distance_metric", "jsd_base", "validate_monotonic"):
            ctx.check(getattr(m, k) == getattr(b, k), k)
        ctx.check(m.validate_monotonic == (metric == "jensenshannon" or bool(mono)), "validation")
        r1 = m.fit_predict(ts)
        k = len(st.js)
        del st.js[:]
        r2 = b.fit_predict(ts)
    ctx.eq_list(list(r2.scores.value), list(r1.scores.value), "same scores")
    ctx.check(len(st.js) == k, "same comparisons")
    ctx.reach("end")
