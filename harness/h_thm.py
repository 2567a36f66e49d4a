"""C22 temporal hierarchies: aggregation, reconciliation, times."""
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.reconciliation.base_models as RB
import kats.models.reconciliation.thm as RT
from kats.consts import TimeSeriesData
from kats.models.reconciliation.base_models import BaseTHModel, GetAggregateTS
from kats.models.reconciliation.thm import TemporalHierarchicalModel

DT = object if SYMBOLIC else float
REAL = dict(RT.BASE_MODELS), RT.MinCovDet


def arr(xs):
    return np.array(list(xs), dtype=DT)


class Fake(object):
    """a base model with given residuals and forecasts per level"""
    made, asked = [], []
    res, fc = {}, {}

    def __init__(self, data, params):
        self.data, self.params, self.fitted = data, params, 0
        self.level = params["level"]
        Fake.made.append(self)

    def fit(self):
        self.fitted += 1
        if self.params.get("resid") == "model":
            class M(object):
                resid = pd.Series(Fake.res[self.level], dtype=DT)
            self.model = M()

    def predict(self, steps, include_history=False, freq=None, **kw):
        Fake.asked.append((self.level, steps, freq, include_history))
        if include_history:
            t = list(self.data.time)
            f = [v - r for v, r in zip(self.data.value, Fake.res[self.level])]
            return pd.DataFrame({"time": t + [t[-1] + pd.Timedelta(1, "D")], "fcst": pd.Series(f + [0.0], dtype=DT), "fcst_lower": 0.0})
        assert self.fitted
        f = Fake.fc[self.level]
        return pd.DataFrame({"time": pd.date_range(T0, periods=steps), "fcst": pd.Series([f[i % len(f)] + i // len(f) for i in range(steps)], dtype=DT)})


class stubbed(object):
    def __init__(self, res=None, fc=None, cov=None):
        Fake.res, Fake.fc, self.cov = res or {}, fc or {}, cov
        del Fake.made[:], Fake.asked[:]

    def __enter__(self):
        for d in (RT.BASE_MODELS, RB.BASE_MODELS):
            for k in d:
                d[k] = Fake
        cov = self.cov

        class Cov(object):
            def fit(self, x):
                if cov is None:
                    raise ValueError("too few")
                self.covariance_ = np.array([[cov]], dtype=DT)
                return self

        RT.MinCovDet = Cov
        return Fake

    def __exit__(self, *a):
        for d in (RT.BASE_MODELS, RB.BASE_MODELS):
            d.update(REAL[0])
        RT.MinCovDet = REAL[1]


@harness("C22", params=[{"n": n} for n in [5, 6, 7, 8]])
def aggregate(ctx, n):
    """a level sums blocks of points, the last block ends with the data, at the time of its last point"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    tname = ctx.choice("tname", ["time", "ds"])
    off = [0, 1, 2, 4, 5, 6, 8, 9][:n]
    df = pd.DataFrame({tname: times(off), "v": pd.Series(ys, dtype=DT)})
    x = TimeSeriesData(df, time_col_name=tname)
    levels = [1, 2, 3, 5]
    g = GetAggregateTS(x)
    out = g.aggregate(levels)
    ctx.check(sorted(out) == levels, "levels")
    for k in levels:
        h = n // k
        first = n - h * k
        ctx.check(offs(out[k].time) == [off[first + (i + 1) * k - 1] for i in range(h)], "times")
        ctx.eq_list(list(out[k].value), [ssum(ys[first + i * k:first + (i + 1) * k]) for i in range(h)], "sums")
    out[1].value.iloc[0] = 3.0
    ctx.eq_list(list(x.value), ys, "data unchanged")
    ctx.check(offs(x.time) == off, "data unchanged")
    for bad in [[n + 1], [0], [1.5], 3, [-1]]:
        try:
            g.aggregate(bad)
            ctx.check(False, "refused")
        except ValueError:
            pass
    ctx.reach("end")


LEVELS = [[1, 2], [2, 1, 4], [1, 3], [3, 1, 2], [1]]


def lcm(ls):
    m = 1
    while any(m % k for k in ls):
        m += 1
    return m


def summing(levels, m):
    rows = []
    for k in sorted(levels, reverse=True):
        for i in range(m // k):
            rows.append([1.0 if i * k <= j < (i + 1) * k else 0.0 for j in range(m)])
    return rows


METHODS = ["bu", "median", "struc", "diag", "full"]


@harness("C22", params=[{"lv": l, "method": m} for l in range(len(LEVELS)) for m in METHODS if not (m == "median" and l in (1, 3, 4)) and not (m in ("bu",) and l == 4)])
def reconcile(ctx, lv, method):
    """reconciled forecasts add up over the levels and are the weighted least squares fit to the base forecasts"""
    levels = LEVELS[lv]
    m = lcm(levels)
    h = 2 if m < 6 else 1
    steps = m * h - ctx.choice("less", [0, 1]) if m > 1 else 2
    base = {k: [ctx.real("f%d_%d" % (k, i), -50, 50) for i in range(m // k * h)] for k in levels}
    with_model = ctx.choice("models", [True, False])
    n = 2 * m + 1
    x = tsd(ctx, [1.0 + i for i in range(n)], offsets=[2 * i for i in range(n)])
    S = summing(levels, m)
    w = [1.0 + 0.5 * i for i in range(len(S))]
    W = np.diag(w) + 0.25 * np.eye(len(w), k=1) + 0.25 * np.eye(len(w), k=-1)
    bms = [BaseTHModel(k, model_name="linear", model_params={"level": k}) if with_model and k > 1 else
           BaseTHModel(k, residuals=arr([1.0] * (n // k)), fcsts=arr(base[k])) for k in levels]
    with stubbed(fc=base) as f:
        t = TemporalHierarchicalModel(x, bms)
        t.fit()
        if method in ("diag", "full"):
            t.get_W = lambda meth, *a: np.array(w) if method == "diag" else W
        name = {"diag": "svar", "full": "mint_sample"}.get(method, method)
        r = t.predict(steps, method=name, origin_fcst=True)
        r2 = t.predict(steps, method=name, fcst_levels=[2, 1])
        asked = list(f.asked)
    for k, s, fr, hist in asked:
        ctx.check(s == m // k * -(-steps // m) and pd.Timedelta(fr) == pd.Timedelta(2 * k, "D") and not hist, "asked of the base models")
    full = -(-steps // m)
    ctx.check(sorted(r) == ["fcst", "origin_fcst"] and sorted(r["fcst"]) == sorted(levels), "levels")
    y = list(r["fcst"][1].fcst)
    ctx.check(len(y) == steps, "steps")
    for k in levels:
        fc = r["fcst"][k]
        ctx.check(offs(fc.time) == [2 * (n - 1) + 2 * k * (i + 1) for i in range(steps // k)], "times")
        ctx.eq_list(list(fc.fcst), [ssum(y[i * k:(i + 1) * k]) for i in range(steps // k)], "levels add up")
        ctx.eq_list(list(r["origin_fcst"][k].fcst), base[k][:steps // k], "base forecasts")
        ctx.check(offs(r["origin_fcst"][k].time) == offs(fc.time), "times of base forecasts")
    ctx.check(sorted(r2) == ["fcst"] and sorted(r2["fcst"]) == [1, 2], "levels asked for")
    ctx.eq_list(list(r2["fcst"][1].fcst), y, "repeated")
    ctx.eq_list(list(r2["fcst"][2].fcst), [y[2 * i] + y[2 * i + 1] for i in range(steps // 2)], "other level")
    if method == "bu":
        ctx.eq_list(y, base[1][:steps], "bottom up")
    elif method == "median":
        for i in range(steps):
            vs = [base[k][i // k] / k for k in levels]
            ctx.eq(y[i], mean(vs), "median of two")
    else:
        V = {"struc": np.diag([float(k) for k in sorted(levels, reverse=True) for _ in range(m // k)]), "diag": np.diag(w), "full": W}[method]
        A = np.linalg.solve(V, np.array(S)).T
        for b in range(steps // m):
            yh = [base[k][b * (m // k) + i] for k in sorted(levels, reverse=True) for i in range(m // k)]
            fit = [ssum([s * v for s, v in zip(row, y[b * m:(b + 1) * m]) if s]) for row in S]
            for row in A:
                ctx.eq(ssum([float(a) * (p - q) for a, p, q in zip(row, yh, fit)]), 0.0, "least squares")
    ctx.reach("end")


@harness("C22", params=[{"lv": l} for l in [0, 1]])
def coherent(ctx, lv):
    """base forecasts that add up are not changed by any reconciliation"""
    levels = LEVELS[lv]
    m = lcm(levels)
    b = [ctx.real("b%d" % i, -50, 50) for i in range(2 * m if m < 4 else m)]
    n = 2 * m
    method = ctx.choice("method", ["bu", "struc", "svar", "hvar", "mint_shrink", "mint_sample"])
    rs = np.random.RandomState(3)
    bms = [BaseTHModel(k, residuals=rs.uniform(-1, 1, 8 * m // k), fcsts=arr([ssum(b[i * k:(i + 1) * k]) for i in range(len(b) // k)])) for k in levels]
    t = TemporalHierarchicalModel(tsd(ctx, [1.0 + i for i in range(n)]), bms)
    t.fit()
    r = t.predict(len(b), method=method, freq=ctx.choice("freq", [None, "D", "12h"]), last_timestamp=ctx.choice("last", [None, T0 + pd.Timedelta(100, "D")]))
    ctx.eq_list(list(r["fcst"][1].fcst), b, "unchanged")
    ctx.reach("end")


@harness("C22")
def asked_times(ctx):
    """the spacing and the last time given are the ones of the forecast"""
    b = [ctx.real("b%d" % i, -50, 50) for i in range(4)]
    freq, step = ctx.choice("freq", [(None, 24), ("D", 24), ("6h", 6)])
    last = ctx.choice("last", [None, T0 + pd.Timedelta(50, "D")])
    with stubbed(fc={2: b}) as f:
        t = TemporalHierarchicalModel(tsd(ctx, [1.0, 2.0, 3.0, 5.0]), [BaseTHModel(1, residuals=arr([1.0] * 4), fcsts=arr(b)),
                                                                       BaseTHModel(2, model_name="theta", model_params={"level": 2})])
        t.fit()
        r = t.predict(4, freq=freq, last_timestamp=last)
        asked = list(f.asked)
    start = T0 + pd.Timedelta(3, "D") if last is None else last
    for k in (1, 2):
        ctx.check(list(r["fcst"][k].time) == [start + pd.Timedelta(step * k * (i + 1), "h") for i in range(4 // k)], "times")
    ctx.check([pd.Timedelta(a[2]) for a in asked] == [pd.Timedelta(2 * step, "h")], "spacing asked")
    ctx.reach("end")


@harness("C22", params=[{"steps": s} for s in [3, 4, 5, 6, 7]])
def given_forecasts(ctx, steps):
    """every level must be given the forecasts that are asked of it; bottom-up only needs the first level"""
    have = {1: ctx.choice("n1", [3, 4, 6, 8]), 2: ctx.choice("n2", [1, 2, 3])}
    method = ctx.choice("method", ["bu", "struc", "median"])
    b = {k: [ctx.real("b%d_%d" % (k, i), -50, 50) for i in range(have[k])] for k in have}
    t = TemporalHierarchicalModel(tsd(ctx, [1.0 + i for i in range(8)]), [BaseTHModel(k, residuals=arr([1.0] * 8), fcsts=arr(b[k])) for k in have])
    t.fit()
    enough = have[1] >= steps and (method == "bu" or have[2] >= steps // 2)
    try:
        r = t.predict(steps, method=method)
        ctx.check(enough, "too few forecasts")
        if method == "bu":
            ctx.eq_list(list(r["fcst"][1].fcst), b[1][:steps], "values")
        ctx.check(len(r["fcst"][1]) == steps and len(r["fcst"][2]) == steps // 2, "length")
    except ValueError:
        ctx.check(not enough, "refused")
    ctx.reach("end")


@harness("C22", params=[{"method": m, "lv": l} for m in ["struc", "svar", "hvar", "mint_sample", "mint_shrink"] for l in [0, 1] if not (m == "mint_shrink" and l)])
def weights(ctx, method, lv):
    """the weights are the variances of the residuals, aligned at the end of the data"""
    levels = LEVELS[lv]
    m = lcm(levels)
    h = 2
    # the first level has residuals that do not fill a block
    res = {k: [ctx.real("r%d_%d" % (k, i), -5, 5) for i in range(h * (m // k) + (1 if k == 1 else 0))] for k in levels}
    if method == "mint_shrink":
        rs = np.random.RandomState(ctx.choice("rs", [1, 2, 3]))
        res = {k: list(rs.uniform(-1, 1, len(v))) for k, v in res.items()}
    mk = np.array if method == "mint_shrink" else arr
    t = TemporalHierarchicalModel(tsd(ctx, [1.0] * m), [BaseTHModel(k, residuals=mk(res[k]), fcsts=arr([1.0])) for k in levels])
    t.fit()
    W = t.get_W(method)
    order = [(k, i) for k in sorted(levels, reverse=True) for i in range(m // k)]
    if method == "struc":
        ctx.check([float(v) for v in W] == [float(k) for k, _ in order], "weights")
        ctx.reach("end")
        return
    if method == "svar":
        ctx.eq_list(list(W), [mean([r * r for r in res[k]]) + 1e-5 for k, _ in order], "weights")
        ctx.reach("end")
        return
    rows = [[res[k][len(res[k]) - (h - b) * (m // k) + i] for b in range(h)] for k, i in order]
    if method == "hvar":
        ctx.eq_list(list(W), [var(r) + 1e-5 for r in rows], "weights")
    else:
        mu = [mean(r) for r in rows]
        cov = [[ssum([(rows[i][b] - mu[i]) * (rows[j][b] - mu[j]) for b in range(h)]) / (h - 1) for j in range(len(rows))] for i in range(len(rows))]
        share = 1.0
        if method == "mint_shrink":
            # one factor between zero and one for all covariances
            share = float(W[0, 1] / cov[0][1])
            ctx.check(-1e-9 <= share <= 1 + 1e-9, "shrunk")
        for i in range(len(rows)):
            for j in range(len(rows)):
                ctx.eq(W[i, j], cov[i][j] * (1.0 if i == j else share) + (1e-5 if i == j else 0.0), "weights")
    try:
        t.get_W("other")
        ctx.check(False, "method")
    except ValueError:
        pass
    ctx.reach("end")


@harness("C22", params=[{"how": h} for h in ["model", "history"]])
def residuals(ctx, how):
    """residuals come from the fitted models of the levels, or are the ones given"""
    n = 5
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    res = {1: [ctx.real("r%d" % i, -5, 5) for i in range(n)], 2: [ctx.real("s%d" % i, -5, 5) for i in range(n // 2)], 3: [1.0, 2.0]}
    tname = ctx.choice("tname", ["time", "ds"])
    x = TimeSeriesData(pd.DataFrame({tname: times(range(n)), "v": pd.Series(ys, dtype=DT)}), time_col_name=tname)
    with stubbed(res=res) as f:
        t = TemporalHierarchicalModel(x, [BaseTHModel(k, model_name="arima", model_params={"level": k, "resid": how}) for k in (2, 1)] +
                                      [BaseTHModel(3, residuals=arr(res[3]), fcsts=arr([4.0]))])
        t.fit()
        got = t._get_all_residuals()
        made = list(f.made)
    ctx.check(sorted(p.level for p in made) == [1, 2] and all(p.fitted == 1 for p in made), "fitted")
    for p in made:
        k = p.level
        ctx.eq_list(list(p.data.value), [ssum(ys[n % k + i * k:n % k + (i + 1) * k]) for i in range(n // k)], "fitted data")
        ctx.check(offs(p.data.time) == [n % k + (i + 1) * k - 1 for i in range(n // k)], "fitted times")
    for k in res:
        ctx.eq_list(list(got[k]), res[k], "residuals")
    ctx.reach("end")


@harness("C22", params=[{"cov": c} for c in [True, False]])
def validation(ctx, cov):
    """the levels whose forecasts are further than the threshold from the median forecasts are reported"""
    f1 = [ctx.real("a%d" % i, -50, 50) for i in range(2)]
    f2 = [ctx.real("c%d" % i, -50, 50) for i in range(1)]
    thr = ctx.choice("thr", [1.0, 0.5, 5.0])
    c = ctx.choice("cov2", [4.0, 0.25]) if cov else None
    metric = ctx.choice("metric", ["mae"] if cov else ["mae", "mse"])
    with stubbed(cov=c):
        t = TemporalHierarchicalModel(tsd(ctx, [1.0, 2.0, 3.0, 4.0]), [BaseTHModel(1, residuals=arr([1.0] * 4), fcsts=arr(f1)),
                                                                       BaseTHModel(2, residuals=arr([1.0] * 2), fcsts=arr(f2))])
        t.fit()
        bad = t.median_validation(2, dist_metric=metric, threshold=thr)
    med = [(v + f2[0] / 2) / 2 for v in f1]
    d1, d2 = [med[i] - f1[i] for i in range(2)], med[0] + med[1] - f2[0]
    a = {"mae": [(abs(d1[0]) + abs(d1[1])) / 2, abs(d2) / 2], "mse": [(d1[0] * d1[0] + d1[1] * d1[1]) / 2, d2 * d2]}[metric]
    mid = (a[0] + a[1]) / 2
    width = c ** 0.5 if cov else abs(a[0] - a[1]) / 2
    for k, v in ((1, a[0]), (2, a[1])):
        gap = v - (mid + width * thr)
        ctx.check((gap < 1e-9) if k not in bad else (gap > -1e-9), "reported")
    ctx.reach("end")


@harness("C22")
def refused(ctx):
    """hierarchies and base models that make no sense are refused"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(6)]
    x = tsd(ctx, ys)
    xm = tsd_multi(ctx, {"a": ys, "b": ys[::-1]})
    r = arr([1.0, 2.0])
    one = BaseTHModel(1, residuals=r, fcsts=r)
    two = BaseTHModel(2, residuals=r, fcsts=r)
    for d, b in [(x, [two]), (x, [one, two, BaseTHModel(2, residuals=r, fcsts=r)]), (xm, [one, two]), (x, [one, 3])]:
        try:
            TemporalHierarchicalModel(d, b)
            ctx.check(False, "hierarchy")
        except ValueError:
            pass
    for a, kw in [((0,), dict(residuals=r, fcsts=r)), ((1.5,), dict(residuals=r, fcsts=r)), ((1,), {}), ((1,), dict(residuals=r)), ((1,), dict(fcsts=r)),
                  ((1,), dict(model_name="theta")), ((1,), dict(model_name="magic", model_params={"a": 1})), ((2,), dict(residuals=r[:0], fcsts=r))]:
        try:
            BaseTHModel(*a, **kw)
            ctx.check(False, "base model")
        except ValueError:
            pass
    try:
        GetAggregateTS(xm)
        ctx.check(False, "multivariate")
    except ValueError:
        pass
    t = TemporalHierarchicalModel(x, [one, two])
    for call in [lambda: t.predict(2), lambda: (t.fit(), t.predict(2, method="magic"))]:
        try:
            call()
            ctx.check(False, "predict")
        except ValueError:
            pass
    try:
        t.median_validation(2, dist_metric="magic")
        ctx.check(False, "metric")
    except ValueError:
        pass
    ctx.reach("end")
