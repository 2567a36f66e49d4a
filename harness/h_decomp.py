"""C19 decomposition and seasonality removal."""
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.utils.decomposition as KD
from kats.consts import DataError, DataIrregularGranularityError, ParameterError, TimeSeriesData
from kats.utils.decomposition import SeasonalityHandler, TimeSeriesDecomposition

REAL = KD.seasonal_decompose, KD.STL


class Parts(object):
    pass


class Stub(object):
    """arbitrary trend and season by position; the remainder completes the series"""
    trend, season, calls = (), (), []

    @classmethod
    def split(cls, x, combine):
        frame = isinstance(x, pd.DataFrame)
        k = sum(1 for c in cls.calls if c["kind"] == "STL") - 1
        cols = [x.iloc[:, i] for i in range(x.shape[1])] if frame else [x]
        out = Parts()
        res = {"trend": [], "seasonal": [], "resid": []}
        for j, c in enumerate(cols):
            tr = [cls.trend[i % len(cls.trend)] + 3.0 * j + 5.0 * max(k, 0) for i in range(len(c))]
            se = [cls.season[i % len(cls.season)] - j - 2.0 * max(k, 0) for i in range(len(c))]
            re = [v - t - s if combine == "additive" else v / (t * s) for v, t, s in zip(c, tr, se)]
            for n, v in zip(["trend", "seasonal", "resid"], [tr, se, re]):
                res[n].append(pd.Series(v, index=x.index, dtype=object if SYMBOLIC else float))
        for n, v in res.items():
            if frame and x.shape[1] > 1:
                v = pd.concat(v, axis=1)
                v.columns = ["%s_%s" % (n, c) for c in x.columns]
            else:
                v = v[0]
                v.name = n
            setattr(out, n, v)
        cls.parts = res
        return out

    def __init__(self, x, **kw):
        Stub.calls.append(dict(kw, kind="STL", values=list(x), index=list(x.index)))
        self.x = x

    def fit(self):
        return Stub.split(self.x, "additive")

    @staticmethod
    def decompose(x, model="additive", period=None):
        Stub.calls.append({"kind": "classic", "model": model, "period": period, "index": list(x.index),
                           "values": [list(x.iloc[:, i]) for i in range(x.shape[1])]})
        return Stub.split(x, model)


class stubbed(object):
    def __init__(self, trend, season):
        Stub.trend, Stub.season = trend, season
        del Stub.calls[:]

    def __enter__(self):
        KD.seasonal_decompose, KD.STL = Stub.decompose, Stub
        return Stub.calls

    def __exit__(self, *a):
        KD.seasonal_decompose, KD.STL = REAL


def col(x, j=None):
    v = x.value
    return list(v if isinstance(v, pd.Series) else v.iloc[:, j or 0])


@harness("C19", params=[{"method": m, "decomp": d, "ncol": c} for m, d, c in
                        [("seasonal_decompose", "additive", 1), ("seasonal_decompose", "multiplicative", 2),
                         ("seasonal_decompose", "something", 2), ("STL", "additive", 1), ("other", "something", 1)]])
def parts(ctx, method, decomp, ncol):
    """trend, season and remainder are the parts found, at the times of the data, and put the data together again"""
    n = 6
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    z = ctx.real("z", -50, 50)
    trend = [ctx.real("t%d" % i, 1, 20) for i in range(2)]
    season = [ctx.real("s%d" % i, 4, 6) if decomp != "multiplicative" else 4.0 + i for i in range(3)]
    off = ctx.choice("off", [list(range(n)), [0, 1, 2, 4, 5, 6]])
    period = ctx.choice("period", [None, 3])
    cols = {"b": ys, "a": [z + 2.0 * i for i in range(n)]}
    data = tsd_multi(ctx, cols, offsets=off) if ncol == 2 else tsd(ctx, ys, offsets=off)
    with stubbed(trend, season) as calls:
        d = TimeSeriesDecomposition(data, decomposition=decomp, method=method, **({} if period is None else {"period": period}))
        out = d.decomposer()
        own = {k: [list(s) for s in v] for k, v in Stub.parts.items()}
    ctx.check(len(calls) == 1 and calls[0]["kind"] == ("classic" if method == "seasonal_decompose" else "STL"), "method")
    ctx.check(calls[0]["period"] == period, "period")
    if method == "seasonal_decompose":
        ctx.check(calls[0]["model"] == ("additive" if decomp == "something" else decomp), "model")
    ctx.check(set(out) == {"trend", "seasonal", "rem"}, "three parts")
    ctx.check([int((t - T0).days) for t in calls[0]["index"]] == off, "times used")
    for j, name in enumerate(["b", "a"][:ncol]):
        vs = calls[0]["values"]
        ctx.eq_list(vs[j] if method == "seasonal_decompose" else vs, cols[name], "values used")
        for k, own_k in [("trend", "trend"), ("seasonal", "seasonal"), ("rem", "resid")]:
            ctx.check(offs(out[k].time) == off, "times of the part")
            ctx.eq_list(col(out[k], j), own[own_k][j], k)
        if ncol == 2:
            ctx.check(list(out["trend"].value.columns) == ["b", "a"] and list(out["rem"].value.columns) == ["b", "a"], "names")
        ps = zip(col(out["trend"], j), col(out["seasonal"], j), col(out["rem"], j))
        whole = [t * s * r if decomp == "multiplicative" else t + s + r for t, s, r in ps]
        ctx.eq_list(whole, cols[name], "together again")
        ctx.eq_list(col(data, j), cols[name], "data unchanged")
    ctx.reach("end")


@harness("C19")
def multiplicative_stl(ctx):
    """the parts of a multiplicative STL decomposition are the exponentials of the parts of the logarithms"""
    n = 5
    ys = [ctx.real("y%d" % i, 1, 50) for i in range(n)]
    data = tsd(ctx, ys)
    with stubbed([0.5, 1.0], [0.25, -0.25]) as calls:
        out = TimeSeriesDecomposition(data, decomposition="multiplicative", method="STL", period=2).decomposer()
        own = {k: [list(s) for s in v] for k, v in Stub.parts.items()}
    ctx.eq_list(calls[0]["values"], [np.log(y) for y in ys], "logarithms")
    for k, own_k in [("trend", "trend"), ("seasonal", "seasonal"), ("rem", "resid")]:
        ctx.eq_list(col(out[k]), [np.exp(v) for v in own[own_k][0]], k)
        ctx.check(offs(out[k].time) == list(range(n)), "times")
    ctx.reach("end")


@harness("C19", params=[{"unit": u, "gap": g} for u, g in [("D", 1), ("min", 1), ("h", 1), ("h", 5), ("D", 7)]])
def holes(ctx, unit, gap):
    """missing values are filled before the decomposition, sub-daily data without a period uses two points"""
    n = 6
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    at = ctx.choice("at", [None, 0, 2, n - 1])
    vals = list(ys)
    if at is not None:
        vals[at] = NAN
    data = tsd(ctx, vals, offsets=[gap * i for i in range(n)], unit=unit)
    with stubbed([1.0, 2.0], [0.5, -0.5]) as calls:
        out = TimeSeriesDecomposition(data, method=ctx.choice("method", ["STL", "seasonal_decompose"])).decomposer()
    c = calls[0]
    ctx.check(c["period"] == (2 if unit in ("min", "h") else None), "period")
    got = c["values"] if c["kind"] == "STL" else c["values"][0]
    ctx.check(not any(isnan(v) for v in got), "no missing value left")
    ctx.eq_list([v for i, v in enumerate(got) if i != at], [v for i, v in enumerate(vals) if i != at], "known values")
    ps = [col(out[k]) for k in ("trend", "seasonal", "rem")]
    ctx.eq_list([a + b + c2 for a, b, c2 in zip(*ps)], got, "together again")
    ctx.reach("end")


CASES = [
    # unit, step, missing, seasonal period, first offset, expected period of STL (n = 10 points incl. gaps)
    {"unit": "D", "step": 1, "miss": (), "per": "weekly", "start": 0},
    {"unit": "D", "step": 1, "miss": (3,), "per": "weekly", "start": 5},
    {"unit": "D", "step": 1, "miss": (2, 3, 7), "per": "daily", "start": 1},
    {"unit": "h", "step": 5, "miss": (), "per": "daily", "start": 1},
    {"unit": "h", "step": 5, "miss": (4,), "per": "daily", "start": 25},
    {"unit": "h", "step": 6, "miss": (), "per": "daily", "start": 3},
    {"unit": "h", "step": 12, "miss": (6,), "per": "daily", "start": 12},
    {"unit": "min", "step": 7, "miss": (5,), "per": 1680, "start": 5},
    {"unit": "D", "step": 7, "miss": (), "per": "monthly", "start": 2},
    {"unit": "h", "step": 1, "miss": (1,), "per": "hourly", "start": 0},
    {"unit": "D", "step": 10, "miss": (), "per": "biweekly", "start": 2},
]
SEC = {"D": 86400, "h": 3600, "min": 60}
PER = {"hourly": 3600, "daily": 86400, "weekly": 7 * 86400, "biweekly": 14 * 86400, "monthly": 30 * 86400, "yearly": 365 * 86400}


@harness("C19", params=[dict(c, ncol=1 + i % 2) for i, c in enumerate(CASES)])
def handler(ctx, unit, step, miss, per, start, ncol):
    """season and the rest are reported at the times of the data and sum up to the data; gaps are filled on the line
    between their neighbours before the decomposition; the period is the given length in points, at most half the data"""
    n = 10
    pos = [i for i in range(n) if i not in miss]
    off = [start + step * i for i in pos]
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(len(pos))]
    z = ctx.real("z", -50, 50)
    cols = {"b": ys, "a": [z + 1.5 * (i % 3) for i in range(len(pos))]}
    trend = [ctx.real("t%d" % i, 1, 20) for i in range(2)]
    season = [ctx.real("s%d" % i, -6, 6) for i in range(3)]
    data = tsd_multi(ctx, cols, offsets=off, unit=unit) if ncol == 2 else tsd(ctx, ys, offsets=off, unit=unit, name="v")
    order = ctx.choice("order", ["season first", "rest first", "twice"])
    secs = PER.get(per, per)
    with stubbed(trend, season) as calls:
        h = SeasonalityHandler(data, per)
        if order == "season first":
            s, r = h.get_seasonality(), h.remove_seasonality()
        elif order == "rest first":
            r, s = h.remove_seasonality(), h.get_seasonality()
        else:
            h.get_seasonality(), h.remove_seasonality()
            s, r = h.get_seasonality(), h.remove_seasonality()
    ctx.check(len(calls) == ncol, "decomposed once")
    p = min(secs // (step * SEC[unit]), len(pos) // 2)
    p = 7 if p < 2 else p
    for j, name in enumerate(["b", "a"][:ncol]):
        ys_j = cols[name]
        c = calls[j]
        ctx.check(c["period"] == p, "period")
        ctx.check(c["robust"] is True, "robust")
        full = []
        for i in range(n):
            if i in pos:
                full.append(ys_j[pos.index(i)])
            else:
                a = max(k for k in pos if k < i)
                b = min(k for k in pos if k > i)
                full.append(ys_j[pos.index(a)] + (ys_j[pos.index(b)] - ys_j[pos.index(a)]) * (i - a) / (b - a))
        ctx.eq_list(c["values"], full, "filled series")
        ctx.check([round((t - T0) / pd.Timedelta(1, unit)) for t in c["index"]] == [start + step * i for i in range(n)],
                  "filled times")
        want = [season[i % 3] - 2.0 * j for i in pos]
        ctx.eq_list(col(s, j), want, "season")
        ctx.eq_list(col(r, j), [y - w for y, w in zip(ys_j, want)], "rest")
        ctx.eq_list(col(data, j), ys_j, "data unchanged")
    ctx.check(offs(s.time, unit) == off and offs(r.time, unit) == off, "times")
    if ncol == 2:
        ctx.check(list(s.value.columns) == ["b", "a"] and list(r.value.columns) == ["b", "a"], "names")
    else:
        ctx.check(s.value.name == "v" and r.value.name == "v", "name")
    ctx.reach("end")


@harness("C19")
def refusals(ctx):
    """series that are too short or irregular and unknown periods are refused"""
    n = ctx.choice("n", [6, 7, 8])
    per = ctx.choice("per", ["daily", "fortnightly", 86400 * 3, 2.5, None])
    shape = ctx.choice("shape", ["regular", "one gap", "off grid", "no common step"])
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    off = list(range(0, 24 * n, 24))
    if shape == "one gap":
        off = off[:3] + [o + 24 for o in off[3:]]
    if shape == "off grid":
        off[2] += 5
    if shape == "no common step":
        off = [24 * i + 3 * i * i for i in range(n)]
    data = tsd(ctx, ys, offsets=off, unit="h")
    err = None
    with stubbed([1.0], [0.5]):
        try:
            h = SeasonalityHandler(data, per)
            r = h.remove_seasonality()
        except (DataError, ParameterError, DataIrregularGranularityError) as e:
            err = e
    if n < 7:
        ctx.check(type(err) is DataError, "too short")
    elif per not in ("daily", 86400 * 3):
        ctx.check(type(err) is ParameterError, "unknown period")
    elif shape in ("off grid", "no common step"):
        ctx.check(type(err) is DataIrregularGranularityError, "irregular")
    else:
        ctx.check(err is None, "accepted")
        ctx.check(offs(r.time, "h") == off, "times")
    try:
        TimeSeriesDecomposition(tsd_multi(ctx, {"a": ys, "b": ys}))
        ctx.check(False, "several columns need the classical method")
    except ValueError:
        pass
    ctx.reach("end")
