"""C25 STL-based forecasting (kats/models/stlf.py)."""
import contextlib
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.stlf as ST
import kats.models.prophet as PM
import kats.models.theta as TM
import kats.models.linear_model as LM
import kats.models.quadratic_model as QM
import kats.models.simple_heuristic_model as HM
from kats.consts import TimeSeriesData

WHERE = {"prophet": (PM, "ProphetModel", "ProphetParams"), "theta": (TM, "ThetaModel", "ThetaParams"),
         "linear": (LM, "LinearModel", "LinearModelParams"), "quadratic": (QM, "QuadraticModel", "QuadraticModelParams"),
         "simple": (HM, "SimpleHeuristicModel", "SimpleHeuristicModelParams")}


@contextlib.contextmanager
def patched(pairs):
    old = [(m, k, getattr(m, k)) for m, k, _ in pairs]
    for m, k, v in pairs:
        setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def column(ctx, xs):
    return pd.Series(np.array(list(xs), dtype=object if SYMBOLIC else float))


@contextlib.contextmanager
def world(ctx, ts, seas, trend, fc, limits):
    """the decomposition and the forecasting models are stand-ins with arbitrary outputs; yields what they were given"""
    rec = {"fits": 0}

    class Decomp(object):
        def __init__(self, data, decomposition="additive", method="STL", **kw):
            rec["decomp"] = dict(kw, data=data, decomposition=decomposition, method=method)

        def decomposer(self):
            mk = lambda v: TimeSeriesData(time=ts.time, value=ctx.series(list(v)))
            return {"trend": mk(trend), "seasonal": mk(seas), "rem": mk(trend)}

    def make(name):
        class Model(object):
            def __init__(self, data, params):
                rec["model"], rec["data"], rec["params"] = name, data, params

            def fit(self, *a, **k):
                rec["fits"] += 1

            def predict(self, steps, include_history=False, freq=None, **kw):
                rec["freq"] = freq
                n = len(rec["data"])
                rows = list(range(n + steps) if include_history else range(n, n + steps))
                df = pd.DataFrame({"time": pd.date_range("1999-01-01", periods=len(rows)),
                                   "fcst": column(ctx, [fc["fcst"][i] for i in rows])})
                if limits:
                    for c in ("fcst_lower", "fcst_upper"):
                        df[c] = column(ctx, [fc[c][i] for i in rows])
                return df
        return Model
    with patched([(ST, "TimeSeriesDecomposition", Decomp)] +
                 [(m, c, make(k)) for k, (m, c, _) in WHERE.items()]):
        yield rec


OFFS = {"gap": [0, 1, 2, 4, 5, 6, 8], "D": range(9), "H": range(9)}


@harness("C25", params=[{"method": a, "mode": b, "n": n, "m": m} for a, b, n, m in (
    ("linear", "additive", 5, 2), ("quadratic", "multiplicative", 6, 3), ("theta", "additive", 4, 3),
    ("prophet", "multiplicative", 5, 3), ("simple", "additive", 5, 4), ("simple", "multiplicative", 4, 2))],
    thorough=[{"method": a, "mode": b, "n": 9, "m": m} for a in WHERE for b, m in (("additive", 4), ("multiplicative", 7))])
def stl_forecast(ctx, method, mode, n, m):
    """the model forecasts the series without its seasonality; every forecast gets the seasonality of its own time back"""
    steps = ctx.choice("steps", [1, 2, 5])
    hist = ctx.cbool("history")
    limits = ctx.cbool("limits")
    freq = ctx.choice("freq", [None, "D", "H"])
    ys = ctx.reals("y", n)
    seas = ctx.reals("s", n, 0.5, 2.0)
    trend = ctx.reals("tr", n)
    fc = {c: ctx.reals(c, n + steps) for c in ("fcst", "fcst_lower", "fcst_upper")}
    unit = "D" if freq is None else freq
    ts = tsd(ctx, ys, unit=unit)
    with world(ctx, ts, seas, trend, fc, limits) as rec:
        model = ST.STLFModel(ts, ST.STLFParams(method=method, m=m, decomposition=mode))
        ctx.raises(ValueError, lambda: model.predict(steps=steps), "predicting before fitting refused")
        model.fit()
        df = model.predict(steps=steps, include_history=hist, **({} if freq is None else {"freq": freq}))
    ctx.check(rec["model"] == method and rec["fits"] == 1, "the chosen model is fitted once")
    ctx.check(rec["decomp"]["data"] is ts and rec["decomp"]["method"] == "STL" and
              rec["decomp"]["decomposition"] == mode and rec["decomp"]["period"] == m, "decomposition asked for")
    down = (lambda a, b: a - b) if mode == "additive" else (lambda a, b: a / b)
    up = (lambda a, b: a + b) if mode == "additive" else (lambda a, b: a * b)
    want = trend if method == "simple" else [down(y, s) for y, s in zip(ys, seas)]
    ctx.eq_list(list(rec["data"].value), want, "data of the forecasting model")
    ctx.check(list(rec["data"].time) == list(ts.time), "times of the forecasting model")
    ctx.check(rec["freq"] == unit, "frequency of the forecasting model")
    rows = list(range(0 if hist else n, n + steps))
    ctx.check(len(df) == len(rows), "rows")
    ctx.check([pd.Timestamp(t) for t in df["time"]] == [T0 + pd.Timedelta(i, unit) for i in rows], "times")
    for r, i in enumerate(rows):
        s = seas[i] if i < n else seas[n - m + (i - n) % m]
        ctx.eq(df["fcst"].iloc[r], up(fc["fcst"][i], s), "forecast has the seasonality of its time")
        for c in ("fcst_lower", "fcst_upper"):
            v = df[c].iloc[r]
            if limits:
                ctx.eq(v, up(fc[c][i], s), "limit has the seasonality of its time")
            else:
                ctx.check(v is None or isnan(v), "no limits made up")
    ctx.eq_list(list(ts.value), ys, "data handed in unchanged")
    ctx.reach("end")


SET = dict(seasonal=9, trend=11, low_pass=13, seasonal_deg=0, trend_deg=0, low_pass_deg=0, robust=True, seasonal_jump=2,
           trend_jump=3, low_pass_jump=4)


@harness("C25")
def settings_forwarded(ctx):
    """every decomposition setting reaches the decomposition, the given model parameters reach the model, defaults fit it"""
    method = ctx.choice("method", list(WHERE))
    some = ctx.cbool("custom")
    mod, cls, par = WHERE[method]
    P = getattr(mod, par)
    mp = (P(m=1) if method == "theta" else P()) if some else None
    ys = ctx.reals("y", 6)
    ts = tsd(ctx, ys)
    one = [1.0] * 6
    with world(ctx, ts, one, one, {}, False) as rec:
        p = ST.STLFParams(method=method, m=3, decomposition="additive", method_params=mp, **(SET if some else {}))
        ST.STLFModel(ts, p).fit()
    if some:
        for k, v in SET.items():
            ctx.check(rec["decomp"][k] == v, "setting " + k)
        ctx.check(rec["params"] is mp, "model parameters")
    else:
        ctx.check(type(rec["params"]) is P, "default model parameters")
        ctx.check(rec["decomp"]["seasonal"] == 7 and rec["decomp"]["trend"] is None and rec["decomp"]["robust"] is False, "defaults")
    ctx.reach("end")


@harness("C25")
def settings_refused(ctx):
    """unknown methods and decompositions, seasons longer than the data and multivariate data are refused"""
    method = ctx.choice("method", list(WHERE) + ["nosuch"])
    mode = ctx.choice("mode", ["additive", "multiplicative", "nosuch"])
    some = ctx.cbool("custom")
    mp = LM.LinearModelParams() if some else None
    if method == "nosuch" or mode == "nosuch":
        ctx.raises(ValueError, lambda: ST.STLFParams(method=method, m=3, decomposition=mode, method_params=mp), "refused")
        ctx.reach("end")
        return
    p = ST.STLFParams(method=method, m=3, decomposition=mode, method_params=mp)
    n = ctx.cint("n", 2, 4)
    multi = ctx.cbool("multi")
    ts = tsd_multi(ctx, {"p": ctx.reals("p", n), "q": ctx.reals("q", n)}) if multi else tsd(ctx, ctx.reals("y", n))
    if multi or n < 3:
        ctx.raises(ValueError, lambda: ST.STLFModel(ts, p), "refused")
    else:
        ST.STLFModel(ts, p)
    ctx.reach("end")


@harness("C25", params=[{"method": "linear"}, {"method": "simple"}])
def refit(ctx, method):
    """fitting again replaces the first fit, forecasts before and after it are the same"""
    n, m = 4, 2
    ys = ctx.reals("y", n)
    seas, trend = ctx.reals("s", n, 0.5, 2.0), ctx.reals("tr", n)
    fc = {"fcst": ctx.reals("fcst", n + 3)}
    ts = tsd(ctx, ys)
    with world(ctx, ts, seas, trend, fc, False) as rec:
        model = ST.STLFModel(ts, ST.STLFParams(method=method, m=m, decomposition="multiplicative"))
        model.fit()
        a = list(model.predict(steps=2)["fcst"])
        b = list(model.predict(steps=3, include_history=True)["fcst"])
        model.fit()
        c = list(model.predict(steps=2)["fcst"])
    ctx.eq_list(c, a, "same forecast after another fit")
    ctx.eq_list(b[n:n + 2], a, "same forecast with history")
    ctx.eq_list(list(rec["data"].value), trend if method == "simple" else [y / s for y, s in zip(ys, seas)], "deseasonalised once")
    ctx.reach("end")
