"""C12 simple forecasting models."""
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.linear_model as LM
import kats.models.quadratic_model as QM
import kats.models.simple_heuristic_model as HM
import kats.models.theta as TM
import kats.models.harmonic_regression as HR
from kats.consts import TimeSeriesData

FREQ = {"D": "D", "H": "H", "MS": "MS", "W": "W-SUN"}


def grid(n, freq):
    return pd.Series(pd.date_range("2020-03-01", periods=n, freq=FREQ[freq]))


def build(ctx, ys, freq, name=None):
    return TimeSeriesData(time=grid(len(ys), freq), value=ctx.series(list(ys), name=name))


def check_times(ctx, df, n, steps, freq, hist, label):
    want = list(grid(n + steps, freq))
    if not hist:
        want = want[n:]
    ctx.check([pd.Timestamp(t) for t in df["time"]] == want, label + ": times")
    ctx.check(list(df.columns)[:4] == ["time", "fcst", "fcst_lower", "fcst_upper"], label + ": columns")


def polyfit_exact(n, deg, at):
    """weights w with (least-squares polynomial of degree deg through (0,y0)..(n-1,y_{n-1})) at `at` = sum w_i y_i;
    orthogonal polynomials on the grid, so no linear system is solved; also the leverage of the point"""
    from fractions import Fraction as F
    xs = [F(i) for i in range(n)]
    basis = []
    for d in range(deg + 1):
        p = lambda x, d=d: x ** d
        vals, v = [p(x) for x in xs], p(F(at))
        for bv, ba in basis:
            c = sum(a * b for a, b in zip(vals, bv)) / sum(b * b for b in bv)
            vals = [a - c * b for a, b in zip(vals, bv)]
            v = v - c * ba
        basis.append((vals, v))
    w = [sum(bv[i] * ba / sum(b * b for b in bv) for bv, ba in basis) for i in range(n)]
    return [float(x) for x in w], float(sum(ba * ba / sum(b * b for b in bv) for bv, ba in basis))


CFG = [{"deg": 1, "n": 3, "steps": 1, "freq": "D"}, {"deg": 1, "n": 5, "steps": 2, "freq": "MS"},
       {"deg": 1, "n": 4, "steps": 5, "freq": "H"}, {"deg": 2, "n": 4, "steps": 1, "freq": "D"},
       {"deg": 2, "n": 5, "steps": 2, "freq": "W"}, {"deg": 2, "n": 6, "steps": 4, "freq": "MS"},
       {"deg": 1, "n": 12, "steps": 3, "freq": "D"}, {"deg": 2, "n": 11, "steps": 3, "freq": "D"}]


@harness("C12", params=CFG, thorough=[{"deg": 1, "n": 30, "steps": 12, "freq": "D"}, {"deg": 2, "n": 24, "steps": 12, "freq": "MS"}])
def trend_forecast(ctx, deg, n, steps, freq):
    """linear / quadratic model: forecasts are the least-squares polynomial at the following steps, limits are the
    prediction interval at the declared level"""
    from scipy.stats import t as tdist
    M, P = (LM.LinearModel, LM.LinearModelParams) if deg == 1 else (QM.QuadraticModel, QM.QuadraticModelParams)
    ys = ctx.reals("y", n) if n <= 6 else [ctx.real("a") * (i % 3) + ctx.real("b") * (i * i % 5) + ctx.real("c") for i in range(n)]
    hist = ctx.cbool("history")
    alpha = ctx.choice("alpha", [0.05, 0.3])
    ts = build(ctx, ys, freq)
    m = M(ts, P(alpha=alpha))
    ctx.raises(ValueError, lambda: M(ts, P(alpha=alpha)).predict(steps=1), "predict before fit refused")
    m.fit()
    df = m.predict(steps=steps, include_history=hist)
    check_times(ctx, df, n, steps, freq, hist, "forecast")
    fit = [ssum([w * y for w, y in zip(polyfit_exact(n, deg, i)[0], ys)]) for i in range(n)]
    s2 = ssum([(y - f) * (y - f) for y, f in zip(ys, fit)]) / (n - deg - 1)
    q = float(tdist.ppf(1 - alpha / 2, n - deg - 1))
    for r, at in enumerate(range(0 if hist else n, n + steps)):
        w, lev = polyfit_exact(n, deg, at)
        f, lo, up = df["fcst"].iloc[r], df["fcst_lower"].iloc[r], df["fcst_upper"].iloc[r]
        want = ssum([a * y for a, y in zip(w, ys)])
        ctx.eq(f, want, "least squares forecast")
        ctx.eq(up + lo, 2 * want, "limits centred on the forecast")
        ctx.eq((up - want) * (up - want), q * q * (1 + lev) * s2, "half width")
        ctx.le(lo, up, "limits ordered")
    ctx.check(list(ts.value) == list(ts.value) and len(ts) == n, "data kept")
    ctx.reach("end")


@harness("C12", params=[{"n": 5, "steps": s, "freq": f} for s, f in ((1, "D"), (2, "MS"), (5, "H"))] + [{"n": 7, "steps": 3, "freq": "D"}, {"n": 6, "steps": 2, "freq": "W"}],
         weight=2)
def heuristic_forecast(ctx, n, steps, freq):
    """each horizon position takes the last / mean / median / percentile of the values at that position of the trailing
    blocks of `steps` values"""
    ys = ctx.reals("y", n)
    method = ctx.choice("method", ["last", "mean", "median", "percentile"])
    q = ctx.choice("q", [95, 30, 0, 100]) if method == "percentile" else 95
    hist = ctx.cbool("history")
    p = HM.SimpleHeuristicModelParams(method=method, quantile=q)
    p.validate_params()
    m = HM.SimpleHeuristicModel(build(ctx, ys, freq), p)
    m.fit()
    df = m.predict(steps=steps, include_history=hist)
    check_times(ctx, df, n, steps, freq, hist, "forecast")
    k = n // steps
    tail = ys[n - k * steps:]
    h = n if hist else 0
    for i in range(h):
        for c in ("fcst", "fcst_lower", "fcst_upper"):
            ctx.eq(df[c].iloc[i], ys[i], "history " + c)
    for j in range(steps):
        col = [tail[b * steps + j] for b in range(k)]
        if method == "last":
            want = col[-1]
        elif method == "mean":
            want = mean(col)
        else:
            s = srt(ctx, col)
            pos = (len(s) - 1) * (0.5 if method == "median" else q / 100)
            lo = int(pos)
            fr = pos - lo
            want = s[lo] + (s[min(lo + 1, len(s) - 1)] - s[lo]) * fr
        for c in ("fcst", "fcst_lower", "fcst_upper"):
            ctx.eq(df[c].iloc[h + j], want, method + " " + c)
    ctx.reach("end")


def srt(ctx, xs):
    """sorted by a compare-exchange network"""
    s = list(xs)
    for i in range(len(s)):
        for j in range(len(s) - 1 - i):
            a, b = s[j], s[j + 1]
            s[j], s[j + 1] = ctx.ite(a < b, a, b), ctx.ite(a < b, b, a)
    return s


@harness("C12")
def heuristic_settings(ctx):
    """unknown methods and percentiles that are no whole number in 0..100 are refused, the others are not"""
    q = ctx.choice("q", [-1, 0, 1, 50, 100, 101, 2.5])
    method = ctx.choice("method", ["last", "mean", "median", "percentile", "min"])
    p = HM.SimpleHeuristicModelParams(method=method, quantile=q)
    if method == "min" or q in (-1, 101, 2.5):
        ctx.raises(ValueError, p.validate_params, "bad setting refused")
    else:
        p.validate_params()
    ctx.reach("end")


class FakeSES(object):
    """stands for the exponential smoothing fit: any smoothing level, level, fitted values and error"""
    cfg = None
    seen = None

    def __init__(self, value, *a, **k):
        FakeSES.seen = list(value)
        self.index = value.index

    def fit(self, *a, **k):
        c = FakeSES.cfg
        self.fittedvalues = c["fit"]
        self.params = {"smoothing_level": c["alpha"]}
        self.sse = c["sse"]
        return self

    def forecast(self, steps):
        c = FakeSES.cfg
        s = c["ctx"].series([c["level"]] * steps)
        s.index = range(len(self.index), len(self.index) + steps)
        return s


@harness("C12", params=[{"n": 4, "steps": 1, "seas": 0}, {"n": 5, "steps": 3, "seas": 0}, {"n": 5, "steps": 3, "seas": 2},
                        {"n": 5, "steps": 4, "seas": 3}, {"n": 4, "steps": 2, "seas": 2}], weight=3)
def theta_forecast(ctx, n, steps, seas):
    """theta forecast = smoothing forecast + half the trend slope * (step + (1-(1-a)^n)/a), put back on the seasonal cycle;
    limits widen by step"""
    from scipy.stats import norm
    ys = ctx.reals("y", n, 1, 100)
    hist = ctx.cbool("history")
    a, level, sse = ctx.real("alpha", 0.05, 1), ctx.real("level"), ctx.real("sse", 0.1, 100)
    fit = ctx.reals("f", n)
    sig = ctx.choice("sig", [0.05, 0.2])
    ts = build(ctx, ys, "D", name="value")
    m = TM.ThetaModel(ts, TM.ThetaParams(m=max(seas, 1)))
    TM.SimpleExpSmoothing = FakeSES
    FakeSES.cfg = {"ctx": ctx, "fit": ctx.series(fit), "alpha": a, "level": level, "sse": sse}
    s = [1.0] * n
    if seas:
        cyc = ctx.reals("s", seas, 0.5, 2)
        s = [cyc[i % seas] for i in range(n)]

        class Decomp(object):
            def __init__(self, data, kind="additive", *aa, **k):
                ctx.check(kind == "multiplicative", "multiplicative decomposition")

            def decomposer(self):
                return {"seasonal": TimeSeriesData(time=ts.time, value=ctx.series(s, name="value"))}
        TM.TimeSeriesDecomposition = Decomp
        m.check_seasonality = lambda: setattr(m, "seasonal", True)
    m.fit()
    des = [y / c for y, c in zip(ys, s)]
    ctx.eq_list(FakeSES.seen, des, "smoothing runs on the deseasonalised series")
    slope = ssum([(i - (n - 1) / 2) * d for i, d in enumerate(des)]) / (n * (n * n - 1) / 12)
    df = m.predict(steps=steps, include_history=hist, alpha=sig)
    check_times(ctx, df, n, steps, "D", hist, "forecast")
    z = float(norm.ppf(1 - sig / 2))
    const = ssum([(1 - a) ** i for i in range(n)])
    h = n if hist else 0
    s2 = sse / (n - 2)
    for i in range(h):
        f, lo, up = df["fcst"].iloc[i], df["fcst_lower"].iloc[i], df["fcst_upper"].iloc[i]
        ctx.eq(f, fit[i] * s[i], "fitted value")
        ctx.eq(up + lo, 2 * f, "history limits centred")
        ctx.eq((up - f) * (up - f), z * z * s2, "history half width")
    for j in range(steps):
        want = level + slope / 2 * (j + const)
        if seas:
            want = want * cyc[(n + j) % seas]
        f, lo, up = df["fcst"].iloc[h + j], df["fcst_lower"].iloc[h + j], df["fcst_upper"].iloc[h + j]
        ctx.eq(f, want, "forecast")
        ctx.eq(up + lo, 2 * f, "limits centred")
        ctx.eq((up - f) * (up - f), z * z * s2 * (1 + j * a * a), "half width")
        ctx.le(lo, up, "limits ordered")
    ctx.eq_list(list(m.residuals), [y - f * c for y, f, c in zip(ys, fit, s)], "residuals")
    ctx.reach("end")


@harness("C12", params=[{"n": 6, "order": 1}, {"n": 7, "order": 2}])
def harmonic_forecast(ctx, n, order):
    """harmonic regression: the fitted cycle is the least-squares combination of the first harmonics to the demeaned data
    (residuals orthogonal to every harmonic) and is periodic: one period later the forecast is the same"""
    import math
    ys = ctx.reals("y", n)
    period = 8.0
    ts = TimeSeriesData(time=times(range(n), "H"), value=ctx.series(ys))
    m = HR.HarmonicRegressionModel(ts, HR.HarmonicRegressionParams(period, order))
    m.fit()
    df = m.predict(ts.time)
    got = [df["fcst"].iloc[i] for i in range(n)]
    mu = mean(ys)
    base = int((T0 - pd.Timestamp("1970-01-01")) / pd.Timedelta(1, "H"))
    for k in range(1, order + 1):
        for fn in (math.sin, math.cos):
            w = [fn(2 * math.pi * k * ((base + i) % 8) / period) for i in range(n)]
            ctx.eq(ssum([(y - mu - g) * c for y, g, c in zip(ys, got, w)]), 0.0, "residual orthogonal to the harmonics", tol=0.02)
    later = m.predict(pd.Series([t + pd.Timedelta(8, "H") for t in ts.time]))
    for i in range(n):
        ctx.eq(later["fcst"].iloc[i], got[i], "periodic", tol=0.02)
    ctx.check(list(df["time"]) == list(ts.time), "times")
    ctx.reach("end")
