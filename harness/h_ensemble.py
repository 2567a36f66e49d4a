"""C13 ensembles."""
import sys
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.ensemble.ensemble as EN
import kats.models.ensemble.median_ensemble as ME
import kats.models.ensemble.weighted_avg_ensemble as WE
import kats.models.ensemble.kats_ensemble as KE
from kats.consts import Params, TimeSeriesData

NAMES = ["arima", "linear", "prophet", "quadratic"]
TAB = {}  # what the stand-in models forecast, by name


class FakeParams(Params):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def validate_params(self):
        pass


class FakeModel(object):
    """forecasts the numbers TAB gives its name; remembers the data it was fitted on"""

    def __init__(self, data, params):
        self.data, self.params = data, params
        self.fitted = False

    def fit(self):
        self.fitted = True
        return self

    def predict(self, steps, **kw):
        assert self.fitted
        t = TAB[self.params.name]
        TAB["ctx"].check(t.get("data") is None or same(self.data, t["data"]), "data the model is fitted on")
        v = t["fcst"][:steps]
        d = {"time": pd.Series(pd.date_range("2030-01-01", periods=len(v))), "fcst": TAB["ctx"].series(v)}
        if "lower" in t:
            d["fcst_lower"], d["fcst_upper"] = TAB["ctx"].series(t["lower"][:steps]), TAB["ctx"].series(t["upper"][:steps])
        return pd.DataFrame(d)


def same(a, vals):
    got = list(a.value)
    return len(got) == len(vals) and all(x is y or bool(abs(x - y) < 1e-6) for x, y in zip(got, vals))


def setup(ctx, k, steps, ci=True, lo=-100, hi=100):
    """k stand-in models with arbitrary forecasts"""
    TAB.clear()
    TAB["ctx"] = ctx
    for n in NAMES[:k]:
        TAB[n] = {"fcst": ctx.reals("f_" + n, steps, lo, hi)}
        if ci:
            TAB[n]["lower"] = ctx.reals("l_" + n, steps, lo, hi)
            TAB[n]["upper"] = ctx.reals("u_" + n, steps, lo, hi)
    for m in (EN, ME, WE, KE):
        if hasattr(m, "BASE_MODELS"):
            m.BASE_MODELS = {n: FakeModel for n in NAMES}
        if hasattr(m, "MODELS"):
            m.MODELS = {n: FakeModel for n in NAMES}
            m.SMODELS = {"prophet": FakeModel}
        if hasattr(m, "Pool"):
            m.Pool = SeqPool
        if hasattr(m, "multiprocessing"):
            m.multiprocessing = FakeManager
    return NAMES[:k]


class FakeManager(object):
    @staticmethod
    def Manager():
        return FakeMP()


def params(names):
    return EN.EnsembleParams([EN.BaseModelParams(n, FakeParams(n)) for n in names])


def med(ctx, xs):
    s = list(xs)
    for i in range(len(s)):
        for j in range(len(s) - 1 - i):
            a, b = s[j], s[j + 1]
            s[j], s[j + 1] = ctx.ite(a < b, a, b), ctx.ite(a < b, b, a)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def future(n, steps, freq="D"):
    return list(pd.date_range(T0, periods=n + steps, freq=freq))[n:]


@harness("C13", params=[{"k": 1, "steps": 2}, {"k": 2, "steps": 3}, {"k": 3, "steps": 2}, {"k": 4, "steps": 2}])
def median_ensemble(ctx, k, steps):
    """forecast of each step is the median of the members' forecasts of that step"""
    names = setup(ctx, k, steps, ci=False)
    freq = ctx.choice("freq", [None, "D", "H"])
    n = 3
    ts = tsd(ctx, ctx.reals("y", n), unit="D" if freq != "H" else "H")
    m = ME.MedianEnsembleModel(ts, params(names))
    ctx.raises(ValueError, lambda: ME.MedianEnsembleModel(ts, params(names)).predict(steps), "predict before fit refused")
    m.fit()
    df = m.predict(steps, **({"freq": freq} if freq else {}))
    ctx.check([pd.Timestamp(t) for t in df["time"]] == future(n, steps, freq or "D"), "times")
    ctx.eq_list(list(df["fcst"]), [med(ctx, [TAB[x]["fcst"][i] for x in names]) for i in range(steps)], "median")
    ctx.reach("end")


def weights_of(errs):
    """inverse error weights; the guard against zero errors changes them by at most its own relative size"""
    e = [x + sys.float_info.epsilon for x in errs]
    out = []
    for i in range(len(e)):
        num = 1.0
        for j in range(len(e)):
            if j != i:
                num = num * e[j]
        out.append(num)
    return out, ssum(out)


@harness("C13", params=[{"k": 1, "steps": 2}, {"k": 2, "steps": 2}, {"k": 3, "steps": 2}], weight=2)
def weighted_ensemble(ctx, k, steps):
    """forecast = average of the members' forecasts weighted by their inverse backtest errors (normalised)"""
    names = setup(ctx, k, steps, ci=False)
    errs = dict(zip(names, ctx.reals("e", k, 0, 10)))
    for e in errs.values():
        ctx.assume(e > 0.001)
    n = 5
    ts = tsd(ctx, [1.0, 2.0, 3.0, 4.0, 5.0])
    m = WE.WeightedAvgEnsemble(ts, params(names))
    asked = []

    def single(model_params, model_class, train_percentage=80, test_percentage=20, err_method="mape"):
        asked.append((model_params.name, err_method))
        return errs[model_params.name]
    m._backtester_single = single
    m.fit()
    how = ctx.choice("err", [None, "mae"])
    df = m.predict(steps, **({"err_method": how} if how else {}))
    ctx.check(sorted(asked) == sorted((x, how or "mape") for x in names), "each member backtested with the asked error")
    w, tot = weights_of([errs[x] for x in names])
    for x, a in zip(names, w):
        ctx.eq(m.weights[x] * tot, a, "weight")
    for i in range(steps):
        ctx.eq(df["fcst"].iloc[i] * tot, ssum([a * TAB[x]["fcst"][i] for x, a in zip(names, w)]), "weighted forecast")
    ctx.check([pd.Timestamp(t) for t in df["time"]] == future(n, steps), "times")
    ctx.reach("end")


@harness("C13", params=[{"cls": "we"}, {"cls": "ke"}])
def member_errors(ctx, cls):
    """the error of a member is its backtest error on the last fifth of the data after fitting the first four fifths"""
    names = setup(ctx, 2, 4, ci=False)
    ys = ctx.reals("y", 10, 1, 100)
    ts = tsd(ctx, ys)
    for x in names:
        TAB[x]["data"] = ys[:8]
    if cls == "we":
        m = WE.WeightedAvgEnsemble(ts, params(names))
        m._backtester_all(err_method="mae")
        errs = m.errors
    else:
        m = KE.KatsEnsemble(ts, {"models": params(names), "aggregation": "weightedavg", "seasonality_length": None,
                                 "decomposition_method": "additive"})
        m.model_params = params(names)
        w, errs = m._backtester_all(err_method="mae")
    for x in names:
        f = TAB[x]["fcst"]
        ctx.eq(errs[x], (abs(ys[8] - f[0]) + abs(ys[9] - f[1])) / 2, "backtest error")
    ctx.reach("end")


@harness("C13")
def member_settings(ctx):
    """unknown members and multivariate data are refused"""
    names = setup(ctx, 2, 2)
    which = ctx.choice("cls", ["base", "median", "weighted"])
    bad = ctx.cbool("bad")
    multi = ctx.cbool("multi")
    ts = tsd_multi(ctx, {"p": ctx.reals("p", 3), "q": ctx.reals("q", 3)}) if multi else tsd(ctx, ctx.reals("y", 3))
    p = params(names + (["nosuch"] if bad else []))
    C = {"base": EN.BaseEnsemble, "median": ME.MedianEnsembleModel, "weighted": WE.WeightedAvgEnsemble}[which]
    if multi or (bad and which == "base"):
        ctx.raises(ValueError, lambda: C(ts, p), "refused")
    else:
        C(ts, p)
    ctx.reach("end")


def kats(ts, names, agg="median", method="additive", length=2, **extra):
    return KE.KatsEnsemble(ts, dict({"models": params(names), "aggregation": agg, "seasonality_length": length,
                                     "decomposition_method": method}, **extra))


@harness("C13", params=[{"method": "additive", "ci": True}, {"method": "additive", "ci": False},
                        {"method": "multiplicative", "ci": True}, {"method": "multiplicative", "ci": False}])
def reseasonalised(ctx, method, ci):
    """forecasts of the deseasonalised series get the last seasonal cycle back, step by step, limits included"""
    L, steps, n = ctx.cint("length", 1, 3), ctx.cint("steps", 1, 4), 6
    names = setup(ctx, 2, 4, ci)
    cyc = ctx.reals("s", n, 0.5, 2)
    sea = tsd(ctx, cyc)
    des = {}
    for x in names:
        df = FakeModel(None, FakeParams(x))
        df.fitted = True
        des[x] = df.predict(steps).set_index("time")
    out = KE.KatsEnsemble.reseasonalize(sea, des, method, L, steps)
    ctx.check(list(out) == names, "members")
    for x in names:
        for i in range(steps):
            s = cyc[n - L:][i % L]
            f = (lambda v: v + s) if method == "additive" else (lambda v: v * s)
            ctx.eq(out[x]["fcst"].iloc[i], f(TAB[x]["fcst"][i]), "forecast")
            if ci:
                ctx.eq(out[x]["fcst_lower"].iloc[i], f(TAB[x]["lower"][i]), "lower")
                ctx.eq(out[x]["fcst_upper"].iloc[i], f(TAB[x]["upper"][i]), "upper")
        ctx.check(len(out[x]) == steps, "steps")
        ctx.check([pd.Timestamp(t) for t in out[x].index] == list(pd.date_range("2030-01-01", periods=steps)), "times")
    ctx.reach("end")


class FakeDecomp(object):
    seasonal = None
    calls = None

    def __init__(self, data, kind="additive", *a, **k):
        self.data = data
        FakeDecomp.calls.append(kind)

    def decomposer(self):
        return {"seasonal": FakeDecomp.seasonal}


@harness("C13", params=[{"agg": "median", "seasonal": False}, {"agg": "median", "seasonal": True},
                        {"agg": "weightedavg", "seasonal": False}, {"agg": "weightedavg", "seasonal": True}], weight=3)
def kats_forecast(ctx, agg, seasonal):
    """forecast + aggregate of the decomposition ensemble: members run on the deseasonalised series and are put back on the
    seasonal cycle, seasonal members run on the series itself; then median or inverse-error weighted average, limits too"""
    run(ctx, agg, seasonal, ["linear", "prophet"], one_call=True)


@harness("C13", params=[{"agg": "median", "seasonal": False}, {"agg": "median", "seasonal": True},
                        {"agg": "weightedavg", "seasonal": False}, {"agg": "weightedavg", "seasonal": True}], weight=3)
def kats_fit_predict(ctx, agg, seasonal):
    """fit + predict + aggregate gives the same as forecast + aggregate (members without a seasonal variant)"""
    run(ctx, agg, seasonal, ["linear", "arima"], one_call=False)


@harness("C13")
def kats_fit_seasonal_member(ctx):
    """fit + predict: members that take the seasonality themselves are fitted on the series itself"""
    run(ctx, "median", True, ["linear", "prophet"], False, "seasonal members are fitted on the series itself")


def run(ctx, agg, seasonal, names, one_call, label="which series each member is fitted on"):
    setup(ctx, 4, 3, lo=1, hi=100)
    n, L, steps = 4, 2, 3
    method = ctx.choice("method", ["additive", "multiplicative"]) if seasonal else "additive"
    ys = ctx.reals("y", n, 1, 100)
    cyc = ctx.reals("s", n, 1.5, 3)
    ts = tsd(ctx, ys)
    FakeDecomp.seasonal, FakeDecomp.calls = tsd(ctx, cyc), []
    KE.TimeSeriesDecomposition = FakeDecomp
    KE.KatsEnsemble.seasonality_detector = staticmethod(lambda data: seasonal)
    m = kats(ts, names, agg, method, L if seasonal else None)
    des = [(y - c) if method == "additive" else y / c for y, c in zip(ys, cyc)]
    errs = dict(zip(NAMES, ctx.reals("e", 4, 0.01, 10)))
    # the seasonal variant forecasts through the same stand-in; it is told apart by the data it was fitted on
    fits = []

    class Rec(FakeModel):
        def predict(self, s, **kw):
            x = self.params.name
            t = TAB[x]
            own = same(self.data, ys)
            if not own:
                ctx.check(seasonal and same(self.data, des), "members are fitted on the (deseasonalised) series")
            fits.append((x, own))
            return FakeModel.predict(self, s)
    KE.MODELS = {x: Rec for x in NAMES}
    if agg == "weightedavg":
        m._backtester_single = lambda p, c, err_method="mape", **k: errs[p.name]
    if one_call:
        m.forecast(steps)
    else:
        m.fit()
        m.predict(steps)
    df = m.aggregate()
    want_fits = [(x, not seasonal) for x in names] + ([("prophet", True)] if seasonal and "prophet" in names else [])
    ctx.check(sorted(fits) == sorted(want_fits), label)
    if seasonal:
        ctx.check(FakeDecomp.calls == [method], "decomposition asked for")
    ctx.check([pd.Timestamp(t) for t in df["time"]] == future(n, steps), "times")
    mem = [(x, False) for x in names] + ([("prophet", True)] if seasonal and "prophet" in names else [])
    w, tot = weights_of([errs[x] for x, _ in mem])
    for i in range(steps):
        s = cyc[n - L:][i % L]
        for col, key in (("fcst", "fcst"), ("fcst_lower", "lower"), ("fcst_upper", "upper")):
            vals = []
            for x, own in mem:
                v = TAB[x][key][i]
                if seasonal and not own:
                    v = v + s if method == "additive" else v * s
                vals.append(v)
            if agg == "median":
                ctx.eq(df[col].iloc[i], med(ctx, vals), "median " + col)
            else:
                ctx.eq(df[col].iloc[i] * tot, ssum([a * v for a, v in zip(w, vals)]), "weighted " + col)
    ctx.eq_list(list(ts.value), ys, "data kept")
    ctx.reach("end")


@harness("C13")
def members_without_limits(ctx):
    """members without limits do not enter the median limits; a weighted average over them is refused"""
    setup(ctx, 3, 2, lo=1, hi=100)
    KE.KatsEnsemble.seasonality_detector = staticmethod(lambda data: False)
    names = NAMES[:3]
    have = [ctx.cbool("ci_" + x) for x in names]
    for x, h in zip(names, have):
        if not h:
            TAB[x].pop("lower"), TAB[x].pop("upper")
    agg = ctx.choice("agg", ["median", "weightedavg"])
    one = ctx.cbool("one_call")
    m = kats(tsd(ctx, ctx.reals("y", 3)), names, agg, length=None)
    if agg == "weightedavg":
        m._backtester_single = lambda p, c, err_method="mape", **k: 1.0
    if one:
        m.forecast(2)
    else:
        m.fit()
        m.predict(2)
    if agg == "weightedavg" and not all(have):
        ctx.raises(ValueError, m.aggregate, "weighted limits refused")
        ctx.stop()
    df = m.aggregate()
    for i in range(2):
        for col, key in (("fcst_lower", "lower"), ("fcst_upper", "upper")):
            vals = [TAB[x][key][i] for x, h in zip(names, have) if h]
            if not vals:
                ctx.check(isnan(df[col].iloc[i]), "no limits")
            elif agg == "median":
                ctx.eq(df[col].iloc[i], med(ctx, vals), "limits of those that have them")
            else:
                ctx.eq(df[col].iloc[i], mean(vals), "equal weights")
    ctx.reach("end")


@harness("C13")
def kats_settings(ctx):
    """unknown aggregation, too long a season and a seasonal series without a season length are refused; an unknown
    decomposition falls back to additive"""
    setup(ctx, 1, 2)
    n = 5
    ts = tsd(ctx, ctx.reals("y", n))
    agg = ctx.choice("agg", ["median", "weightedavg", "mean"])
    L = ctx.choice("L", [None, 1, 2, 3])
    dec = ctx.choice("dec", ["additive", "multiplicative", "other"])
    if agg == "mean" or (L or 0) > n // 2:
        ctx.raises(ValueError, lambda: kats(ts, ["arima"], agg, dec, L), "refused")
        ctx.stop()
    m = kats(ts, ["arima"], agg, dec, L)
    ctx.check(m.decomposition_method == ("multiplicative" if dec == "multiplicative" else "additive"), "decomposition")
    ctx.raises(ValueError, m.aggregate, "aggregate before predict refused")
    ctx.raises(ValueError, lambda: m.predict(2), "predict before fit refused")
    KE.KatsEnsemble.seasonality_detector = staticmethod(lambda data: True)
    if L is None:
        ctx.raises(ValueError, m.fit, "season length needed")
        ctx.raises(ValueError, lambda: m.forecast(2), "season length needed")
    ctx.reach("end")
