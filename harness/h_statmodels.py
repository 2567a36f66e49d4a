"""C29 statistical forecasting models: what is fitted and what is made of the answers (arima, sarima, holtwinters, var, bayesian_var)."""
import contextlib
import io
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.arima as AR
import kats.models.bayesian_var as BV
import kats.models.holtwinters as HW
import kats.models.sarima as SA
import kats.models.var as VA
from kats.consts import TimeSeriesData

DT = object if SYMBOLIC else float


@contextlib.contextmanager
def patched(pairs):
    old = [(m, k, getattr(m, k)) for m, k, _ in pairs]
    for m, k, v in pairs:
        setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def col(xs, index=None):
    return pd.Series(np.array(list(xs), dtype=DT), index=index)


SPACINGS = {"D": ("D", "2020-01-01"), "MS": ("MS", "2020-01-01"), "3H": ("3H", "2020-01-01")}


def series(ctx, n, spacing, cols=None):
    t = pd.date_range(SPACINGS[spacing][1], periods=n, freq=SPACINGS[spacing][0])
    if cols is None:
        ys = ctx.reals("y", n, -50, 50)
        return TimeSeriesData(time=pd.Series(t), value=ctx.series(ys)), ys
    data = {c: ctx.reals(c, n, -50, 50) for c in cols}
    df = pd.DataFrame({"time": t})
    for c in cols:
        df[c] = ctx.series(data[c])
    return TimeSeriesData(df), data


def future(n, steps, spacing):
    return list(pd.date_range(SPACINGS[spacing][1], periods=n + steps, freq=SPACINGS[spacing][0]))[n:]


class Answer(object):
    """what statsmodels answers for some rows: arbitrary means, limits as wide as the level says"""

    def __init__(self, rows, level, wide):
        self.rows, self.wide, self.level = rows, wide, level
        self.predicted_mean = col([level[i] for i in rows], index=pd.RangeIndex(rows[0], rows[-1] + 1))
        self.index = self.predicted_mean.index

    def conf_int(self, alpha=0.05, **kw):
        w = self.wide[alpha]
        return pd.DataFrame({"lower value": col([self.level[i] - w for i in self.rows], index=self.index),
                             "upper value": col([self.level[i] + w for i in self.rows], index=self.index)})

    def summary_frame(self, alpha=0.05, **kw):
        ci = self.conf_int(alpha)
        return pd.DataFrame({"mean": self.predicted_mean, "mean_se": 1.0, "mean_ci_lower": ci["lower value"], "mean_ci_upper": ci["upper value"]})


class World(object):
    """stand-in of the model classes of statsmodels: keeps what it is given"""

    def __init__(self, ctx, n, more=6):
        self.n = n
        self.level = [ctx.real("f%d" % i, -50, 50) for i in range(n + more)]
        self.wide = {a: ctx.real("w%d" % (100 * a), 0.5, 9) for a in (0.05, 0.2, 0.5)}
        self.made, self.fits, self.asked = [], [], []
        world = self

        class Result(object):
            def get_forecast(self, steps=1, exog=None, **kw):
                world.asked.append((steps, exog))
                return Answer(list(range(world.n, world.n + steps)), world.level, world.wide)

            def get_prediction(self, start=0, end=None, **kw):
                end = world.n - 1 if end is None else end
                return Answer(list(range(start or 0, end + 1)), world.level, world.wide)

            def forecast(self, steps=1, **kw):
                return self.get_forecast(steps).predicted_mean

            def predict(self, start=0, end=None, **kw):
                return self.get_prediction(start, end).predicted_mean

        class Model(object):
            def __init__(self, endog, **kw):
                world.made.append((endog, kw))

            def fit(self, *a, **kw):
                world.fits.append((a, kw))
                return Result()
        self.Model = Model


def frame(ctx, df, rows, times, want, limits=None):
    """rows of a forecast: times, values and, where given, limits"""
    ctx.check(len(df) == len(rows), "rows")
    ctx.check([pd.Timestamp(t) for t in df["time"]] == list(times), "times")
    for r, i in enumerate(rows):
        v = df["fcst"].iloc[r]
        if want[i] is None:
            ctx.check(v is None or isnan(v), "no value made up")
        else:
            ctx.eq(v, want[i], "forecast")
        for k, c in enumerate(("fcst_lower", "fcst_upper")):
            lim = None if limits is None else limits.get(i)
            if c not in df:
                ctx.check(lim is None, "limits")
                continue
            v = df[c].iloc[r]
            if lim is None:
                ctx.check(v is None or isnan(v), "no limit made up")
            else:
                ctx.eq(v, lim[k], "limit of the level asked for")


# ------------------------------------------------------------------ ARIMA

AFIT = dict(trend="ct", start_params=[1.0], transformed=False, includes_fixed=True, method="innovations_mle", method_kwargs={"a": 1}, gls=True,
            gls_kwargs={"b": 2}, cov_type="robust", cov_kwds={"c": 3})


@harness("C29", params=[{"d": d, "spacing": s, "n": n} for d, s, n in ((0, "D", 5), (1, "MS", 5), (2, "3H", 4))], thorough=[{"d": 3, "spacing": "D", "n": 8}])
def arima(ctx, d, spacing, n):
    """the model is fitted as asked; forecasts continue the data at its spacing with the limits of the level, history from row d"""
    steps = ctx.choice("steps", [1, 3])
    hist = ctx.cbool("history")
    alpha = ctx.choice("alpha", [None, 0.2, 0.5])
    freq = ctx.choice("freq", [None, "same"])
    some = ctx.cbool("custom")
    ts, ys = series(ctx, n, spacing)
    w = World(ctx, n)
    exog = np.ones((n, 1)) if some else None
    fut = np.ones((steps, 1)) if some else None
    with patched([(AR, "ARIMA", w.Model)]):
        m = AR.ARIMAModel(ts, AR.ARIMAParams(p=2, d=d, q=1, exog=exog, freq=spacing if some else None))
        ctx.raises(ValueError, lambda: m.predict(steps), "forecast before the fit refused")
        m.fit(**(AFIT if some else {}))
        kw = dict(exog=fut, include_history=hist)
        if alpha is not None:
            kw["alpha"] = alpha
        if freq is not None:
            kw["freq"] = spacing
        m.predict(steps=2, include_history=not hist, alpha=0.05)
        df = m.predict(steps, **kw)
        ctx.raises(ValueError, lambda: m.fit(trend="x"), "unknown trend refused")
    endog, mk = w.made[0]
    ctx.eq_list(list(endog), ys, "data fitted")
    ctx.check(mk["order"] == (2, d, 1) and mk["exog"] is exog and mk["freq"] == (spacing if some else None), "settings")
    ctx.check(list(mk["dates"]) == list(ts.time), "times fitted")
    if some:
        ctx.check(all(w.fits[0][1][k] == v for k, v in AFIT.items() if k != "trend"), "fit settings")
    ctx.check(w.asked[-1][0] == steps and w.asked[-1][1] is fut, "regressors of the forecast")
    rows = (list(range(d, n)) if hist else []) + list(range(n, n + steps))
    wide = w.wide[alpha or 0.05]
    times = (list(ts.time)[d:] if hist else []) + future(n, steps, spacing)
    frame(ctx, df, rows, times, w.level, {i: (w.level[i] - wide, w.level[i] + wide) for i in range(n, n + steps)})
    ctx.eq_list(list(ts.value), ys, "data unchanged")
    ctx.reach("end")


# ------------------------------------------------------------------ SARIMA

SARGS = dict(trend="ct", measurement_error=True, time_varying_regression=True, mle_regression=False, simple_differencing=True, enforce_stationarity=False,
             enforce_invertibility=False, hamilton_representation=True, concentrate_scale=True, trend_offset=3, use_exact_diffuse=True)
SFIT = dict(start_params=[2.0], transformed=False, includes_fixed=True, cov_type="opg", cov_kwds={"a": 1}, method="bfgs", maxiter=7, full_output=False,
            disp=True, callback=print, optim_score="harvey", optim_complex_step=False, optim_hessian="opg", low_memory=True)


@harness("C29", params=[{"order": o, "season": s, "spacing": u, "n": n} for o, s, u, n in (
    ((1, 0, 0), (0, 0, 0, 0), "D", 5), ((1, 1, 2), (0, 0, 0, 0), "3H", 6), ((1, 0, 0), (0, 1, 1, 2), "D", 7), ((1, 1, 1), (1, 0, 1, 7), "3H", 5))])
def sarima(ctx, order, season, spacing, n):
    """the model is fitted as asked; forecasts continue the data with the limits of the level, the burn-in of the history is blank"""
    steps = ctx.choice("steps", [1, 3])
    hist = ctx.cbool("history")
    alpha = ctx.choice("alpha", [None, 0.2, 0.5])
    some = ctx.cbool("custom")
    ts, ys = series(ctx, n, spacing)
    w = World(ctx, n)
    exog = np.ones((n, 1)) if some else None
    fut = np.ones((steps, 1)) if some else None
    with patched([(SA, "SARIMAX", w.Model)]):
        m = SA.SARIMAModel(ts, SA.SARIMAParams(order[0], order[1], order[2], exog=exog, seasonal_order=season, **(SARGS if some else {})))
        ctx.raises(ValueError, lambda: m.predict(steps), "forecast before the fit refused")
        m.fit(**(SFIT if some else {}))
        if some:
            ctx.raises(ValueError, lambda: m.predict(steps), "forecast without the regressors refused")
        kw = dict(exog=fut, include_history=hist)
        if alpha is not None:
            kw["alpha"] = alpha
        if ctx.cbool("freq"):
            kw["freq"] = spacing
        m.predict(2, exog=fut, include_history=not hist)
        df = m.predict(steps, **kw)
    endog, mk = w.made[0]
    ctx.eq_list(list(endog), ys, "data fitted")
    ctx.check(mk["order"] == order and mk["seasonal_order"] == season and mk["exog"] is exog, "orders")
    if some:
        ctx.check(all(mk[k] == v for k, v in SARGS.items()), "settings")
        ctx.check(all(w.fits[0][1][k] == v for k, v in SFIT.items()), "fit settings")
    else:
        ctx.check(mk["trend"] is None and mk["mle_regression"] is True and mk["trend_offset"] == 1, "default settings")
    ctx.check(w.asked[-1][0] == steps and w.asked[-1][1] is fut, "regressors of the forecast")
    rows = (list(range(n)) if hist else []) + list(range(n, n + steps))
    wide = w.wide[alpha or 0.05]
    times = (list(ts.time) if hist else []) + future(n, steps, spacing)
    burn = max(order) + max(season[:3]) * season[3] + 1
    # the burn-in may end a row later
    got = df["fcst"].iloc[burn] if hist and burn < n else None
    cut = burn + 1 if got is None or (not SYMBOLIC and isnan(got)) or (SYMBOLIC and isinstance(got, float) and isnan(got)) else burn
    blank = range(min(cut, n)) if hist else ()
    want = [None if i in blank else v for i, v in enumerate(w.level)]
    frame(ctx, df, rows, times, want, {i: (w.level[i] - wide, w.level[i] + wide) for i in rows if i not in blank})
    ctx.eq_list(list(ts.value), ys, "data unchanged")
    ctx.reach("end")


@harness("C29")
def sarima_refused(ctx):
    """forecasts that are all missing and multivariate data are refused"""
    ts, _ = series(ctx, 5, "D")
    w = World(ctx, 5)
    steps = ctx.cint("steps", 1, 3)
    some = ctx.cbool("some")
    for i in range(5, 5 + steps):
        w.level[i] = NAN
    if some:
        w.level[5] = ctx.real("g", -5, 5)
    with patched([(SA, "SARIMAX", w.Model)]):
        m = SA.SARIMAModel(ts, SA.SARIMAParams(1, 0, 0))
        m.fit()
        if some:
            df = m.predict(steps)
            frame(ctx, df, list(range(5, 5 + steps)), future(5, steps, "D"), [v if i <= 5 else None for i, v in enumerate(w.level)],
                  {5: (w.level[5] - w.wide[0.05], w.level[5] + w.wide[0.05])})
        else:
            ctx.raises(ValueError, lambda: m.predict(steps), "forecasts that are all missing refused")
    two, _ = series(ctx, 4, "D", ["a", "b"])
    for mk in (lambda: AR.ARIMAModel(two, AR.ARIMAParams(1, 0, 0)), lambda: SA.SARIMAModel(two, SA.SARIMAParams(1, 0, 0)),
               lambda: HW.HoltWintersModel(two, HW.HoltWintersParams()), lambda: VA.VARModel(ts, VA.VARParams()),
               lambda: BV.BayesianVAR(ts, BV.BayesianVARParams()), lambda: HW.HoltWintersParams(trend="x"), lambda: HW.HoltWintersParams(seasonal="x")):
        ctx.raises(ValueError, mk, "data or settings that do not fit refused")
    ctx.reach("end")


# ------------------------------------------------------------------ Holt-Winters

@harness("C29", params=[{"spacing": s, "n": n} for s, n in (("D", 5), ("MS", 10), ("3H", 4))])
def holt_winters(ctx, spacing, n):
    """the model is fitted as asked; forecasts continue the data; with a level the empirical interval of the same model is used"""
    steps = ctx.choice("steps", [1, 3])
    hist = ctx.cbool("history")
    alpha = ctx.choice("alpha", [None, 0.2])
    freq = ctx.cbool("freq")
    some = ctx.cbool("custom")
    ts, ys = series(ctx, n, spacing)
    w = World(ctx, n)
    lo, up = ctx.reals("lo", steps), ctx.reals("up", steps)
    rec = {}

    class Interval(object):
        def __init__(self, error_methods, data, params, train_percentage, test_percentage, sliding_steps, model_class, confidence_level=0.8, **kw):
            rec.update(data=data, params=params, model=model_class, level=confidence_level,
                       cv=(error_methods, train_percentage, test_percentage, sliding_steps))

        def get_eci(self, steps, freq="D"):
            rec["asked"] = (steps, freq)
            rows = range(n, n + steps)
            return pd.DataFrame({"time": pd.date_range(ts.time.max(), periods=steps + 1, freq=freq)[1:], "fcst": col([w.level[i] for i in rows]),
                                 "fcst_lower": col(lo), "fcst_upper": col(up)})
    seas = dict(trend="mul", damped=True, seasonal="add", seasonal_periods=3) if some else {}
    p = HW.HoltWintersParams(**seas)
    with patched([(HW, "HoltWinters", w.Model), (HW, "EmpConfidenceInt", Interval)]):
        m = HW.HoltWintersModel(ts, p)
        ctx.raises(ValueError, lambda: m.predict(steps), "forecast before the fit refused")
        m.fit()
        kw = {"include_history": hist}
        cv = dict(error_methods=["mae"], train_percentage=60, test_percentage=20, sliding_steps=4) if some else {}
        if alpha is not None:
            kw.update(cv, alpha=alpha)
        if freq or alpha is not None:
            kw["freq"] = spacing
        df = m.predict(steps, **kw)
    endog, mk = w.made[0]
    ctx.eq_list(list(endog), ys, "data fitted")
    want = seas or dict(trend="add", damped=False, seasonal=None, seasonal_periods=None)
    ctx.check(all(mk[k] == v for k, v in want.items()), "settings")
    rows = (list(range(n)) if hist else []) + list(range(n, n + steps))
    times = (list(ts.time) if hist else []) + future(n, steps, spacing)
    lim = None
    if alpha is not None:
        ctx.check(rec["data"] is ts and rec["params"] is p and rec["model"] is HW.HoltWintersModel and abs(rec["level"] - 0.8) < 1e-9, "interval of the model")
        ctx.check(rec["cv"] == (["mae"], 60, 20, 4) if some else rec["cv"] == (["mape"], 70, 10, n // 5), "folds")
        ctx.check(rec["asked"] == (steps, spacing), "steps and spacing of the interval")
        lim = {n + i: (lo[i], up[i]) for i in range(steps)}
    frame(ctx, df, rows, times, w.level, lim)
    ctx.eq_list(list(ts.value), ys, "data unchanged")
    ctx.reach("end")


# ------------------------------------------------------------------ VAR

@harness("C29", params=[{"spacing": "D", "n": 6}, {"spacing": "MS", "n": 5}])
def var_model(ctx, spacing, n):
    """the model is fitted as asked; every column gets its own forecast and limits, history its fitted values"""
    steps = ctx.choice("steps", [1, 2])
    hist = ctx.cbool("history")
    alpha = ctx.choice("alpha", [None, 0.2])
    some = ctx.cbool("custom")
    freq = ctx.cbool("freq")
    lag = 2
    ts, data = series(ctx, n, spacing, ["b", "a"])
    names = list(data)
    mid = [ctx.reals("m%d" % i, 2) for i in range(steps)]
    fit = [ctx.reals("h%d" % i, 2) for i in range(n - lag)]
    wide = {a: ctx.real("w%d" % (100 * a), 0.5, 9) for a in (0.05, 0.2)}
    made, fits, asked = [], [], []

    class Result(object):
        k_ar = lag
        sigma_u = np.eye(2)
        resid = np.zeros((n - lag, 2))

        def __init__(self, endog):
            self.endog = endog.values
            self.fittedvalues = pd.DataFrame({c: col([r[i] for r in fit], index=pd.RangeIndex(lag, n)) for i, c in enumerate(names)})

        def forecast_interval(self, y, steps, alpha=0.05, exog_future=None):
            asked.append((y is self.endog or len(y) >= lag and all(bool(a == b) for r, q in zip(y[-lag:], self.endog[-lag:]) for a, b in zip(r, q)), steps))
            arr = lambda k: np.array([[v + k * wide[alpha] for v in r] for r in mid[:steps]], dtype=DT)
            return arr(0.0), arr(-1.0), arr(2.0)

    class Model(object):
        def __init__(self, endog, **kw):
            self.endog = endog
            made.append(endog)

        def fit(self, **kw):
            fits.append(kw)
            return Result(self.endog)
    given = dict(maxlags=3, method="mle", ic="aic", verbose=True, trend="ct") if some else {}
    p = VA.VARParams(**given)
    with patched([(VA, "VAR", Model)]), contextlib.redirect_stdout(io.StringIO()):
        m = VA.VARModel(ts, p)
        ctx.raises(ValueError, lambda: m.predict(steps), "forecast before the fit refused")
        m.fit()
        kw = {"include_history": hist}
        if alpha is not None:
            kw["alpha"] = alpha
        if freq:
            kw["freq"] = spacing
        out = m.predict(steps, **kw)
        # the settings serve for other data as well
        more, _ = series(ctx, 30 * n, spacing, ["b", "a"]) if not some and n == 6 and not hist and steps == 1 and alpha is None and not freq else (None, None)
        if more is not None:
            VA.VARModel(more, p).fit()
    ctx.check(list(made[0].columns) == names, "columns fitted")
    for c in names:
        ctx.eq_list(list(made[0][c]), data[c], "data fitted")
    want = given or dict(maxlags=int(12 * (n / 100.0) ** 0.25), method="ols", ic=None, verbose=False, trend="c")
    ctx.check(all(fits[0][k] == v for k, v in want.items()), "settings")
    if more is not None:
        ctx.check(fits[1]["maxlags"] == int(12 * (30 * n / 100.0) ** 0.25), "default lags follow the data")
    ctx.check(asked[-1] == (True, steps), "forecast from the end of the data")
    ctx.check(sorted(out) == sorted(names), "one answer a column")
    wd = wide[alpha or 0.05]
    for i, c in enumerate(names):
        df = out[c].to_dataframe()
        lv = [None] * lag + [r[i] for r in fit] + [r[i] for r in mid]
        rows = (list(range(lag, n)) if hist else []) + list(range(n, n + steps))
        times = (list(ts.time)[lag:] if hist else []) + future(n, steps, spacing)
        frame(ctx, df, rows, times, lv, {n + j: (mid[j][i] - wd, mid[j][i] + 2.0 * wd) for j in range(steps)})
        ctx.eq_list(list(ts.value[c]), data[c], "data unchanged")
    ctx.reach("end")


# ------------------------------------------------------------------ Bayesian VAR

def is_plain(a):
    return not SYMBOLIC or all(type(x) in (int, float, np.float64, np.int64) for x in np.asarray(a, dtype=object).ravel())


class Inverse(object):
    """inverse of a matrix: computed for numbers and for diagonal matrices, else arbitrary symbols of its own (same symbols for the same matrix)"""

    def __init__(self, ctx, form):
        self.ctx, self.form, self.args = ctx, form, {}

    def __call__(self, a):
        n = len(a)
        if n in self.form:
            self.args.setdefault(n, []).append(np.array(a, dtype=object))
            out = np.empty((n, n), dtype=DT)
            for i in range(n):
                for j in range(n):
                    out[i, j] = self.form[n](self.ctx, min(i, j), max(i, j))
            return out
        if is_plain(a):
            return np.linalg.inv(np.asarray(a, dtype=float))
        out = np.zeros((n, n), dtype=DT)
        for i in range(n):
            out[i, i] = 1.0 / a[i][i]
        return out


def blocks(*arrs):
    """block diagonal of row vectors"""
    cols_ = sum(len(a) for a in arrs)
    out = np.zeros((len(arrs), cols_), dtype=DT)
    k = 0
    for i, a in enumerate(arrs):
        for x in a:
            out[i, k] = x
            k += 1
    return out


DATA = [([1.0, 3.0, 2.0, 5.0, 4.0], [2.0, 2.0, 7.0, 1.0, 3.0]), ([0.0, 1.0, -1.0, 2.0, 1.0, 4.0, 3.0], [5.0, 3.0, 4.0, 8.0, 2.0, 2.0, 6.0])]
PH = dict(phi_0=0.5, phi_1=0.25, phi_2=4.0, phi_3=2.0)


def bvar(ctx, a, b, p):
    ts = tsd_multi(ctx, {"a": a, "b": b})
    return ts, BV.BayesianVAR(ts, BV.BayesianVARParams(p=p, **PH))


def regressor(cols, p, t):
    """lags 1..p of every column, the time, one"""
    return [c[t - l] for c in cols for l in range(1, p + 1)] + [float(t), 1.0]


@harness("C29", params=[{"k": 0, "p": 1}, {"k": 1, "p": 2}])
def bvar_noise(ctx, k, p):
    """the noise covariance is that of the least squares residuals"""
    a, b = [list(c) + [2.0, -1.0, 6.0, 3.0, 8.0, 4.0][:2 + 4 * k] for c in DATA[k]]
    b[-2] += 3.0
    a[-1], b[-1] = ctx.real("x", -9, 9), ctx.real("y", -9, 9)
    T = len(a)
    N = 2 * p + 2
    one = lambda c, i, j: 0.0 if i != j else 1.0
    inv = Inverse(ctx, {2: one, 2 * N: one})
    ts, m = bvar(ctx, a, b, p)
    with patched([(BV, "inv", inv), (BV, "block_diag", blocks)]):
        m.fit()
    s = m.sigma_u
    X = np.array([regressor((a, b), p, t) for t in range(p, T)])
    H = np.eye(T - p) - X @ np.linalg.inv(X.T @ X) @ X.T
    ctx.check(list(s.columns) == ["a", "b"] == list(s.index), "names")
    ctx.check(m.k_ar == p, "lags")
    for i, u in enumerate((a, b)):
        for j, v in enumerate((a, b)):
            # u'Hv without squares of a symbol times another: one row at a time
            want = ssum([u[p + r] * ssum([float(H[r, q]) * v[p + q] for q in range(T - p)]) for r in range(T - p)]) / float(T - 2 * p - 1)
            ctx.eq(s.iloc[i, j], want, "covariance", tol=1e-6)
    ctx.reach("end")


@harness("C29", params=[{"k": 0, "p": 1}], thorough=[{"k": 1, "p": 2}])
def bvar_posterior(ctx, k, p):
    """posterior of the coefficients: prior precision plus the data's, mean accordingly; the prior is a random walk"""
    a, b = DATA[k]
    T, N = len(a), 2 * p + 2
    S = [[ctx.real("s%d%d" % (min(i, j), max(i, j)), -5, 5) for j in range(2)] for i in range(2)]
    W = lambda c, i, j: c.real("w%d_%d" % (i, j), -5, 5)
    inv = Inverse(ctx, {2: lambda c, i, j: S[i][j], 2 * N: W})
    ts, m = bvar(ctx, list(a), list(b), p)
    # the prior's inverse is asked for as well: it is a plain matrix, answered by its own size
    real = Inverse(ctx, {2: lambda c, i, j: S[i][j]})

    def ask(x):
        if len(x) == 2 * N and not is_plain(x):
            return inv(x)
        if len(x) == 2 * N and not SYMBOLIC:
            off = [abs(x[i][j]) for i in range(2 * N) for j in range(2 * N) if i != j]
            return real(x) if max(off) == 0 else inv(x)
        return real(x)
    with patched([(BV, "inv", ask), (BV, "block_diag", blocks)]):
        m.fit()
    if not inv.args:
        ctx.stop()
    var_ = [float(np.var(a)), float(np.var(b))]
    prior, start = [], []
    for i in range(2):
        for j in range(2):
            for l in range(1, p + 1):
                decay = float(l) ** PH["phi_3"]
                prior.append(PH["phi_0"] / decay if i == j else PH["phi_0"] * PH["phi_1"] / decay * var_[j] / var_[i])
                start.append(1.0 if i == j and l == 1 else 0.0)
        prior += [PH["phi_0"] * PH["phi_2"]] * 2
        start += [0.0, 0.0]
    zs = [regressor((a, b), p, t) for t in range(p, T)]
    A = inv.args[2 * N][0]
    G = [[sum(z[x] * z[y] for z in zs) for y in range(N)] for x in range(N)]
    for i in range(2 * N):
        for j in range(2 * N):
            want = G[i % N][j % N] * S[i // N][j // N] + (1.0 / prior[i] if i == j else 0.0)
            ctx.eq(A[i][j], want, "posterior precision", tol=1e-6)
    rhs = []
    for i in range(2 * N):
        d = [sum(z[i % N] * y for z, y in zip(zs, c[p:])) for c in (a, b)]
        rhs.append(start[i] / prior[i] + d[0] * S[i // N][0] + d[1] * S[i // N][1])
    for i in range(2 * N):
        ctx.eq(m.mu_posterior[i], ssum([W(ctx, min(i, j), max(i, j)) * rhs[j] for j in range(2 * N)]), "posterior mean", tol=1e-6)
    ctx.reach("end")


@harness("C29", params=[{"k": 0, "p": 1}, {"k": 1, "p": 2}])
def bvar_forecast(ctx, k, p):
    """fitted values and forecasts follow from the coefficients, the time goes on, each forecast serves the next; asking again changes nothing"""
    a, b = list(DATA[k][0]), list(DATA[k][1])
    T, N = len(a), 2 * p + 2
    ts, m = bvar(ctx, a, b, p)
    free = {0: ctx.real("c0", -2, 2), N - 2: ctx.real("c1", -2, 2), N: ctx.real("c2", -2, 2)}
    fixed = [0.5, -0.25, 1.0, 0.125, -0.5, 0.75, 0.25, -1.0, 0.5, 0.25, 0.75, -0.125]
    coef = [free.get(i, fixed[i % 12]) for i in range(2 * N)]
    ctx.raises(ValueError, lambda: m.predict(1), "forecast before the fit refused")

    # the coefficients found are replaced by arbitrary ones as soon as they are known
    cls = BV.BayesianVAR
    old = cls.__dict__.get("mu_posterior")
    cls.mu_posterior = property(lambda s: np.array(coef, dtype=DT), lambda s, v: None)
    try:
        with patched([(BV, "block_diag", blocks), (BV, "inv", lambda x: np.eye(len(x)))]):
            m.fit()
            ctx.raises(ValueError, lambda: m.predict(0), "nothing asked for refused")
            steps = ctx.choice("steps", [1, 2, 0])
            hist = True if steps == 0 else ctx.cbool("history")
            m.predict(2, include_history=True)
            out = m.predict(steps, include_history=hist)
            resid = m.resid
    finally:
        cls.mu_posterior = old
    A, B, fit = list(a), list(b), []
    for t in range(p, T + steps):
        z = regressor((A, B), p, t)
        f = [ssum([c * x for c, x in zip(coef[i * N:(i + 1) * N], z)]) for i in range(2)]
        fit.append(f)
        if t >= T:
            A.append(f[0])
            B.append(f[1])
    rows = list(range(p if hist else T, T + steps))
    ctx.check(sorted(out) == ["a", "b"], "one answer a column")
    for i, c in enumerate(("a", "b")):
        df = out[c].to_dataframe()
        ctx.check([pd.Timestamp(t) for t in df["time"]] == [T0 + pd.Timedelta(r, "D") for r in rows], "times")
        for r, t in enumerate(rows):
            ctx.eq(df["fcst"].iloc[r], fit[t - p][i], "forecast", tol=1e-6)
        for r, t in enumerate(range(p, T)):
            ctx.eq(resid[c].iloc[r], (a, b)[i][t] - fit[t - p][i], "residual", tol=1e-6)
    ctx.check(list(resid.index) == list(ts.time)[p:], "times of the residuals")
    ctx.reach("end")
