"""C21 the Prophet forecaster: data and settings handed over, times of the forecast, simulated uncertainty."""
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.prophet as PM
from kats.consts import TimeSeriesData
from kats.models.prophet import ProphetModel, ProphetParams

REAL = PM.Prophet
DT = object if SYMBOLIC else float


def day(t):
    return int((t - T0) // pd.Timedelta(1, "D"))


class Fake(object):
    made = []
    yhat = ()

    def __init__(self, **kw):
        self.kw, self.seasons, self.regs, self.asked, self.fits = kw, [], [], [], []
        Fake.made.append(self)

    def add_seasonality(self, **kw):
        self.seasons.append(kw)

    def add_regressor(self, **kw):
        self.regs.append(kw)

    def fit(self, df, **kw):
        self.fits.append((df.copy(), kw))
        self.history_dates = pd.to_datetime(pd.Series(df["ds"].unique(), name="ds")).sort_values()
        h = df[df["y"].notnull()].copy().sort_values("ds").reset_index(drop=True)
        if "floor" not in h:
            h["floor"] = 0.0
        h["t"] = [float(i) for i in range(len(h))]
        self.history = h
        return self

    make_future_dataframe = REAL.make_future_dataframe

    def predict(self, df):
        self.asked.append(df.copy())
        df = df.sort_values("ds", kind="mergesort").reset_index(drop=True)
        y = [Fake.yhat[day(t) % len(Fake.yhat)] for t in df.ds]
        return pd.DataFrame({"ds": list(df.ds), "trend": 0.0, "yhat": pd.Series(y, dtype=DT),
                             "yhat_upper": pd.Series([v + 2.0 for v in y], dtype=DT), "yhat_lower": pd.Series([v - 1.0 for v in y], dtype=DT)})


class stubbed(object):
    def __init__(self, yhat=(1.0,)):
        Fake.yhat = yhat
        del Fake.made[:]

    def __enter__(self):
        PM.Prophet = Fake
        return Fake

    def __exit__(self, *a):
        PM.Prophet = REAL


NULLS = [[], [2], [5], [4, 5], [0, 3], [0, 1, 4, 5]]


@harness("C21", params=[{"nulls": i, "history": h} for i in range(len(NULLS)) for h in [False, True]])
def times_of_forecast(ctx, nulls, history):
    """a forecast covers the steps right after the data, and all of the data on request, whatever is missing in it"""
    miss, n = NULLS[nulls], 6
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    yh = [ctx.real("p%d" % i, -50, 50) for i in range(4)]
    steps = ctx.choice("steps", [1, 3])
    unit = ctx.choice("every", [1, 2])
    vals = [NAN if i in miss else y for i, y in enumerate(ys)]
    off = [i * unit for i in range(n)]
    x = tsd(ctx, vals, offsets=off)
    with stubbed(yh) as f:
        m = ProphetModel(x, ProphetParams())
        m.fit()
        m.predict(steps=1, freq="5D")  # an earlier question leaves no trace
        fc = m.predict(steps=steps, include_history=history, freq=None if steps == 3 else "%dD" % unit)
        p = f.made[0]
    df, kw = p.fits[0]
    ctx.check(kw == {} and list(map(day, df.ds)) == off and list(df.columns) == ["y", "ds"], "times fitted")
    for a, b in zip(df.y, vals):
        ctx.check(isnan(a) if isnan(b) else a == b, "values fitted")
    want = (off if history else []) + [(n + i) * unit for i in range(steps)]
    ctx.check(list(map(day, fc.time)) == want, "times")
    ctx.check(list(fc.columns) == ["time", "fcst", "fcst_lower", "fcst_upper"], "columns")
    w = [yh[d % 4] for d in want]
    ctx.eq_list(list(fc.fcst), w, "forecast")
    ctx.eq_list(list(fc.fcst_lower), [v - 1.0 for v in w], "lower")
    ctx.eq_list(list(fc.fcst_upper), [v + 2.0 for v in w], "upper")
    ctx.check(offs(x.time) == off and len(x) == n, "data unchanged")
    ctx.reach("end")


@harness("C21", params=[{"multi": b} for b in [False, True]])
def settings(ctx, multi):
    """the settings, seasonalities and limits are handed over; the columns that are not asked for are not"""
    n = 5
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    cap = ctx.choice("cap", [None, 60.0, 80])
    floor = ctx.choice("floor", [None, -60.0, 0.0])
    z = ctx.real("z", -5, 5)
    x = tsd_multi(ctx, {"q": [z + i for i in range(n)], "y": ys}) if multi else tsd(ctx, ys, name="v")
    seas = [{"name": "m", "period": 30.5, "fourier_order": 4}, {"name": "w", "period": 7, "fourier_order": 2}]
    given = dict(growth="logistic" if cap else "flat", changepoints=["2020-01-03"], n_changepoints=3, changepoint_range=0.7, yearly_seasonality=False,
                 weekly_seasonality=True, daily_seasonality=4, seasonality_mode="multiplicative", seasonality_prior_scale=3.0,
                 holidays_prior_scale=4.0, changepoint_prior_scale=0.5, mcmc_samples=0, interval_width=0.9, uncertainty_samples=77,
                 holidays=pd.DataFrame({"ds": ["2020-01-02"], "holiday": ["a"]}))
    with stubbed([ys[0], ys[1]]) as f:
        m = ProphetModel(x, ProphetParams(cap=cap, floor=floor, custom_seasonalities=seas, **given))
        m.fit(seed=4)
        fc = m.predict(steps=2, include_history=ctx.choice("hist", [False, True]))
        p = f.made[0]
    ctx.check(set(p.kw) == set(given) and all(p.kw[k] is given[k] for k in given), "settings")
    ctx.check(p.seasons == seas and p.regs == [], "seasonalities")
    df, kw = p.fits[0]
    lim = (["cap"] if cap is not None else []) + (["floor"] if floor is not None else [])
    ctx.check(kw == {"seed": 4} and sorted(df.columns) == sorted(["ds", "y"] + lim), "columns")
    ctx.eq_list(list(df.y), ys, "values")
    ctx.check(list(map(day, df.ds)) == list(range(n)), "times")
    for d in [df, p.asked[0]]:
        for name, v in [("cap", cap), ("floor", floor)]:
            if v is not None:
                ctx.check(set(d[name]) == {v}, "limits")
    ctx.check(list(map(day, fc.time))[-2:] == [n, n + 1], "steps")
    ctx.reach("end")


@harness("C21")
def regressors(ctx):
    """regressors and limits given as data are fitted by name, and the future given is used as it is"""
    n = 5
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    rs = [ctx.real("r%d" % i, -50, 50) for i in range(n)]
    ss = [ctx.real("s%d" % i, -50, 50) for i in range(n + 2)]
    lim = ctx.choice("limits", [True, False])
    cols = {"s": ss[:n], "cap": [90.0 + i for i in range(n)], "y": ys, "r": rs, "floor": [-90.0 - i for i in range(n)]}
    x = tsd_multi(ctx, cols)
    regs = [{"name": "r", "prior_scale": 2.0}, {"name": "s", "mode": "multiplicative"}]
    fut = pd.DataFrame({"s": pd.Series(ss[-2:], dtype=DT), "ds": [T0 + pd.Timedelta(i, "D") for i in (n, n + 1)],
                        "r": pd.Series(rs[:2], dtype=DT), "cap": [95.0, 96.0], "floor": [-95.0, -96.0]})
    if not lim:
        fut = fut[["ds", "r", "s"]]
    before = list(fut.columns)
    with stubbed([2.0, 3.0]) as f:
        m = ProphetModel(x, ProphetParams(growth="logistic", cap=True if lim else 70.0, floor=True if lim else None, extra_regressors=regs))
        m.fit()
        fc = m.predict(steps=2, future=fut)
        p = f.made[0]
        for bad in ["ds", "r", "s"] + (["cap", "floor"] if lim else []):
            try:
                m.predict(steps=2, future=fut.drop(columns=[bad]))
                ctx.check(False, "refused without " + bad)
            except ValueError:
                pass
        try:
            m.predict(steps=2)
            ctx.check(False, "refused without future")
        except ValueError:
            pass
    ctx.check(p.regs == regs, "regressors")
    df = p.fits[0][0]
    ctx.check(set(df.columns) == ({"ds", "y", "r", "s", "cap"} | ({"floor"} if lim else set())), "columns")
    for c in ["y", "r", "s"] + (["cap", "floor"] if lim else []):
        ctx.eq_list(list(df[c]), cols[c], c)
    if not lim:
        ctx.check(set(df.cap) == {70.0} and set(p.asked[0].cap) == {70.0}, "limit")
    ctx.check(list(map(day, p.asked[0].ds)) == [n, n + 1], "times asked")
    ctx.eq_list(list(p.asked[0].s), ss[-2:], "future regressor")
    ctx.eq_list(list(p.asked[0].r), rs[:2], "future regressor")
    ctx.check(list(map(day, fc.time)) == [n, n + 1] and len(p.asked) == 1, "times")
    ctx.check(list(fut.columns) == before, "future unchanged")
    ctx.reach("end")


@harness("C21")
def refused(ctx):
    """settings and data that do not fit together are refused"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(4)]
    uni, multi = tsd(ctx, ys), tsd_multi(ctx, {"y": ys, "r": ys[::-1]})
    other = tsd_multi(ctx, {"v": ys, "r": ys[::-1]})
    for kw in [dict(growth="logistic"), dict(custom_seasonalities=[{"name": "a", "period": 3}]), dict(extra_regressors=[{"mode": "additive"}]),
               dict(extra_regressors=[{"name": "a", "color": 3}]), dict(extra_regressors=["a"])]:
        try:
            ProphetParams(**kw)
            ctx.check(False, "settings")
        except ValueError:
            pass
    for data, kw in [(uni, dict(extra_regressors=[{"name": "r"}])), (multi, dict(extra_regressors=[{"name": "q"}])), (other, {}),
                     (uni, dict(cap=True)), (multi, dict(cap=True)), (uni, dict(floor=True)), (multi, dict(floor=True, cap=3.0))]:
        try:
            ProphetModel(data, ProphetParams(**kw))
            ctx.check(False, "data")
        except ValueError:
            pass
    with stubbed():
        try:
            ProphetModel(uni, ProphetParams()).predict(steps=2)
            ctx.check(False, "before fit")
        except ValueError:
            pass
    ctx.reach("end")


class Fitted(object):
    """a fitted model with arbitrary parameters"""
    logistic_floor = False

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.calls = []

    def setup_dataframe(self, df):
        return df.copy()


class draws(object):
    """random numbers are arbitrary within their range"""

    def __init__(self, ctx, poisson=0, uniform=None):
        self.ctx, self.n, self.poisson_n, self.u = ctx, 0, poisson, uniform

    def fresh(self, shape, lo, hi):
        shape = tuple(shape) if isinstance(shape, tuple) else (int(shape),)
        k = 1
        for s in shape:
            k *= s
        out = np.empty(k, dtype=DT)
        for i in range(k):
            self.n += 1
            out[i] = self.ctx.real("u%d" % self.n, float(lo), float(hi))
        return out.reshape(shape)

    def __enter__(self):
        self.real = {k: getattr(np.random, k) for k in ["poisson", "rand", "uniform", "laplace", "normal"]}
        r = np.random
        r.poisson = lambda lam, size=None: np.array(self.poisson_n)
        r.rand = lambda *s: self.fresh(s, 0, 1)
        r.uniform = lambda low=0.0, high=1.0, size=None: self.u(low, high, size) if self.u else self.fresh(size, low, high)
        r.laplace = lambda loc=0.0, scale=1.0, size=None: self.fresh(size, -9, 9)
        r.normal = lambda loc=0.0, scale=1.0, size=None: self.fresh(size, -9, 9)
        return self

    def __exit__(self, *a):
        for k, v in self.real.items():
            setattr(np.random, k, v)


def line(t, k, m, cps, deltas):
    v = k * t + m
    for c, d in zip(cps, deltas):
        if t >= c:
            v = v + d * (t - c)
    return v


@harness("C21", params=[{"size": s, "new": w} for s, w in [(1, 0), (2, 0), (1, 1), (2, 1)]])
def linear_draws(ctx, size, new):
    """a simulated linear trend is the fitted one up to the end of the history and goes on without a jump"""
    ts = [0.0, 0.5, 1.0, 1.25, 1.5]
    k, m = ctx.real("k", -5, 5), ctx.real("m", -5, 5)
    cps = ctx.choice("cps", [[0.25, 0.75], [0.5], []])
    de = [ctx.real("d%d" % i, -5, 5) for i in range(len(cps))]
    scale = ctx.choice("scale", [1.0, 4.0])
    fl = ctx.real("floor", -9, 9)
    model = Fitted(params={"k": np.array([9.0, k], dtype=DT), "m": np.array([9.0, m], dtype=DT), "delta": np.array([[3.0] * len(cps), de], dtype=DT).reshape(2, len(cps))},
                   changepoints_t=np.array(cps), y_scale=scale, growth="linear")
    df = pd.DataFrame({"t": ts, "floor": pd.Series([fl] * len(ts), dtype=DT)})
    with draws(ctx, [new] * size) as d:
        out = PM._sample_predictive_trend_vectorized(model, df, size, 1)
    ctx.check(out.shape == (size, len(ts)), "shape")
    base = [line(t, k, m, cps, de) * scale + fl for t in ts]
    for s in range(size):
        ctx.eq_list(list(out[s][:3]), base[:3], "history")
        if not new or not cps:
            ctx.eq_list(list(out[s]), base, "no change")
    if new and cps and size == 1:
        # rand, mask, size of the change: u1, u2, u3
        u, b = ctx.real("u1", 0, 1), ctx.real("u3", -9, 9)
        on = ctx.real("u2", 0, 1) < 1
        at = 1 + u * 0.5
        for j in (3, 4):
            add = ctx.ite(on, ctx.ite(at <= ts[j], b * (ts[j] - at), 0.0), 0.0)
            ctx.eq(out[0][j], base[j] + add * scale, "one change")
    ctx.reach("end")


@harness("C21", params=[{"growth": g} for g in ["flat", "logistic"]])
def other_draws(ctx, growth):
    """simulated trends of the other growths are the fitted one over the history, and around it on average afterwards"""
    ts = [0.5, 1.0, 1.5, 2.0] if ctx.choice("future", [True, False]) else [0.0, 0.5, 1.0]
    k, m = ctx.choice("k", [1.0, -2.0]), ctx.choice("m", [0.25])
    cps, de = [0.25], [0.5]
    scale, fl = ctx.choice("scale", [1.0, 4.0]), ctx.real("floor", -9, 9)
    want = [ctx.real("w%d" % i, -9, 9) for i in range(len(ts))]
    model = Fitted(params={"k": np.array([k]), "m": np.array([m]), "delta": np.array([de])}, changepoints_t=np.array(cps), y_scale=scale, growth=growth,
                   history=pd.DataFrame({"t": [0.0, 0.5, 1.0]}))
    model.flat_trend = lambda t, m0: np.array(want, dtype=DT)
    model.piecewise_logistic = lambda t, cap, d, k0, m0, c: np.array(want, dtype=DT)
    df = pd.DataFrame({"t": ts, "floor": pd.Series([fl] * len(ts), dtype=DT), "cap_scaled": 2.0})
    size = 2
    rs = np.random.RandomState(ctx.choice("rs", [1, 2, 3]))
    with draws(ctx, 0) as d:
        np.random.uniform = lambda low=0.0, high=1.0, size=None: rs.uniform(low, high, size)
        np.random.laplace = lambda loc=0.0, scale=1.0, size=None: rs.laplace(loc, scale, size)
        out = PM._sample_predictive_trend_vectorized(model, df, size, 0)
    base = [w * scale + fl for w in want]
    for j, t in enumerate(ts):
        if t <= 1 or growth == "flat":
            ctx.eq_list([out[s][j] for s in range(size)], [base[j]] * size, "history")
        else:
            ctx.eq(mean([out[s][j] for s in range(size)]), base[j], "average")
    ctx.reach("end")


@harness("C21", params=[{"ts": t} for t in ([0.5, 1.0, 1.5, 2.5], [1.25, 1.75], [1.5], [0.75, 1.0, 1.25], [0.5, 1.0])])
def trend_spread(ctx, ts):
    """only future steps get random trend changes: as likely and as large as the fitted ones, half at a step and half at the next"""
    size, fl, scale = 2, ctx.real("floor", -9, 9), 4.0
    want = [ctx.real("w%d" % i, -9, 9) for i in range(len(ts))]
    de = [[9.0, 9.0], [ctx.choice("d", [-0.5, 0.25]), -0.5]]
    fut = [t for t in ts if t > 1]
    width = [[ctx.real("s%d%d" % (i, j), -9, 9) for j in range(len(fut))] for i in range(size)]
    model = Fitted(params={"k": np.array([9.0, 2.0]), "m": np.array([8.0, 0.5]), "delta": np.array(de)}, changepoints_t=np.array([0.25, 0.5]),
                   y_scale=scale, growth="logistic", history=pd.DataFrame({"t": [0.0, 0.125, 0.25, 1.0]}))
    model.piecewise_logistic = lambda t, cap, d, k0, m0, c: np.array(want, dtype=DT)
    df = pd.DataFrame({"t": ts, "floor": pd.Series([fl] * len(ts), dtype=DT), "cap_scaled": [2.0 + t for t in ts]})
    got, asked = {}, []
    real = PM._logistic_uncertainty

    def spread(**kw):
        got.update(kw)
        return np.array(width, dtype=DT)

    with draws(ctx, 0) as d:
        def uniform(low=0.0, high=1.0, size=None):
            asked.append((low, high))
            out = np.empty(size, dtype=DT)
            for i in range(size[0]):
                for j in range(size[1]):
                    out[i, j] = ctx.real("on%d%d" % (i, j), 0, 1)
            return out

        def laplace(loc=0.0, scale=1.0, size=None):
            asked.append((loc, scale))
            out = np.empty(size, dtype=DT)
            for i in range(size[0]):
                for j in range(size[1]):
                    out[i, j] = ctx.real("by%d%d" % (i, j), -9, 9)
            return out

        np.random.uniform, np.random.laplace = uniform, laplace
        PM._logistic_uncertainty = spread
        try:
            out = PM._sample_predictive_trend_vectorized(model, df, size, 1)
        finally:
            PM._logistic_uncertainty = real
    ctx.check(out.shape == (size, len(ts)), "shape")
    h = len(ts) - len(fut)
    for i in range(size):
        add = [0.0] * h + (width[i] if fut else [])
        ctx.eq_list(list(out[i]), [(w + a) * scale + fl for w, a in zip(want, add)], "fitted trend plus the spread of the future")
    if not fut:
        ctx.check(not asked and not got, "no spread over the history")
        ctx.reach("end")
        return
    step = (fut[-1] - fut[0]) / (len(fut) - 1) if len(fut) > 1 else 1.0 / 3
    ctx.check(asked[0][0] == 0 and abs(asked[1][1] - (abs(de[1][0]) + 0.5) / 2) < 1e-6, "size of the changes")
    ctx.check(abs(got["single_diff"] - step) < 1e-9 and got["n_length"] == len(fut) and list(got["t_time"]) == fut, "future steps")
    ctx.check(list(got["cap"]) == [2.0 + t for t in fut] and list(got["deltas"]) == de[1] and got["k"] == 2.0 and got["m"] == 0.5, "parameters")
    like = 2 * step
    for i in range(size):
        ch = [ctx.ite(ctx.real("on%d%d" % (i, j), 0, 1) < like, ctx.real("by%d%d" % (i, j), -9, 9), 0.0) for j in range(len(fut))]
        ctx.eq_list(list(got["mat"][i]), [(c + p) / 2 for c, p in zip(ch, [0.0] + ch[:-1])], "changes")
    ctx.reach("end")


class LinearExp(object):
    """numpy whose exp is the identity, so that the exponent can be read off"""

    def __getattr__(self, k):
        return getattr(np, k)

    def exp(self, x):
        return x


@harness("C21", params=[{"case": i} for i in range(4)])
def logistic_spread(ctx, case):
    """a simulated logistic trend goes on from the fitted one without a jump at its rate changes; spread = distance to the mean"""
    deltas, mats, step, fut = [([0.5], [[0.25, 0.0], [0.0, 0.0]], 0.25, [1.25, 1.5]), ([0.5, -0.25], [[0.0, 0.5], [0.25, 0.25]], 0.25, [1.25, 1.5]),
                               ([1.0], [[0.5], [0.0]], 0.5, [1.5]), ([-0.5, 1.0], [[0.0, 0.0, 0.5], [0.0, 0.25, 0.0]], 0.125, [1.125, 1.25, 1.375])][case]
    k = 2.0
    m = ctx.real("m", -0.25, 0.25)
    caps = [ctx.real("cap%d" % i, 1, 5) for i in range(len(fut))]
    cps = [0.3125, 0.75][:len(deltas)]
    model = Fitted(changepoints_t=np.array(cps))
    real = PM.np
    PM.np = LinearExp()
    try:
        out = PM._logistic_uncertainty(prophet_model=model, mat=np.array(mats, dtype=DT), deltas=np.array(deltas), k=k, m=np.array([m], dtype=DT)[0],
                                       cap=np.array(caps, dtype=DT), t_time=np.array(fut), n_length=len(fut), single_diff=step)
    finally:
        PM.np = real
    rows = []
    for ch in mats:
        hist = [i * step for i in range(int(round(1 / step)) + 1)]
        by = [0.0] * len(hist)
        for c, d in zip(cps, deltas):
            by[next(i for i, t in enumerate(hist) if t > c)] = d
        kk, mm, z = k, m, []
        for t, d in list(zip(hist, by)) + list(zip(fut, ch)):
            if d:
                # the exponent k (t - m) is the same before and after the change
                mm = t - (t - mm) * (kk / (kk + d))
                kk = kk + d
            z.append(-kk * (t - mm))
        rows.append([c / (1 + e) for c, e in zip(caps, z[-len(fut):])])
    for j in range(len(fut)):
        avg = mean([r[j] for r in rows])
        for i, r in enumerate(rows):
            ctx.eq(out[i][j], r[j] - avg, "spread", tol=1e-6)
    ctx.reach("end")


@harness("C21", params=[{"vec": v} for v in [False, True]])
def posterior(ctx, vec):
    """every parameter draw is simulated equally often, at least as often in all as asked for; value = trend, season and noise"""
    iters = ctx.choice("iters", [1, 2, 3])
    asked = ctx.choice("asked", [1, 2, 5])
    n = 2
    per = max(1, -(-asked // iters))
    feats = pd.DataFrame({"a": [1.0, 2.0], "b": [3.0, -1.0]})
    comp = pd.DataFrame({"additive_terms": [1, 0], "multiplicative_terms": [0, 1]}, index=["a", "b"])
    beta = [[ctx.real("b%d%d" % (i, j), -5, 5) for j in range(2)] for i in range(iters)]
    tr = [ctx.real("t%d" % i, -5, 5) for i in range(3)]
    model = Fitted(params={"k": np.zeros(iters), "beta": np.array(beta, dtype=DT), "sigma_obs": np.ones(iters)}, uncertainty_samples=asked, y_scale=4.0)
    model.make_all_seasonality_features = lambda df: (feats, None, comp, None)
    seen = []

    def sample_model(df, seasonal_features, iteration, s_a, s_m):
        seen.append((iteration, list(s_a), list(s_m), seasonal_features is feats))
        k = len(seen)
        return {"yhat": pd.Series([tr[0] + k, tr[1] + k], dtype=DT), "trend": pd.Series([tr[1] - k, tr[2] - k], dtype=DT)}

    model.sample_model = sample_model
    df = pd.DataFrame({"t": [0.5, 1.5]})
    real = PM._sample_predictive_trend_vectorized

    def trends(mod, d, size, it):
        seen.append((it, size))
        return np.array([[tr[0] + it + s, tr[1] - it] for s in range(size)], dtype=DT)

    with draws(ctx) as d:
        PM._sample_predictive_trend_vectorized = trends
        try:
            out = PM.sample_posterior_predictive(model, df, vec)
        finally:
            PM._sample_predictive_trend_vectorized = real
    ctx.check(out["yhat"].shape == (iters * per, n) and out["trend"].shape == (iters * per, n), "number of draws")
    if not vec:
        ctx.check(seen == [(i, [1, 0], [0, 1], True) for i in range(iters) for _ in range(per)], "every draw")
        for k in range(iters * per):
            ctx.eq_list(list(out["yhat"][k]), [tr[0] + (k + 1), tr[1] + (k + 1)], "values")
            ctx.eq_list(list(out["trend"][k]), [tr[1] - (k + 1), tr[2] - (k + 1)], "trend")
    else:
        ctx.check(seen == [(i, per) for i in range(iters)], "every draw")
        u = 0
        for i in range(iters):
            for s in range(per):
                t = [tr[0] + i + s, tr[1] - i]
                ctx.eq_list(list(out["trend"][i * per + s]), t, "trend")
                for j in range(n):
                    u += 1
                    add = beta[i][0] * feats.a[j] * 4.0
                    mul = beta[i][1] * feats.b[j]
                    ctx.eq(out["yhat"][i * per + s][j], t[j] * (1 + mul) + add + 4.0 * ctx.real("u%d" % u, -9, 9), "value")
    ctx.reach("end")


@harness("C21")
def forecast_frame(ctx):
    """the forecast is trend and seasonal terms; the band holds the percentiles of the simulations, widened by the margin"""
    n, size = 3, 2
    tr = [ctx.real("t%d" % i, -5, 5) for i in range(n)]
    add = [ctx.real("a%d" % i, -5, 5) for i in range(n)]
    mul = [ctx.real("m%d" % i, -5, 5) for i in range(n)]
    sim = {k: np.array([[ctx.real("%s%d%d" % (k, s, i), -5, 5) for i in range(n)] for s in range(size)], dtype=DT) for k in ("yhat", "trend")}
    q = [ctx.real("q%d" % i, -5, 5) for i in range(4 * n)]
    samples = ctx.choice("samples", [0, 7])
    margin = ctx.choice("margin", [None, 0.5])
    logistic = ctx.choice("logistic", [True, False])
    width = ctx.choice("width", [0.8, 0.5])
    model = Fitted(history=pd.DataFrame({"ds": [T0]}), uncertainty_samples=samples, interval_width=width, y_scale=4.0, logistic_floor=logistic)
    model.predict_trend = lambda df: pd.Series(tr, dtype=DT)
    model.predict_seasonal_components = lambda df: pd.DataFrame({"multiplicative_terms": pd.Series(mul, dtype=DT), "additive_terms": pd.Series(add, dtype=DT)})
    asked = []

    def percentile(a, p, axis=None):
        k = [x for x in ("yhat", "trend") if a is sim[x]][0]
        i = {"yhat": 0, "trend": 2}[k] + (1 if p > 50 else 0)
        asked.append((k, round(p, 9), axis))
        return np.array(q[i * n:(i + 1) * n], dtype=DT)

    model.percentile = percentile
    df = pd.DataFrame({"ds": [T0 + pd.Timedelta(i, "D") for i in range(n)], "floor": 0.0, "cap": 9.0, "t": 1.0})
    real = PM.sample_posterior_predictive
    PM.sample_posterior_predictive = lambda m, d, v: sim
    try:
        out = PM.predict(model, df, True, margin)
        for bad in [lambda: PM.predict(model, df[:0]), lambda: PM.predict(Fitted(history=None), df)]:
            try:
                bad()
                ctx.check(False, "refused")
            except Exception as e:
                ctx.check(not isinstance(e, (AttributeError, TypeError)), "refused")
    finally:
        PM.sample_posterior_predictive = real
    ctx.eq_list(list(out.yhat), [t * (1 + m) + a for t, m, a in zip(tr, mul, add)], "forecast")
    ctx.eq_list(list(out.trend), tr, "trend")
    ctx.check(list(out.ds) == list(df.ds) and "cap" in out and ("floor" in out) == logistic, "columns")
    ctx.check("trend" not in df.columns, "question unchanged")
    if samples:
        lo, hi = round(50 * (1 - width), 9), round(50 * (1 + width), 9)
        ctx.check(sorted(asked) == sorted([(k, p, 0) for k in ("yhat", "trend") for p in (lo, hi)]), "percentiles")
        h = 1.0 if margin else 0.0
        for i, (c, s) in enumerate([("yhat_lower", -1), ("yhat_upper", 1), ("trend_lower", -1), ("trend_upper", 1)]):
            ctx.eq_list(list(out[c]), [v + s * h for v in q[i * n:(i + 1) * n]], c)
    else:
        ctx.check("yhat_lower" not in out and not asked, "no band")
    ctx.reach("end")
