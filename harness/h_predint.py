"""C26 empirical and ensemble prediction intervals."""
import contextlib
import numpy as np
import pandas as pd
import scipy.stats
from symex.registry import harness
from .common import *
import kats.utils.emp_confidence_int as EC
import kats.utils.ensemble_predict_interval as EP
from kats.consts import TimeSeriesData, Params

NORM = 0.01


def column(xs):
    return pd.Series(np.array(list(xs), dtype=object if SYMBOLIC else float))


LOG = []


class MP(Params):
    def __init__(self, coef=None):
        super().__init__()
        self.coef = coef

    def validate_params(self):
        pass


class Line(object):
    """forecasts p*first + q*last training value + j*r after the last training time"""

    def __init__(self, data, params):
        self.data, self.params, self.done = data, params, False

    def fit(self, *a, **k):
        self.done = True

    def predict(self, steps, *a, **kw):
        assert self.done
        freq = kw.get("freq", "D")
        LOG.append((len(self.data), steps, freq, self.data.time.iloc[0], self.data.time.iloc[-1]))
        p, q, r = self.params.coef
        v = list(self.data.value)
        t = pd.date_range(self.data.time.iloc[-1], periods=steps + 1, freq=freq)[1:]
        return pd.DataFrame({"time": t, "fcst": column([p * v[0] + q * v[-1] + r * j for j in range(1, steps + 1)])})


def line(coef, first, last, j):
    p, q, r = coef
    return p * first + q * last + r * j


def slope_weights(h):
    from fractions import Fraction as F
    xm = F(h + 1, 2)
    d = sum((F(i) - xm) ** 2 for i in range(1, h + 1))
    s = [(F(i) - xm) / d for i in range(1, h + 1)]
    return [float(x) for x in s], [float(F(1, h) - x * xm) for x in s]


@harness("C26", params=[{"n": 6, "p": 50, "q": 34, "k": 3, "steps": 2}, {"n": 10, "p": 40, "q": 30, "k": 2, "steps": 5},
                        {"n": 8, "p": 50, "q": 25, "k": 3, "steps": 1}],
         thorough=[{"n": 12, "p": 50, "q": 25, "k": 4, "steps": 6}])
def empirical_interval(ctx, n, p, q, k, steps):
    """the spread of the backtest errors of each horizon is fitted by a line, which times the normal quantile is the margin"""
    ys = ctx.reals("y", n, -100, 100)
    ts = tsd(ctx, ys)
    coef = (0.0, ctx.choice("q", [1.0, 0.5]), 0.25)
    level = ctx.choice("level", [0.8, 0.95])
    del LOG[:]
    ci = EC.EmpConfidenceInt(["mae"], ts, MP(coef), p, q, k, Line, multi=False, confidence_level=level)
    ctx.raises(ValueError, ci.get_lr, "line before the cross validation refused")
    df = ci.get_eci(steps, freq="D")
    h = LOG[0][1]
    ctx.check(all(x[1] == h for x in LOG[:-1]) and len(LOG) == k + 1, "one model a fold and the final one")
    ctx.check(LOG[-1] == (n, steps, "D", T0, T0 + pd.Timedelta(n - 1, "D")), "final model on all the data")
    errs = []
    for ln, _, _, a, b in LOG[:-1]:
        i = int((b - T0).days) + 1
        j = int((a - T0).days)
        errs.append([ys[i + s] - line(coef, ys[j], ys[i - 1], s + 1) for s in range(h)])
    se = list(ci.SE)
    ctx.check(len(se) == h, "one spread a horizon")
    for s in range(h):
        ctx.check(se[s] >= 0, "spread not negative")
        ctx.eq(se[s] * se[s], var([e[s] for e in errs], ddof=1), "spread of the errors of the horizon")
    ws, wc = slope_weights(h)
    a, b = ssum([w * s for w, s in zip(ws, se)]), ssum([w * s for w, s in zip(wc, se)])
    z = float(scipy.stats.norm.ppf(level))
    ctx.check(list(df.columns) == ["time", "fcst", "fcst_lower", "fcst_upper"], "columns")
    ctx.check([pd.Timestamp(t) for t in df["time"]] == [T0 + pd.Timedelta(n + i, "D") for i in range(steps)], "times")
    for i in range(steps):
        f = line(coef, ys[0], ys[-1], i + 1)
        me = z * (a * (i + 1) + b)
        ctx.eq(df["fcst"].iloc[i], f, "forecast")
        ctx.eq(df["fcst_upper"].iloc[i], f + me, "upper limit", tol=1e-7)
        ctx.eq(df["fcst_lower"].iloc[i], f - me, "lower limit", tol=1e-7)
    ctx.eq_list(list(ts.value), ys, "data unchanged")
    ctx.reach("end")


@harness("C26")
def empirical_settings(ctx):
    """percentages outside (0, 100] and negative steps are refused"""
    p, q = ctx.real("p", -50, 150), ctx.real("q", -50, 150)
    k = ctx.cint("k", -1, 1)
    ts = tsd(ctx, [1.0, 2.0, 3.0])
    mk = lambda: EC.EmpConfidenceInt(["mae"], ts, MP(), p, q, k, Line, multi=False)
    if bool(p <= 0) or bool(p > 100) or bool(q <= 0) or bool(q > 100) or k < 0:
        ctx.raises(ValueError, mk, "refused")
    else:
        c = mk()
        ctx.eq(c.train_percentage, p, "train")
        ctx.eq(c.test_percentage, q, "test")
        ctx.check(c.sliding_steps == k and c.confidence_level == 0.8, "settings")
    ctx.reach("end")


class Source(object):
    """stand-in of numpy's global random source: draws are arbitrary, keyed by seed and position"""

    def __init__(self, ctx, size):
        self.ctx, self.size, self.state, self.calls = ctx, size, ("parent", 0), []

    def seed(self, s=None):
        self.state = (int(s), 0)

    def randint(self, low, high=None, size=None, **k):
        return np.arange(7, 7 + size) if size is not None else 7

    def multivariate_normal(self, mu, cov, size=None, **k):
        key, i = self.state
        self.state = (key, i + 1)
        v = [self.ctx.real("z_%s_%d_%d" % (key, i, j), -5, 5) for j in range(self.size)]
        self.calls.append((mu, cov, (key, i), v))
        return np.array([v], dtype=object if SYMBOLIC else float)


class ForkPool(SeqPool):
    """workers start from the parent's random state; each task runs in a worker of its own"""
    source = None

    def starmap(self, f, xs, *a, **k):
        st = self.source.state
        out = []
        for x in xs:
            self.source.state = st
            out.append(f(*x))
        self.source.state = st
        return out[::-1]

    def map(self, f, xs, *a, **k):
        return self.starmap(f, [(x,) for x in xs])


@contextlib.contextmanager
def randomness(src):
    old = {k: getattr(np.random, k) for k in ("seed", "randint", "multivariate_normal")}
    pool = EP.Pool
    ForkPool.source = src
    EP.Pool = ForkPool
    for k in old:
        setattr(np.random, k, getattr(src, k))
    try:
        yield
    finally:
        EP.Pool = pool
        for k, v in old.items():
            setattr(np.random, k, v)


@harness("C26", params=[{"rolling": r, "pool": p, "step": s} for r, p, s in ((False, False, 4), (True, False, 23), (False, True, 12), (False, False, 20))],
         thorough=[{"rolling": r, "pool": p, "step": s} for r in (False, True) for p in (False, True) for s in (10, 31)])
def ensemble_interval(ctx, rolling, pool, step, spare=3):
    """chains of block forecasts plus noise with the errors' mean and covariance; interval = mean +- t times deviation"""
    bs, nb, E = 10, 5, 4
    a, b, c = ctx.real("a", -5, 5), ctx.real("b", -5, 5), ctx.real("c", -5, 5)
    N = bs * (nb + 1)
    ys = [1000.0] * spare + [a * (i % 7) + b * (i * i % 5) + c * (i // 11) for i in range(N)]
    ts = tsd(ctx, ys, unit="H")
    data = ys[spare:]
    coef = (0.25, 0.5, 0.125)
    src = Source(ctx, bs)
    del LOG[:]
    with randomness(src):
        kw = {"block_size": bs} if not rolling else {"n_block": nb}
        e = EP.ensemble_predict_interval(Line, MP(coef), ts, ensemble_size=E, multiprocessing=pool, **kw)
        ctx.check((e.block_size, e.n_block) == (bs, nb), "block sizes")
        ctx.raises(ValueError, lambda: e.get_fcst_band_with_level(0.5), "band before the projection refused")
        df = e.get_projection(step=step, rolling_based=rolling, confidence_level=0.9)
        other = e.get_fcst_band_with_level(0.5)
    err = [[data[(i + 1) * bs + j] - line(coef, data[i * bs], data[(i + 1) * bs - 1], j + 1) for j in range(bs)] for i in range(nb)]
    for i in range(nb):
        ctx.eq_list(list(e.error_matrix[i]), err[i], "errors of a block")
    blocks = -(-step // bs)
    ctx.check(len(src.calls) == E * blocks, "one draw a block and chain")
    ctx.check(len(set(x[2] for x in src.calls)) == E * blocks, "no draw is used twice")
    for mu, cov, _, _ in src.calls[:2]:
        ctx.eq_list(list(mu), [mean([r[j] for r in err]) for j in range(bs)], "mean of the noise")
    mu, cov = src.calls[-1][:2]
    ctx.check(np.shape(cov) == (bs, bs), "shape of the covariance")
    for i, j in ((0, 0), (9, 9), (0, 1), (2, 7), (8, 3)):
        mi, mj = mean([r[i] for r in err]), mean([r[j] for r in err])
        ctx.eq(cov[i][j], ssum([(r[i] - mi) * (r[j] - mj) for r in err]) / (nb - 1), "covariance of the noise")
    chains = []
    for k in range(E):
        draws = [x[3] for x in src.calls[k * blocks:(k + 1) * blocks]]
        first, last, out = (data[0] if rolling else data[-bs]), data[-1], []
        for z in draws:
            f = [line(coef, first, last, j + 1) + z[j] for j in range(bs)]
            out += f
            first, last = (first if rolling else f[0]), f[-1]
        chains.append(out[:step])
    ctx.check(len(df) == step and len(other) == step, "steps")
    ctx.check(list(df.columns) == ["fcst", "fcst_lower", "fcst_upper"], "columns")
    from scipy.stats import t as tdist
    for frame, lv in ((df, 0.9), (other, 0.5)):
        q = float(tdist.ppf((1 + lv) / 2, E - 1))
        for i in sorted({0, min(step - 1, bs - 1), min(step - 1, bs), step - 1}):
            xs = [x[i] for x in chains]
            f, lo, up = [frame[c].iloc[i] for c in frame.columns]
            ctx.eq(f, mean(xs), "mean of the chains")
            ctx.eq(lo + up, 2 * mean(xs), "limits around the mean")
            ctx.check(up >= lo, "limits in order")
            ctx.eq((up - f) * (up - f), q * var(xs) * q, "half width", tol=1e-6)
    ctx.eq_list(list(ts.value), ys, "data unchanged")
    seen = set((x[1], x[2]) for x in LOG)
    ctx.check(seen == {(bs, "3600s")}, "blocks at the spacing of the data")
    want = {bs} if not rolling else {bs} | {N + i * bs for i in range(blocks)}
    ctx.check(set(x[0] for x in LOG) == want, "training sizes")
    ctx.reach("end")


@harness("C26")
def ensemble_settings(ctx):
    """too small blocks, too few blocks, too short series and too small ensembles are refused, sizes are completed"""
    n = ctx.choice("n", [59, 60, 65, 72, 120])
    bs = ctx.choice("bs", [None, 9, 10, 12, 20])
    nb = ctx.choice("nb", [None, 4, 5, 6])
    size = ctx.cint("size", 3, 4)
    ts = tsd(ctx, [float(i) for i in range(n)])
    mk = lambda: EP.ensemble_predict_interval(Line, MP(), ts, block_size=bs, n_block=nb, ensemble_size=size)
    b, k = bs, nb
    if b is None and k is not None:
        b = n // (k + 1)
    if k is None and b is not None:
        k = n // b - 1
    if b is None or b < 10 or k < 5 or n < b * (k + 1) or size < 4:
        ctx.raises(ValueError, mk, "refused")
    else:
        e = mk()
        ctx.check((e.block_size, e.n_block) == (b, k), "sizes")
        ctx.eq_list(list(e.ts.value), [float(i) for i in range(n - b * (k + 1), n)], "the latest whole blocks")
    ctx.reach("end")
