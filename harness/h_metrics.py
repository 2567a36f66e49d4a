"""C04/C05: forecast error metrics."""
import itertools
import numpy as np
from symex.registry import harness
from .common import *
import kats.metrics.metrics as M
from kats.metrics import metadata as MD


def sdiv(ctx, num, den):
    """documented division rule: +-infinity -> +-1, 0/0 -> 0"""
    if bool(den == 0):
        if bool(num > 0):
            return 1.0
        return -1.0 if bool(num < 0) else 0.0
    return num / den


def med(ctx, xs):
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = a <= b
            xs[j], xs[j + 1] = ctx.ite(c, a, b), ctx.ite(c, b, a)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def sq(ctx, got, want_sq, label):
    """got is the square root of want_sq"""
    ctx.check(got >= 0, label + " >= 0")
    ctx.eq(got * got, want_sq, label + " squared")


def both(ctx, name):
    """by full name and by look-up"""
    return [getattr(M, name), M.metric(name), M.core_metric(name)]


N = 3


@harness("C04", params=[{"n": 1}, {"n": 3}], thorough=[{"n": 6}])
def plain_errors(ctx, n):
    """residuals, absolute errors and their means/medians/squares for any true and predicted values"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    T, P = ctx.array(t), ctx.array(p)
    e = [a - b for a, b in zip(t, p)]
    ae = [abs(v) for v in e]
    for f in (M.error, M.residual, M.metric("residual"), M.metric("error")):
        ctx.eq_list(f(T, P), e, "error")
    for f in (M.absolute_error, M.ae, M.metric("ae")):
        ctx.eq_list(f(T, P), ae, "absolute error")
    for f in (M.mean_error, M.me, M.bias, M.core_metric("me"), M.metric("bias")):
        ctx.eq(f(T, P), mean(e), "mean error")
    for f in (M.mean_absolute_error, M.mae, M.mean_absolute_deviation, M.core_metric("mae")):
        ctx.eq(f(T, P), mean(ae), "mean absolute error")
    for f in (M.median_absolute_error, M.mdae, M.median_absolute_deviation, M.core_metric("mdae")):
        ctx.eq(f(T, P), med(ctx, ae), "median absolute error")
    se = [v * v for v in e]
    for f in (M.mean_squared_error, M.mse, M.core_metric("mse")):
        ctx.eq(f(T, P), mean(se), "mean squared error")
    sq(ctx, M.rmse(T, P), mean(se), "rmse")
    sq(ctx, M.core_metric("rmse")(T, P), mean(se), "rmse")
    ctx.eq_list(T, t, "true values untouched")
    ctx.eq_list(P, p, "predictions untouched")
    ctx.reach("end")


@harness("C04", params=[{"n": 2}, {"n": 3}], weight=3)
def percentage_errors(ctx, n):
    """percentage, absolute percentage, mean, median, root mean square versions; zero true values follow the
    documented rule (+-1 or 0); absolute versions are never negative"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    T, P = ctx.array(t), ctx.array(p)
    pe = [sdiv(ctx, a - b, a) for a, b in zip(t, p)]
    ape = [abs(v) for v in pe]
    ctx.eq_list(M.percentage_error(T, P), pe, "percentage error")
    ctx.eq_list(M.absolute_percentage_error(T, P), ape, "absolute percentage error")
    ctx.eq_list(M.ape(T, P), ape, "ape")
    ctx.eq(M.mpe(T, P), mean(pe), "mpe")
    for f in (M.mape, M.mean_absolute_percentage_error, M.core_metric("mape")):
        ctx.eq(f(T, P), mean(ape), "mape")
    for f in (M.mdape, M.median_absolute_percentage_error, M.core_metric("mdape")):
        ctx.eq(f(T, P), med(ctx, ape), "mdape")
    r = M.rmspe(T, P)
    sq(ctx, r, mean([v * v for v in pe]), "rmspe")
    ctx.reach("end")


@harness("C04", params=[{"mask": m} for m in ((0, 1), (1, 0, 0), (0, 1, 1), (0, 1, 1, 1), (0, 1, 0, 0))], weight=2)
def missing_values(ctx, mask):
    """a missing prediction or true value gives a missing error there; mean and median errors are those of the others"""
    n = len(mask)
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    which = ctx.choice("side", ["true", "pred", "both"])
    T = ctx.array([NAN if m and which != "pred" else v for m, v in zip(mask, t)])
    P = ctx.array([NAN if m and which != "true" else v for m, v in zip(mask, p)])
    live = [i for i in range(n) if not mask[i]]
    for i in live:
        ctx.assume(abs(t[i]) > 0.001)
    e = [t[i] - p[i] for i in live]
    ae = [abs(v) for v in e]
    pe = [v / t[i] for v, i in zip(e, live)]
    ape = [abs(v) for v in pe]
    spe = [abs(t[i] - p[i]) / (abs(t[i]) + abs(p[i])) for i in live]
    ones = np.ones(n)
    for f, want in ((M.error, e), (M.absolute_error, ae), (M.percentage_error, pe), (M.absolute_percentage_error, ape)):
        r = f(T, P)
        ctx.eq_list([r[i] for i in live], want, f.__name__)
        ctx.check(all(isnan(float(r[i])) for i in range(n) if mask[i]), f.__name__ + " missing")
        r = f(T, P, ones)
        ctx.eq_list([r[i] for i in live], [v / n for v in want], f.__name__ + " weighted")
        ctx.check(all(isnan(float(r[i])) for i in range(n) if mask[i]), f.__name__ + " weighted missing")
    ctx.eq(M.me(T, P), mean(e), "mean error")
    ctx.eq(M.mae(T, P), mean(ae), "mean absolute error")
    ctx.eq(M.mdae(T, P), med(ctx, ae), "median absolute error")
    ctx.eq(M.mse(T, P), mean([v * v for v in e]), "mean squared error")
    sq(ctx, M.rmse(T, P), mean([v * v for v in e]), "rmse")
    ctx.eq(M.mpe(T, P), mean(pe), "mean percentage error")
    ctx.eq(M.mape(T, P), mean(ape), "mean absolute percentage error")
    ctx.eq(M.mdape(T, P), med(ctx, ape), "median absolute percentage error")
    ctx.eq(M.smape(T, P), 2 * mean(spe), "smape")
    ctx.reach("end")


@harness("C04", params=[{"n": 2}, {"n": 3}], weight=2)
def symmetric_errors(ctx, n):
    """SMAPE lies in [0,2], is symmetric in its arguments and twice the scaled version; symmetric bias in [-2,2]"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    T, P = ctx.array(t), ctx.array(p)
    s = mean([sdiv(ctx, abs(a - b), abs(a) + abs(b)) for a, b in zip(t, p)])
    ctx.eq(M.scaled_smape(T, P), s, "scaled smape")
    for f in (M.smape, M.symmetric_mean_absolute_percentage_error, M.core_metric("smape")):
        ctx.eq(f(T, P), 2 * s, "smape")
    ctx.eq(M.smape(P, T), 2 * s, "smape symmetric")
    sb = -2 * mean([sdiv(ctx, a - b, abs(a) + abs(b)) for a, b in zip(t, p)])
    for f in (M.sbias, M.symmetric_bias, M.core_metric("sbias")):
        ctx.eq(f(T, P), sb, "sbias")
    ctx.eq_list(T, t, "true values untouched")
    ctx.reach("end")


@harness("C04")
def smape_range(ctx):
    """one point: SMAPE is within [0,2] and symmetric bias within [-2,2] for every pair of values"""
    t, p = ctx.real("t"), ctx.real("p")
    T, P = ctx.array([t]), ctx.array([p])
    v = M.smape(T, P)
    ctx.le(0, v, "smape >= 0")
    ctx.le(v, 2, "smape <= 2")
    b = M.sbias(T, P)
    ctx.le(-2, b, "sbias >= -2")
    ctx.le(b, 2, "sbias <= 2")
    ctx.reach("end")


@harness("C04", params=[{"name": k} for k in ("mae", "mape", "mdape", "mse", "rmse", "rmspe", "mdae", "mase", "leps", "crps")])
def declared_range(ctx, name):
    """two points: the declared lower/upper bound of the metric's metadata holds for all values"""
    t, p = ctx.reals("t", 2), ctx.reals("p", 2)
    if name == "mase":
        ctx.assume(abs(t[0] - t[1]) > 0.001)
    v = M.metric(name)(ctx.array(t), ctx.array(p))
    md = MD.inspect(name)
    if md.lower_bound > -np.inf:
        ctx.le(md.lower_bound, v, "lower bound")
    if md.upper_bound < np.inf:
        ctx.le(v, md.upper_bound, "upper bound")
    ctx.check(md.lower_bound <= md.upper_bound, "bounds ordered")
    ctx.reach("end")


@harness("C04")
def declared_range_smape(ctx):
    """the declared upper bound of the symmetric percentage error (recorded finding: declared 1, reaches 2)"""
    t, p = ctx.reals("t", 1), ctx.reals("p", 1)
    v = M.smape(ctx.array(t), ctx.array(p))
    md = MD.inspect("smape")
    ctx.le(md.lower_bound, v, "lower bound")
    ctx.le(v, md.upper_bound, "declared upper bound of smape")


@harness("C04")
def metric_lookup(ctx):
    """every metric name resolves to a callable, unknown names are refused, and array metrics are not core metrics"""
    i = ctx.cint("i", 0, len(M.ALL_METRICS) - 1)
    name = sorted(M.ALL_METRICS)[i]
    ctx.check(M.metric(name) is M.ALL_METRICS[name], "look-up")
    arr = {"error", "absolute_error", "percentage_error", "absolute_percentage_error",
           "frequency_exceeds_relative_threshold", "ae", "ape"}
    if name in arr:
        ctx.raises(ValueError, lambda: M.core_metric(name), "not a core metric")
    else:
        ctx.check(M.core_metric(name) is M.ALL_METRICS[name], "core look-up")
    ctx.raises(ValueError, lambda: M.metric(name + "?"), "unknown name refused")
    ctx.raises(ValueError, lambda: MD.inspect(name + "?"), "unknown name refused by metadata")
    ctx.reach("end")


@harness("C04", params=[{"n": 3}])
def scaled_error(ctx, n):
    """MASE = MAE / mean absolute one-step change of the true values (undefined when that is 0)"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    T, P = ctx.array(t), ctx.array(p)
    den = mean([abs(t[i + 1] - t[i]) for i in range(n - 1)])
    ctx.assume((den == 0) | (den > 0.001))
    for f in (M.mase, M.mean_absolute_scaled_error):
        r = f(T, P)
        if bool(den == 0):
            ctx.check(isnan(float(r)), "undefined for constant true values")
        else:
            ctx.eq(r * den, mean([abs(a - b) for a, b in zip(t, p)]), "mase * baseline")
    ctx.reach("end")


@harness("C04", params=[{"n": 2}, {"n": 3}])
def tracking(ctx, n):
    """tracking signal = sum of residuals / MAE, undefined when MAE is 0"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    e = [a - b for a, b in zip(t, p)]
    r = M.tracking_signal(ctx.array(t), ctx.array(p))
    m = mean([abs(v) for v in e])
    if bool(m == 0):
        ctx.check(isnan(float(r)), "undefined without error")
    else:
        ctx.eq(r * m, ssum(e), "tracking signal")
    ctx.reach("end")


@harness("C04", params=[{"n": 2}, {"n": 3}], weight=2)
def weighted(ctx, n):
    """sample weights: errors are scaled by w/sum(w); weighted MAE, MSE, RMSE are weighted means; all-equal weights
    reduce to the plain version (weights > 0)"""
    t, p, w = ctx.reals("t", n), ctx.reals("p", n), ctx.reals("w", n, 0.125, 100)
    T, P, W = ctx.array(t), ctx.array(p), ctx.array(w)
    e = [a - b for a, b in zip(t, p)]
    sw = ssum(w)
    ctx.eq_list(M.error(T, P, W), [v * u / sw for v, u in zip(e, w)], "weighted error")
    ctx.eq_list(M.absolute_error(T, P, W), [abs(v) * u / sw for v, u in zip(e, w)], "weighted abs error")
    ctx.eq(M.mae(T, P, W), ssum([abs(v) * u for v, u in zip(e, w)]) / sw, "weighted mae")
    wm = ssum([v * v * u for v, u in zip(e, w)]) / sw
    ctx.eq(M.mse(T, P, W), wm, "weighted mse")
    sq(ctx, M.rmse(T, P, W), wm, "weighted rmse")
    ctx.reach("end")


@harness("C04")
def weighted_percentage(ctx):
    """weighted percentage errors divide by true value times total weight (2 points, true values non-zero)"""
    t, p, w = ctx.reals("t", 2), ctx.reals("p", 2), ctx.reals("w", 2, 0.125, 100)
    for v in t:
        ctx.assume(v != 0)
    T, P, W = ctx.array(t), ctx.array(p), ctx.array(w)
    sw = ssum(w)
    pe = [(a - b) * u / (a * sw) for a, b, u in zip(t, p, w)]
    ctx.eq_list(M.percentage_error(T, P, W), pe, "weighted pct")
    ctx.eq_list(M.absolute_percentage_error(T, P, W), [abs(a - b) * u / (abs(a) * sw) for a, b, u in zip(t, p, w)],
                "weighted abs pct")
    sq(ctx, M.rmspe(T, P, W), mean([v * v for v in pe]), "weighted rmspe")
    ctx.reach("end")


@harness("C04")
def multi_output(ctx):
    """MAE on 2x2 output matrices: per-column means, their plain or weighted average"""
    t = [ctx.reals("t%d" % i, 2) for i in range(2)]
    p = [ctx.reals("p%d" % i, 2) for i in range(2)]
    w = ctx.reals("w", 2, 0.125, 10)
    c = ctx.reals("c", 2, 0.125, 10)
    T, P = ctx.array(t), ctx.array(p)
    cols = [mean([abs(t[i][j] - p[i][j]) for i in range(2)]) for j in range(2)]
    ctx.eq_list(list(M.mae(T, P, multioutput="raw_values")), cols, "raw values")
    ctx.eq(M.mae(T, P), mean(cols), "uniform average")
    ctx.eq(M.mae(T, P, multioutput=ctx.array(c)), ssum([a * b for a, b in zip(c, cols)]) / ssum(c), "weighted average")
    wc = [ssum([abs(t[i][j] - p[i][j]) * w[i] for i in range(2)]) / ssum(w) for j in range(2)]
    ctx.eq_list(list(M.mae(T, P, ctx.array(w), "raw_values")), wc, "sample weights")
    ctx.raises(ValueError, lambda: M.mae(T, P, multioutput="nope"), "bad multioutput")
    ctx.reach("end")


@harness("C04", params=[{"n": 2}])
def log_error(ctx, n):
    """RMSLE is the RMSE of log(1+y) (values > -1)"""
    t, p = ctx.reals("t", n, 0, 100), ctx.reals("p", n, 0, 100)
    T, P = ctx.array(t), ctx.array(p)
    L = lambda xs: ctx.array([(x + 1.0).log() if ctx.symbolic and hasattr(x, "log") else float(np.log1p(x)) for x in xs])
    want = mean([(a - b) * (a - b) for a, b in zip(L(t), L(p))])
    sq(ctx, M.rmsle(T, P), want, "rmsle")
    ctx.reach("end")


@harness("C04", params=[{"mask": m} for m in ((1, 0, 0), (0, 1, 0), (0, 1, 1))])
def missing_values(ctx, mask):
    """a missing true or predicted value is left out of the mean/median error metrics"""
    t, p = ctx.reals("t", 3), ctx.reals("p", 3)
    side = ctx.cbool("in_truth")
    tv = [NAN if m and side else v for m, v in zip(mask, t)]
    pv = [NAN if m and not side else v for m, v in zip(mask, p)]
    T, P = ctx.array(tv), ctx.array(pv)
    e = [a - b for m, a, b in zip(mask, t, p) if not m]
    ctx.eq(M.mae(T, P), mean([abs(v) for v in e]), "mae")
    ctx.eq(M.mse(T, P), mean([v * v for v in e]), "mse")
    ctx.eq(M.me(T, P), mean(e), "me")
    ctx.eq(M.mdae(T, P), med(ctx, [abs(v) for v in e]), "mdae")
    w = ctx.reals("w", 3, 0.125, 10)
    live = [u for m, u in zip(mask, w) if not m]
    ctx.eq(M.mae(T, P, ctx.array(w)), ssum([abs(v) * u for v, u in zip(e, live)]) / ssum(live), "weighted mae")
    ctx.reach("end")


@harness("C04")
def sizes(ctx):
    """different lengths are refused; empty inputs are undefined"""
    n, m = ctx.cint("n", 0, 2), ctx.cint("m", 0, 2)
    t, p = ctx.array(ctx.reals("t", n, 1, 9)), ctx.array(ctx.reals("p", m, 1, 9))
    names = ["error", "absolute_error", "percentage_error", "absolute_percentage_error", "me", "mpe",
             "mae", "mape", "mdae", "mdape", "smape", "sbias", "mase", "tracking_signal"]
    if n != m:
        if n and m:
            for k in names:
                ctx.raises(ValueError, lambda: M.metric(k)(t, p), k)
        ctx.stop()
    if n == 0:
        for k in ("mae", "mape", "mdae", "mdape", "mase", "mse", "rmse", "rmsle", "rmspe", "leps", "crps"):
            ctx.check(isnan(float(M.metric(k)(t, p))), k + " of nothing")
    ctx.reach("end")


# ------------------------------------------------------------------ C05
def _cnt(ctx, conds):
    return ssum([ctx.ite(c, 1.0, 0.0) for c in conds]) / len(conds)


@harness("C05", params=[{"n": 1}, {"n": 3}], weight=2)
def pinball(ctx, n):
    """pinball loss for any quantile level in [0,1]; levels outside are refused; never negative"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    q = ctx.real("q", -1, 2)
    T, P = ctx.array(t), ctx.array(p)
    if bool(q < 0) or bool(q > 1):
        ctx.raises(ValueError, lambda: M.pinball_loss(T, P, q), "level refused")
        ctx.stop()
    want = mean([ctx.ite(a > b, (a - b) * q, (a - b) * (q - 1)) for a, b in zip(t, p)])
    for f in (M.pinball_loss, M.ploss, M.metric("pinball_loss")):
        ctx.eq(f(T, P, q), want, "pinball")
    ctx.le(0, M.pinball_loss(T, P, q), "non-negative")
    ctx.reach("end")


@harness("C05", params=[{"n": 2}, {"n": 3}], weight=2)
def exceed_rate(ctx, n):
    """exceed rate: fraction of forecasts below truth for levels > 1/2, above truth otherwise"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    hi = ctx.cbool("upper")
    q = ctx.real("q", 0, 1)
    ctx.assume(q > 0.5 if hi else q <= 0.5)
    want = _cnt(ctx, [(a > b) if hi else (a < b) for a, b in zip(t, p)])
    for f in (M.exceed, M.excd, M.metric("exceed")):
        ctx.eq(f(ctx.array(t), ctx.array(p), q), want, "exceed")
    ctx.reach("end")


@harness("C05", params=[{"samples": 1}, {"samples": 2}], weight=2)
def multi_exceed(ctx, samples):
    """exceed rates of several levels at once: forecasts are laid out level by level"""
    h = 2 if samples == 1 else 1
    t = [ctx.reals("t%d" % i, h) for i in range(samples)]
    qs = [0.1, 0.9]
    p = [ctx.reals("p%d" % i, h * 2) for i in range(samples)]
    T = ctx.array(t) if samples > 1 else ctx.array(t[0])
    P = ctx.array(p) if samples > 1 else ctx.array(p[0])
    r = M.mult_exceed(T, P, np.array(qs))
    for k, q in enumerate(qs):
        per = [_cnt(ctx, [(t[i][j] > p[i][k * h + j]) if q > 0.5 else (t[i][j] < p[i][k * h + j]) for j in range(h)])
               for i in range(samples)]
        ctx.eq(r[k], mean(per), "level %d" % k)
    bad = ctx.array(p[0][:-1])
    ctx.raises(ValueError, lambda: M.mexceed(ctx.array(t[0]), bad, np.array(qs)), "bad layout refused")
    ctx.reach("end")


@harness("C05", params=[{"n": 2}, {"n": 3}], weight=2)
def interval_coverage(ctx, n):
    """coverage = fraction of true values inside the closed interval"""
    t, lo, up = ctx.reals("t", n), ctx.reals("l", n), ctx.reals("u", n)
    ins = [(a >= b) & (a <= c) for a, b, c in zip(t, lo, up)]
    A = [ctx.array(v) for v in (t, lo, up)]
    ctx.eq(M.coverage(*A), _cnt(ctx, ins), "coverage")
    ctx.eq_list(M.mult_coverage(*A), [ctx.ite(c, 1, 0) for c in ins], "per point")
    ctx.reach("end")


@harness("C05", params=[{"n": 2}, {"n": 3}], weight=2)
def interval_scores(ctx, n):
    """interval score = width + 2/alpha * distance outside the interval"""
    t, lo, up = ctx.reals("t", n), ctx.reals("l", n), ctx.reals("u", n)
    alpha = ctx.real("alpha", 0.01, 1)
    sc = [(c - b) + ctx.ite(a < b, (b - a) * 2 / alpha, 0.0) + ctx.ite(a > c, (a - c) * 2 / alpha, 0.0)
          for a, b, c in zip(t, lo, up)]
    A = [ctx.array(v) for v in (t, lo, up)]
    ctx.eq(M.interval_score(*A, alpha=alpha), mean(sc), "mean interval score")
    ctx.eq_list(M.mult_interval_score(*A, alpha=alpha), sc, "per point")
    ctx.reach("end")


@harness("C05", params=[{"n": 4, "w": 2}, {"n": 4, "w": 3}])
def rolling_scores(ctx, n, w):
    """rolling versions: centred moving mean (zero padded) of the per-point values"""
    t, lo, up = ctx.reals("t", n), ctx.reals("l", n, -10, 0), ctx.reals("u", n, 1, 10)
    for a, b, c in zip(t, lo, up):
        ctx.assume((a > b) & (a < c))
    A = [ctx.array(v) for v in (t, lo, up)]
    left = (w - 1) // 2
    sc = [c - b for b, c in zip(lo, up)]

    def roll(xs):
        out = []
        for i in range(n):
            # "same" convolution: window covers i+left-w+1 .. i+left
            out.append(ssum([xs[j] for j in range(i + left - w + 1, i + left + 1) if 0 <= j < n]) / w)
        return out

    ctx.eq_list(M.mult_interval_score(*A, alpha=0.2, rolling_window=w), roll(sc), "rolling score")
    ctx.eq_list(M.mult_coverage(*A, rolling_window=w), roll([1.0] * n), "rolling coverage")
    ctx.reach("end")


@harness("C05", params=[{"n": 2}], thorough=[{"n": 3}], weight=3)
def probability_space(ctx, n):
    """LEPS / CRPS: mean |.| and squared distance between the empirical cdf of the truth at forecast and truth"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    F = lambda v: ssum([ctx.ite(a <= v, 1.0, 0.0) for a in t]) / n
    d = [F(b) - F(a) for a, b in zip(t, p)]
    T, P = ctx.array(t), ctx.array(p)
    ctx.eq(M.leps(T, P), mean([abs(v) for v in d]), "leps")
    ctx.eq(M.crps(T, P), mean([v * v for v in d]), "crps")
    ctx.reach("end")


@harness("C05", params=[{"n": 3}])
def relative_threshold(ctx, n):
    """fraction of true values reaching threshold times the forecast"""
    t, p = ctx.reals("t", n), ctx.reals("p", n)
    k = ctx.real("k", -10, 10)
    ctx.eq(M.frequency_exceeds_relative_threshold(ctx.array(t), ctx.array(p), k),
           _cnt(ctx, [a >= k * b for a, b in zip(t, p)]), "fraction")
    ctx.reach("end")
