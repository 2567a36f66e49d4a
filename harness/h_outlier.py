"""C17 outlier detectors."""
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.outlier as OD
import kats.detectors.outlier_detector as OM
from kats.consts import Params, TimeSeriesData

REALDEC = OD.seasonal_decompose
SEEN = []


def ser(xs, index):
    return pd.Series(xs, index=index, dtype=object if SYMBOLIC else float)


class Dec(object):
    """arbitrary decomposition, looked up by call number and position"""
    parts = []

    def __init__(self, x, model="additive", extrapolate_trend=0, **kw):
        p = Dec.parts[len(SEEN) % len(Dec.parts)]
        SEEN.append({"y": list(x["y"]), "times": list(x.index), "model": model, "extrapolate": extrapolate_trend})
        if p is None:
            raise ValueError("cannot be decomposed")
        self.trend, self.seasonal, self.resid = (ser(v, x.index) for v in p)


class stubbed(object):
    def __init__(self, parts):
        Dec.parts = parts
        del SEEN[:]

    def __enter__(self):
        OD.seasonal_decompose = Dec
        return self

    def __exit__(self, *a):
        OD.seasonal_decompose = REALDEC


def swap_sort(ctx, xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = ctx.ite(a <= b, a, b), ctx.ite(a <= b, b, a)
    return xs


def quant(ctx, xs, q):
    s = swap_sort(ctx, xs)
    p = q * (len(s) - 1)
    k = int(p)
    f = p - k
    return s[k] if f == 0 else s[k] * (1 - f) + s[k + 1] * f


def judge(ctx, ys, part, mult):
    """scores and outlier flags of one series"""
    trend, season, rem = part
    det = [y - t for y, t in zip(ys, trend)]
    res = det
    if bool(var(rem) <= 0.4 * var(det)):
        res = [d - s for d, s in zip(det, season)]
    q1, q3 = quant(ctx, res, 0.25), quant(ctx, res, 0.75)
    lo, hi = q1 - mult * (q3 - q1), q3 + mult * (q3 - q1)
    return [(r - lo) / (hi - lo) for r in res], [bool((r > hi) | (r < lo)) for r in res]


PAT = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25]
SEAS = [1.0, -0.5, 0.25, -1.5, 0.75, -2.0, 0.5, 2.0]


def part_for(ctx, n, tag, strong, at):
    """values of a series together with a decomposition: free trend and one free point; weak or strong seasonality"""
    t = [ctx.real("t%s%d" % (tag, i), -50, 50) for i in range(2)]
    trend = [t[0] + i * t[1] for i in range(n)]
    det = PAT[:n]
    det[at] = ctx.real("d" + tag, -20, 20)
    r = ctx.real("r" + tag, 0.25, 3)
    rem = [r * v * (1 if not strong else 0.01) for v in [1.0, -1.0, 0.5, 2.0, -2.0, 1.5, 0.0, 1.0][:n]]
    return [a + b for a, b in zip(trend, det)], (trend, SEAS[:n], rem)


def second(ctx, n):
    """another column: free location, its third point is far away"""
    t = ctx.real("tb0", -50, 50)
    det = PAT[:n]
    det[2] = 40.0
    return [t + v for v in det], ([t] * n, SEAS[:n], [30.0, -30.0, 1.0, 30.0, -30.0, 1.5, 0.0, 1.0][:n])


@harness("C17", params=[{"n": n, "strong": s, "decomp": d, "mult": m} for n, s, d, m in
                        [(5, False, "additive", 3.0), (6, True, "multiplicative", 1.0), (8, False, "something", 0.5)]], weight=2)
def univariate(ctx, n, strong, decomp, mult):
    """a point is an outlier if its residual (without trend, and without season when that explains enough) lies beyond the
    quartiles by the multiple of their distance; the score is its position between the limits"""
    at = ctx.choice("at", [0, 2, n - 1])
    ys, part = part_for(ctx, n, "", strong, at)
    data = tsd(ctx, ys)
    with stubbed([part]):
        d = OD.OutlierDetector(data, decomp, iqr_mult=mult)
        d.detector()
    sc, flags = judge(ctx, ys, part, mult)
    ctx.check(len(SEEN) == 1 and SEEN[0]["model"] == ("additive" if decomp == "something" else decomp), "decomposition asked")
    ctx.check(SEEN[0]["extrapolate"] == "freq", "trend extrapolated to the ends")
    ctx.eq_list(SEEN[0]["y"], ys, "decomposed series")
    ctx.check(offs(d.outliers[0]) == [i for i in range(n) if flags[i]], "outliers")
    ctx.check(offs(d.output_scores.index) == list(range(n)), "scores are on the times")
    ctx.eq_list(list(d.output_scores["value"]), sc, "scores")
    ctx.eq_list(list(data.value), ys, "data unchanged")
    ctx.reach("end")


@harness("C17", params=[{"fail": None}, {"fail": 0}, {"fail": 1}], weight=2)
def columns(ctx, fail):
    """every column is judged on its own, a column that cannot be decomposed gets no outliers and no scores"""
    n = 5
    parts, cols = [], {}
    for k, tag in enumerate(("a", "b")):
        ys, p = part_for(ctx, n, tag, k == 1, 2 + k)
        cols[tag] = ys
        parts.append(None if fail == k else p)
    data = tsd_multi(ctx, cols)
    with stubbed(parts):
        d = OD.OutlierDetector(data, iqr_mult=1.0)
        d.detector()
    ctx.check(len(d.outliers) == 2, "one list per column")
    want = [t for k, t in enumerate(("a", "b")) if fail != k]
    ctx.check(list(d.output_scores.columns) == want, "scored columns")
    for k, tag in enumerate(("a", "b")):
        ctx.eq_list(SEEN[k]["y"], cols[tag], "column")
        if fail == k:
            ctx.check(list(d.outliers[k]) == [], "no outliers")
            continue
        sc, flags = judge(ctx, cols[tag], parts[k], 1.0)
        ctx.check(offs(d.outliers[k]) == [i for i in range(n) if flags[i]], "outliers")
        ctx.eq_list(list(d.output_scores[tag]), sc, "scores")
    ctx.reach("end")


@harness("C17", params=[{"ncol": 1}, {"ncol": 2}], weight=2)
def remover(ctx, ncol):
    """removing outliers blanks exactly the outliers, or puts the line between their neighbours there; all other values and
    the caller's data stay"""
    n = 6
    interp = ctx.cbool("interpolate")
    at = ctx.choice("at", [0, 3, 5])
    parts, cols = [], {}
    for k in range(ncol):
        ys, p = part_for(ctx, n, "ab"[k], False, at) if k == 0 else second(ctx, n)
        cols["ab"[k]] = ys
        parts.append(p)
    data = tsd_multi(ctx, cols) if ncol > 1 else tsd(ctx, cols["a"])
    with stubbed(parts):
        d = OD.OutlierDetector(data, iqr_mult=1.0)
        ctx.check(d.remover() is data, "nothing is removed before a detection")
        d.detector()
        out = d.remover(interpolate=interp)
    ctx.check(offs(out.time) == list(range(n)), "times")
    for k in range(ncol):
        ys = cols["ab"[k]]
        got = list(out.value) if ncol == 1 else list(out.value.iloc[:, k])
        flags = judge(ctx, ys, parts[k], 1.0)[1]
        good = [i for i in range(n) if not flags[i]]
        for i in range(n):
            if not flags[i]:
                ctx.eq(got[i], ys[i], "kept")
            elif not interp:
                ctx.check(isnan(got[i]), "blank")
            else:
                lo, hi = [j for j in good if j < i], [j for j in good if j > i]
                w = ys[hi[0]] if not lo else ys[lo[-1]] if not hi else \
                    ys[lo[-1]] + (ys[hi[0]] - ys[lo[-1]]) * (i - lo[-1]) / (hi[0] - lo[-1])
                ctx.eq(got[i], w, "line between the neighbours")
        ctx.eq_list(list(data.value) if ncol == 1 else list(data.value.iloc[:, k]), ys, "data unchanged")
    ctx.reach("end")


@harness("C17")
def gaps(ctx):
    """a series without a frequency is put on daily times, and the points between are filled in before the decomposition;
    known values stay"""
    lay = ctx.choice("layout", [(0, 1, 2, 4, 5, 6), (0, 1, 3, 4, 5, 6), (0, 1, 2, 3, 5, 7)])
    ys = [0.5, 3.0, -1.0, ctx.real("y3", -20, 20), 4.0, 2.5]
    n = lay[-1] + 1
    part = ([0.0] * n, [0.0] * n, [90 * v for v in PAT[:n]])
    with stubbed([part]):
        d = OD.OutlierDetector(tsd(ctx, ys, lay), iqr_mult=3.0)
        d.detector()
    ctx.check(offs(SEEN[0]["times"]) == list(range(n)), "daily times")
    ctx.check(offs(d.output_scores.index) == list(range(n)), "scores on the daily times")
    got = SEEN[0]["y"]
    ctx.check(len(got) == n, "all filled")
    basis = []
    for i in range(6):
        s = pd.Series([1.0 if j == i else 0.0 for j in range(6)], index=list(lay)).reindex(range(n))
        s.index = pd.DatetimeIndex(times(range(n)))
        basis.append(list(s.interpolate(method="polynomial", order=3)))
    for t in range(n):
        ctx.eq(got[t], ssum([basis[i][t] * ys[i] for i in range(6)]), "cubic through the known points", tol=1e-4)
    ctx.reach("end")


@harness("C17", params=[{"ncol": 1}, {"ncol": 2}], weight=2)
def model(ctx, ncol):
    """the detector model judges history and data together and answers for the data only; every call is fitted anew; the
    caller's series stay; a stored model keeps its settings"""
    n, n_hist = 6, ctx.choice("hist", [0, 2, 3])
    parts, cols = [], {}
    for k in range(ncol):
        ys, p = part_for(ctx, n, "ab"[k], False, 4) if k == 0 else second(ctx, n)
        cols["ab"[k]] = ys
        parts.append(p)

    def cut(lo, hi):
        if ncol == 1:
            return tsd(ctx, cols["a"][lo:hi], range(lo, hi))
        return tsd_multi(ctx, {c: v[lo:hi] for c, v in cols.items()}, range(lo, hi))

    m = OM.OutlierDetectorModel(decomp="multiplicative", iqr_mult=1.0)
    m = OM.OutlierDetectorModel(serialized_model=m.serialize())
    ctx.check(m.decomp == "multiplicative" and m.iqr_mult == 1.0, "settings survive")
    how = ctx.choice("how", ["fit_predict", "predict", "again"])
    h, d = cut(0, n_hist) if n_hist else None, cut(n_hist, n)
    with stubbed(parts):
        if how == "again":
            Dec.parts = [([0.0] * 4, [0.0] * 4, PAT[:4])]
            m.fit_predict(tsd(ctx, [1.0, 5.0, 2.0, 8.0], range(40, 44)))
            Dec.parts = parts
            del SEEN[:]
        r = m.fit_predict(d, h) if how != "predict" else m.predict(d, h)
        seen = list(SEEN)
    ctx.check(seen[0]["model"] == "multiplicative", "decomposition")
    for k in range(ncol):
        ys = cols["ab"[k]]
        ctx.eq_list(seen[k]["y"], ys, "history and data together")
        sc, flags = judge(ctx, ys, parts[k], 1.0)
        col = (lambda t: list(t.value)) if ncol == 1 else (lambda t: list(t.value.iloc[:, k]))
        if ncol == 1 and isinstance(r.scores.value, pd.DataFrame):
            col = lambda t: list(t.value.iloc[:, 0])  # noqa
        ctx.eq_list(col(r.scores), sc[n_hist:], "scores of the data")
        got = list(r.predicted_ts.value) if not isinstance(r.predicted_ts.value, pd.DataFrame) else list(r.predicted_ts.value.iloc[:, k])
        ctx.check(len(got) == n - n_hist, "length")
        for i in range(n_hist, n):
            if flags[i]:
                ctx.check(isnan(got[i - n_hist]), "outlier removed")
            else:
                ctx.eq(got[i - n_hist], ys[i], "kept")
        z = list(np.asarray(r.anomaly_magnitude_ts.value).reshape(n - n_hist, -1)[:, 0])
        ctx.eq_list(z, [0.0] * (n - n_hist), "magnitude")
    ctx.check(offs(r.scores.time) == list(range(n_hist, n)), "times")
    ctx.check(offs(r.predicted_ts.time) == list(range(n_hist, n)), "times")
    if h is not None:
        ctx.check(len(h) == n_hist, "history length")
        ctx.eq_list(list(h.value) if ncol == 1 else list(h.value["a"]), cols["a"][:n_hist], "history unchanged")
    ctx.check(r.confidence_band is None and r.stat_sig_ts is None, "absent parts")
    ctx.reach("end")


# ------------------------------------------------------------------ multivariate

class P(Params):
    def __init__(self):
        self.validated = False

    def validate_params(self):
        self.validated = True


class Fc(object):
    def __init__(self, v):
        self.value = pd.DataFrame({"fcst": [v]})


class Var(object):
    """arbitrary forecaster"""
    log = []
    resid = None
    sigma_u = None
    k_ar = 1
    make = None

    def __init__(self, data, params):
        self.data = data
        Var.log.append({"offs": offs(data.time, "h"), "cols": {c: list(data.value[c]) for c in data.value.columns}, "params": params})

    def fit(self):
        pass

    def predict(self, steps):
        Var.log[-1]["steps"] = steps
        f = Var.make(self.data)
        return {c: Fc(f[c]) for c in f}


class Ns(object):
    VARModel = Var


class FakeDistance(object):
    @staticmethod
    def mahalanobis(u, v, VI):
        d = [a - b for a, b in zip(u, v)]
        n = len(d)
        return np.sqrt(ssum([d[i] * VI[i][j] * d[j] for i in range(n) for j in range(n)]))


def multi(ctx, cols, offsets=None, training_hours=3):
    data = tsd_multi(ctx, cols, offsets, unit="h")
    del Var.log[:]
    OD.import_module = lambda name: Ns
    if SYMBOLIC:
        OD.distance = FakeDistance
    p = P()
    d = OD.MultivariateAnomalyDetector(data, p, training_days=training_hours / 24.0)
    ctx.check(p.validated, "parameters validated")
    return d, data, p


def frame(ctx, cols):
    return pd.DataFrame({c: ctx.series(v) for c, v in cols.items()})


@harness("C17", weight=2)
def scores(ctx):
    """each metric scores its error's distance from the mean residual in deviations, the whole the Mahalanobis distance, and
    the p-value is the chi-square tail of its square"""
    from scipy.stats import chi2
    d, _, _ = multi(ctx, {"a": [1.0, 2.0, 3.0, 4.0], "b": [2.0, 1.0, 2.0, 1.0]})
    ra, rb = ctx.real("ra", -5, 5), ctx.real("rb", -5, 5)
    A, B = [ra, ra + 2, ra + 1, ra + 5], [rb, rb - 1, rb + 1, rb]
    d.resid = frame(ctx, {"a": A, "b": B})
    c = ctx.choice("cov", [(2.0, 0.5, 1.0), (1.0, 0.0, 4.0)])
    d.sigma_u = pd.DataFrame([[c[0], c[1]], [c[1], c[2]]], index=["a", "b"], columns=["a", "b"])
    est, act = ctx.reals("est", 2, -50, 50), ctx.reals("act", 2, -50, 50)
    pred = pd.DataFrame({"est": ctx.series(est), "actual": ctx.series(act)})
    pred.index = ["a", "b"]
    s = d._calc_anomaly_scores(pred)
    for k, (col, R) in enumerate((("a", A), ("b", B))):
        ctx.eq(s[col], abs(est[k] - act[k] - mean(R)) / np.sqrt(var(R, 1)), "score of a metric")
    u, v = est[0] - act[0] - mean(A), est[1] - act[1] - mean(B)
    det = c[0] * c[2] - c[1] * c[1]
    m2 = (c[2] * u * u - 2 * c[1] * u * v + c[0] * v * v) / det
    ctx.eq(s["overall_anomaly_score"] * s["overall_anomaly_score"], m2, "squared distance")
    ctx.check(bool(s["overall_anomaly_score"] >= 0), "distance is not negative")
    ctx.check(sorted(s) == ["a", "b", "overall_anomaly_score", "p_value"], "entries")
    if not SYMBOLIC:
        ctx.eq(s["p_value"], float(chi2.sf(m2, df=2)), "p-value")
    else:
        ctx.eq(s["p_value"], OD.stats.chi2.sf(s["overall_anomaly_score"] * s["overall_anomaly_score"], df=2), "p-value")
    ctx.reach("end")


@harness("C17", params=[{"gran": 1}, {"gran": 2}])
def walk(ctx, gran):
    """every point after the first training span is forecast one step ahead from exactly the span before it and scored
    against its own value"""
    n = 7
    a, b = ctx.reals("a", n, -50, 50), ctx.reals("b", n, -50, 50)
    span = ctx.choice("span", [2, 3, 5])
    d, data, p = multi(ctx, {"a": a, "b": b}, range(0, gran * n, gran), training_hours=span * gran)
    d._clean_data = lambda df: df
    w = ctx.choice("w", [1.0, 2.0])
    Var.make = lambda data: {c: data.value[c].iloc[-1] * w + data.value[c].iloc[0] for c in ("b", "a")}
    Var.resid = frame(ctx, {"a": [0.0 * a[0] + 1, 0.0 * a[0] - 1, 0.0 * a[0]], "b": [0.0 * a[0] + 2, 0.0 * a[0] - 2, 0.0 * a[0]]})
    Var.sigma_u = pd.DataFrame([[2.0, 0.0], [0.0, 1.0]], index=["a", "b"], columns=["a", "b"])
    df = d.detector()
    ctx.check(d.anomaly_score_df is df, "kept")
    ctx.check(offs(df.index, "h") == [gran * i for i in range(span + 1, n)], "scored times")
    ctx.check(len(Var.log) == n - span - 1, "one forecast each")
    for k, t in enumerate(range(span + 1, n)):
        l = Var.log[k]
        ctx.check(l["offs"] == [gran * i for i in range(t - 1 - span, t)], "training span")
        ctx.check(l["steps"] == 1 and l["params"] is p, "one step ahead")
        for c, x in (("a", a), ("b", b)):
            ctx.eq_list(l["cols"][c], x[t - 1 - span:t], "training values")
            sd = 1.0 if c == "a" else 2.0
            ctx.eq(df[c].iloc[k], abs(w * x[t - 1] + x[t - 1 - span] - x[t]) / sd, "score")
    ctx.reach("end")


@harness("C17", params=[{"at": 3}, {"at": 0}])
def cleaning(ctx, at):
    """training points three or more deviations away from the mean, above or below, are replaced by the line between their
    neighbours; all others stay"""
    n = 12
    x = ctx.real("x", -60, 60)
    base = [0.0, 1.0, -1.0, 0.5, -0.5, 1.0, 0.0, -1.0, 0.5, 1.0, -0.5, 0.0]
    xs = list(base)
    xs[at] = x
    q = ctx.real("q", -5, 5)
    d, _, _ = multi(ctx, {"a": [1.0, 2.0, 3.0, 4.0], "b": [2.0, 1.0, 2.0, 1.0]})
    df = pd.DataFrame({"a": ctx.series(xs), "b": ctx.series([q + v for v in base])}, index=times(range(n)))
    df.index = pd.DatetimeIndex(times(range(n)))
    df = pd.DataFrame({"a": ctx.series(xs).to_numpy(), "b": ctx.series([q + v for v in base]).to_numpy()}, index=df.index)
    out = d._clean_data(df)
    m, v = mean(xs), var(xs)
    ctx.eq_list(list(out["b"]), [q + v2 for v2 in base], "other column stays")
    far = bool((x - m) * (x - m) >= 9 * v)
    for i in range(n):
        if i == at and far:
            w = (xs[at - 1] + xs[at + 1]) / 2 if at else xs[1]
        else:
            w = xs[i]
        ctx.eq(out["a"].iloc[i], w, "cleaned")
    ctx.eq_list(list(df["a"]), xs, "input unchanged")
    ctx.reach("end")


@harness("C17")
def lookups(ctx):
    """anomalous times are those with a p-value below the level; the metrics at a time are sorted by score, at most top k, and
    are metrics only"""
    d, _, _ = multi(ctx, {"a": [1.0, 2.0, 3.0, 4.0], "b": [2.0, 1.0, 2.0, 1.0]})
    ctx.raises(ValueError, lambda: d.get_anomaly_timepoints(0.05), "times before detection")
    ctx.raises(ValueError, lambda: d.get_anomalous_metrics(T0), "metrics before detection")
    p = ctx.reals("p", 3, 0, 1)
    t = ctx.cint("t", 0, 2)
    free = ctx.reals("s", 3, 0, 9)
    a, b, c = [[free[j] if i == t else float((5 * i + 3 * j) % 7) for i in range(3)] for j in range(3)]
    alpha = ctx.choice("alpha", [0.05, 0.0])
    k = ctx.choice("k", [None, 1, 2])
    distinct(ctx, [a[t], b[t], c[t]])
    f = frame(ctx, {"a": a, "b": b, "c": c, "overall_anomaly_score": [20 + v for v in a], "p_value": p})
    f.index = pd.DatetimeIndex(times(range(3), "h"))
    d.anomaly_score_df = f
    if k is None:
        got = d.get_anomaly_timepoints(alpha)
        ctx.check(offs(got, "h") == [i for i in range(3) if bool(p[i] < alpha)], "times")
    m = d.get_anomalous_metrics(f.index[t], top_k=k)
    val = {"a": a[t], "b": b[t], "c": c[t]}
    names = list(m["metric"])
    ctx.check(len(names) == (k or 3) and len(set(names)) == len(names) and set(names) <= set(val), "metrics")
    for i, nm in enumerate(names):
        ctx.eq(m["anomaly_score"].iloc[i], val[nm], "score")
        if i:
            ctx.check(bool(val[names[i - 1]] >= val[nm]), "sorted")
    for nm in val:
        if nm not in names:
            ctx.check(bool(val[nm] <= val[names[-1]]), "the top ones")
    ctx.reach("end")


@harness("C17")
def multi_refusals(ctx):
    """an irregular series and a forecaster without a positive definite covariance are refused"""
    a, b = ctx.reals("a", 5), ctx.reals("b", 5)
    ctx.raises(RuntimeError, lambda: multi(ctx, {"a": a, "b": b}, (0, 1, 2, 4, 5)), "irregular")
    d, _, _ = multi(ctx, {"a": a, "b": b}, (0, 1, 2, 3, 4))
    d._clean_data = lambda df: df
    Var.make = lambda data: {c: data.value[c].iloc[-1] for c in ("a", "b")}
    Var.resid = frame(ctx, {"a": [1.0, -1.0], "b": [1.0, -1.0]})
    s = ctx.choice("cov", [(1.0, 2.0, 1.0), (1.0, 0.0, -1.0), (1.0, 0.5, 1.0)])
    Var.sigma_u = pd.DataFrame([[s[0], s[1]], [s[1], s[2]]], index=["a", "b"], columns=["a", "b"])
    if s[1] == 0.5:
        ctx.check(len(d.detector()) == 1, "accepted")
    else:
        ctx.raises(RuntimeError, d.detector, "not positive definite")
    ctx.reach("end")
