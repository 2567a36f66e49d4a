"""C09 change point intervals and percentage change; C10 anomaly response."""
import datetime
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.detector_consts as DC
from kats.consts import TimeSeriesData

CPI, PC, AR, CB = DC.ChangePointInterval, DC.PercentageChange, DC.AnomalyResponse, DC.ConfidenceBand


def day(k):
    return (T0 + pd.Timedelta(k, "D")).to_pydatetime()


def interval(ctx, vals, start=0, end=None):
    """interval holding exactly vals"""
    i = CPI(day(start), day(end if end is not None else start + len(vals)))
    i.data = tsd(ctx, vals, range(start, start + len(vals)))
    return i


def interval_multi(ctx, cols, start=0):
    n = len(next(iter(cols.values())))
    i = CPI(day(start), day(start + n))
    i.data = tsd_multi(ctx, cols, range(start, start + n))
    return i


# ------------------------------------------------------------------ C09
@harness("C09", weight=2)
def interval_rows(ctx):
    """an interval holds exactly the rows with start <= t < end, in order, for all bounds; mean and sample variance of
    them; extending adds the new rows inside the bounds after the old ones"""
    xs, ys = ctx.reals("x", 4), ctx.reals("y", 3)
    s, e = ctx.cint("s", -1, 4), ctx.cint("e", 0, 7)
    i = CPI(day(s), day(e))
    ctx.check(len(i) == 0 and i.data is None, "empty before data is set")
    ctx.eq(i.mean_val, 0.0, "mean of nothing")
    i.data = tsd(ctx, xs)
    want = [x for k, x in enumerate(xs) if s <= k < e]
    ctx.eq_list(list(i.data), want, "rows")
    ctx.check(len(i) == len(want), "length")
    if want:
        ctx.eq(i.mean_val, mean(want), "mean")
        ctx.eq(i.variance_val, 0.0 if len(want) == 1 else var(want, 1), "sample variance")
    i.extend_data(tsd(ctx, ys, range(4, 7)))
    want = want + [y for k, y in enumerate(ys) if s <= k + 4 < e]
    ctx.eq_list(list(i.data), want, "rows after extending")
    if want:
        ctx.eq(i.mean_val, mean(want), "mean after extending")
    ctx.reach("end")


@harness("C09")
def interval_rows_multi(ctx):
    """two columns: rows, means and variances per column"""
    a, b = ctx.reals("a", 3), ctx.reals("b", 3)
    s, e = ctx.cint("s", -1, 2), ctx.cint("e", 1, 4)
    i = CPI(day(s), day(e))
    i.data = tsd_multi(ctx, {"p": a, "q": b})
    rows = [k for k in range(3) if s <= k < e]
    ctx.check(len(i) == len(rows) and i.num_series == 2, "size")
    d = i.data
    for c, v in ((0, a), (1, b)):
        ctx.eq_list([d[r, c] for r in range(len(rows))], [v[k] for k in rows], "rows")
        if rows:
            ctx.eq(i.mean_val[c], mean([v[k] for k in rows]), "mean")
            ctx.eq(i.variance_val[c], 0.0 if len(rows) == 1 else var([v[k] for k in rows], 1), "variance")
    ctx.reach("end")


@harness("C09", params=[{"n": 3}], thorough=[{"n": 4}], weight=2)
def spikes(ctx, n):
    """spikes are exactly the points at least two sample standard deviations (or the set threshold) above the mean"""
    xs = ctx.reals("x", n)
    i = interval(ctx, xs)
    v = var(xs, 1)
    ctx.assume(v > 0.01)
    th = ctx.choice("th", [2.0, 1.0])
    i.spike_std_threshold = th
    m = mean(xs)
    got = {offs([s.time])[0]: s for s in i.spikes}
    for k, x in enumerate(xs):
        d = x - m
        is_spike = (d >= 0) & (d * d >= th * th * v)
        near = (d > 0) & (abs(d * d - th * th * v) < 0.001)
        if k in got:
            ctx.check(is_spike | near, "reported point is a spike")
            ctx.eq(got[k].value, x, "spike value")
            ctx.eq(got[k].n_sigma * got[k].n_sigma * v, d * d, "n_sigma")
        else:
            ctx.check(~is_spike | near, "unreported point is no spike")
    ctx.reach("end")


def check_spikes(ctx, xs, spikes_, label):
    """spikes_ are those of exactly the rows xs (two sample standard deviations above their mean, all else not)"""
    v, m = var(xs, 1), mean(xs)
    ctx.assume(v > 0.01)
    got = {offs([s.time])[0]: s for s in spikes_}
    for k, x in enumerate(xs):
        d = x - m
        is_spike = (d >= 0) & (d * d >= v)
        near = (d > 0) & (abs(d * d - v) < 0.001)
        if k in got:
            ctx.check(is_spike | near, label + ": reported point is a spike")
            ctx.eq(got[k].value, x, label + ": value")
            ctx.eq(got[k].n_sigma * got[k].n_sigma * v, d * d, label + ": n_sigma")
        else:
            ctx.check(~is_spike | near, label + ": unreported point is no spike")


@harness("C09", params=[{"how": "extend"}, {"how": "reassign"}, {"how": "multi"}], weight=2)
def spikes_follow_data(ctx, how):
    """spikes asked for before and after the data changed are those of the data at that moment"""
    if how == "multi":
        # fixed spread, free location per column: the spikes are the same rows wherever the columns lie
        a, b = ctx.reals("a", 2)
        i = interval_multi(ctx, {"p": [a, a + 2, a + 1], "q": [b + 4, b, b]})
        i.spike_std_threshold = 1.0
        rows = [[offs([s.time])[0] for s in col] for col in i.spikes]
        ctx.check(rows == [[1], [0]], "spikes per column")
        i.data = tsd_multi(ctx, {"p": [a + 2, a, a], "q": [b, b, b + 1]}, range(3))
        rows = [[offs([s.time])[0] for s in col] for col in i.spikes]
        ctx.check(rows == [[0], [2]], "spikes per column of the new data")
        ctx.reach("end")
        return
    xs, ys = ctx.reals("x", 2), ctx.reals("y", 2)
    i = interval(ctx, xs, end=3)
    i.spike_std_threshold = 1.0
    check_spikes(ctx, xs, i.spikes, "before")
    if how == "extend":
        i.extend_data(tsd(ctx, ys, range(2, 4)))
        now = xs + ys[:1]
    else:
        now = [xs[0], ys[0], ys[1]]
        i.data = tsd(ctx, now)
    check_spikes(ctx, now, i.spikes, "after")
    ctx.reach("end")


def pair(ctx, n1, n2, lo=-1000, hi=1000):
    x, y = ctx.reals("x", n1, lo, hi), ctx.reals("y", n2, lo, hi)
    return x, y, interval(ctx, x), interval(ctx, y, start=n1)


@harness("C09", params=[{"n1": 1, "n2": 1}, {"n1": 2, "n2": 3}])
def ratio(ctx, n1, n2):
    """ratio, percentage change, mean difference and direction of current against previous"""
    x, y, prev, cur = pair(ctx, n1, n2)
    p = PC(cur, prev)
    m1, m2 = mean(x), mean(y)
    ctx.eq(p.mean_previous, m1, "previous mean")
    ctx.eq(p.mean_difference, m2 - m1, "difference")
    ctx.assume(abs(m1) > 0.01)
    ctx.eq(p.ratio_estimate * m1, m2, "ratio")
    ctx.eq(p.perc_change * m1, 100 * (m2 - m1), "percentage change")
    up = ((m2 - m1) * ctx.ite(m1 > 0, 1.0, -1.0)) > 0
    ctx.check(up == (p.direction == "up"), "direction")
    ctx.check((~up if ctx.symbolic and not isinstance(up, bool) else not up) == (p.direction == "down"), "direction down")
    ctx.reach("end")


@harness("C09", params=[{"n1": 2, "n2": 2, "corr": False}, {"n1": 3, "n2": 1, "corr": False},
                        {"n1": 2, "n2": 2, "corr": True}], weight=2)
def t_score(ctx, n1, n2, corr):
    """score = difference of means over the pooled deviation (times sqrt(1/n1+1/n2) when corrected); zero below the
    minimum change; the p-value falls as the score grows and lies in [0,1]"""
    x, y, prev, cur = pair(ctx, n1, n2)
    mpc = ctx.choice("min_change", [0.0, 10.0])
    m1, m2 = mean(x), mean(y)
    ctx.assume(abs(m1) > 0.5)
    df = n1 + n2 - 2
    sp = ((n1 - 1) * (var(x, 1) if n1 > 1 else 0.0) + (n2 - 1) * (var(y, 1) if n2 > 1 else 0.0)) / df
    ctx.assume(sp > 0.01)
    if corr:
        sp = sp * (1.0 / n1 + 1.0 / n2)
    p = PC(cur, prev, use_corrected_scores=corr, min_perc_change=mpc)
    small = abs(m2 - m1) * 100 < mpc * abs(m1)
    if bool(abs(abs(m2 - m1) * 100 - mpc * abs(m1)) < 0.01) and mpc:
        ctx.stop()
    sc = p.score
    if bool(small):
        ctx.eq(sc, 0.0, "clipped score")
    else:
        ctx.eq(sc * sc * sp, (m2 - m1) * (m2 - m1), "score^2 * pooled variance")
        ctx.check((sc > 0) == (m2 > m1), "sign of the score")
    pv = p.p_value
    ctx.le(0, pv, "p >= 0")
    ctx.le(pv, 1, "p <= 1")
    ctx.reach("end")


@harness("C09")
def single_points(ctx):
    """one point each: score undefined, p-value 0"""
    x, y, prev, cur = pair(ctx, 1, 1, 1, 100)
    p = PC(cur, prev)
    ctx.check(isnan(p.score), "score undefined")
    ctx.check(p.p_value == 0.0, "p-value")


@harness("C09", params=[{"n1": 2, "n2": 2}, {"n1": 2, "n2": 1}])
def band(ctx, n1, n2):
    """confidence limits of the previous mean: symmetric around it, pooled deviation times the t quantile apart"""
    from scipy.stats import t as tdist
    x, y, prev, cur = pair(ctx, n1, n2)
    p = PC(cur, prev)
    df = n1 + n2 - 2
    sp = ((n1 - 1) * (var(x, 1) if n1 > 1 else 0.0) + (n2 - 1) * (var(y, 1) if n2 > 1 else 0.0)) / df
    up, lo, m1 = p.ci_upper, p.ci_lower, mean(x)
    ctx.eq(up + lo, 2 * m1, "centred on the previous mean")
    ctx.le(lo, up, "ordered")
    q = float(tdist.ppf(0.975, df))
    ctx.eq((up - m1) * (up - m1), q * q * sp, "half width")
    ctx.reach("end")


@harness("C09", params=[{"n1": 2, "n2": 2}], thorough=[{"n1": 3, "n2": 2}])
def significance(ctx, n1, n2):
    """delta method: ratio limits are symmetric around the ratio at 1.96 deviations; significant exactly when 1 is not
    strictly between them"""
    x, y, prev, cur = pair(ctx, n1, n2, 1, 20)
    p = PC(cur, prev)
    m1, m2 = mean(x), mean(y)
    n = min(n1, n2)
    xa, ya = x[-n:], y[-n:]
    cov = ssum([(a - mean(xa)) * (b - mean(ya)) for a, b in zip(xa, ya)]) / (n - 1) / n
    s2 = abs(var(y, 1) / (n2 * m1 * m1) - 2 * m2 * cov / (m1 * m1 * m1) + var(x, 1) * m2 * m2 / (n1 * m1 ** 4))
    u, l = p.perc_change_upper / 100 + 1, p.perc_change_lower / 100 + 1
    ctx.eq((u + l) * m1, 2 * m2, "centred on the ratio")
    z = 1.959963984540054
    ctx.eq((u - l) * (u - l), 4 * z * z * s2, "width")
    ctx.le(l, u, "ordered")
    sig = p.stat_sig
    ctx.check((sig == True) == ((u <= 1) | (l >= 1)), "significance")  # noqa
    ctx.reach("end")


SHAPES = {1: [0.0], 2: [0.0, 2.0], 3: [0.0, 1.0, 5.0], 4: [3.0, 0.0, 1.0, 8.0]}
SHAPES2 = {1: [0.0], 2: [3.0, 0.0], 3: [4.0, 1.0, 0.0], 4: [0.0, 7.0, 2.0, 2.0]}


def delta_reference(x, y):
    """mean of x, mean of y, variance of the ratio of means (delta method), pooled variance: of two lists"""
    n1, n2, m1, m2 = len(x), len(y), mean(x), mean(y)
    v1, v2 = (var(v, 1) if len(v) > 1 else 0.0 for v in (x, y))
    n = min(n1, n2)
    xa, ya = x[-n:], y[-n:]
    cov = ssum([(a - mean(xa)) * (b - mean(ya)) for a, b in zip(xa, ya)]) / (n - 1) / n
    s2 = abs(v2 / (n2 * m1 * m1) - 2 * m2 * cov / (m1 * m1 * m1) + v1 * m2 * m2 / (n1 * m1 ** 4))
    return m1, m2, s2, ((n1 - 1) * v1 + (n2 - 1) * v2) / (n1 + n2 - 2)


@harness("C09", params=[{"n1": 2, "n2": 3}, {"n1": 3, "n2": 2}, {"n1": 4, "n2": 2}, {"n1": 3, "n2": 4}], weight=2)
def limits_of_any_shape(ctx, n1, n2):
    """unequal lengths and other confidence levels, any location of fixed shapes: significance limits and confidence
    limits follow the declared level"""
    from scipy.stats import t as tdist, norm
    a, b = ctx.real("a", 1, 50), ctx.real("b", 1, 50)
    alpha = ctx.choice("alpha", [0.05, 0.2])
    x, y = [a + d for d in SHAPES[n1]], [b + d for d in SHAPES2[n2]]
    p = PC(interval(ctx, y, start=n1), interval(ctx, x))
    p.alpha = alpha
    m1, m2, s2, sp = delta_reference(x, y)
    z = float(norm.ppf(1 - alpha / 2))
    u, l = p.perc_change_upper / 100 + 1, p.perc_change_lower / 100 + 1
    ctx.eq((u + l) * m1, 2 * m2, "centred on the ratio")
    ctx.eq((u - l) * (u - l), 4 * z * z * s2, "width")
    ctx.le(l, u, "ordered")
    ctx.check((p.stat_sig == True) == ((u <= 1) | (l >= 1)), "significance")  # noqa
    q = float(tdist.ppf(1 - alpha / 2, n1 + n2 - 2))
    up, lo = p.ci_upper, p.ci_lower
    ctx.eq(up + lo, 2 * m1, "confidence limits centred on the previous mean")
    ctx.eq((up - m1) * (up - m1), q * q * sp, "half width")
    ctx.le(lo, up, "ordered limits")
    ctx.reach("end")


@harness("C09", params=[{"n1": 2, "n2": 2}, {"n1": 3, "n2": 2}, {"n1": 1, "n2": 2}, {"n1": 2, "n2": 1}, {"n1": 1, "n2": 1}],
         weight=2)
def columns_agree_with_single(ctx, n1, n2):
    """every per-column quantity of a two-column comparison equals that of the column compared on its own (scores without
    rescaling are the plain t statistic)"""
    a, b, c, d = (ctx.real(k, 1, 50) for k in "abcd")
    X = [[a + k for k in SHAPES[n1]], [b + k for k in SHAPES2[n1]]]
    Y = [[c + k for k in SHAPES2[n2]], [d + k for k in SHAPES2[n2]]]
    p = PC(interval_multi(ctx, dict(zip("pq", Y)), start=n1), interval_multi(ctx, dict(zip("pq", X))), skip_rescaling=True)
    sc, pv = p.score, p.p_value
    if n1 == n2 == 1:
        ctx.check(float(sc[0]) == float(sc[1]) == float("inf"), "score of single points")
        ctx.check(float(pv[0]) == float(pv[1]) == 0.0, "p-value of single points")
        ctx.reach("end")
        return
    up, lo, ra, di, md = p.ci_upper, p.ci_lower, p.ratio_estimate, p.direction, p.mean_difference
    if min(n1, n2) > 1:
        u, l, sg = p.perc_change_upper, p.perc_change_lower, p.stat_sig
    for i in range(2):
        x, y = X[i], Y[i]
        q = PC(interval(ctx, y, start=n1), interval(ctx, x))
        m1, m2 = mean(x), mean(y)
        sp = ssum([(len(v) - 1) * var(v, 1) if len(v) > 1 else 0.0 for v in (x, y)]) / (n1 + n2 - 2)
        ctx.eq(up[i], q.ci_upper, "upper confidence limit")
        ctx.eq(lo[i], q.ci_lower, "lower confidence limit")
        ctx.eq(ra[i] * m1, m2, "ratio")
        ctx.eq(md[i], m2 - m1, "difference")
        f = 1.0 if min(n1, n2) == 1 else 1.0 / n1 + 1.0 / n2
        ctx.eq(sc[i] * sc[i] * sp * f, (m2 - m1) * (m2 - m1), "t statistic")
        ctx.check((sc[i] > 0) == (m2 > m1), "sign")
        if min(n1, n2) > 1:
            ctx.eq(u[i], q.perc_change_upper, "upper limit of the change")
            ctx.eq(l[i], q.perc_change_lower, "lower limit of the change")
            ctx.check(bool(sg[i]) == bool(q.stat_sig), "significance")
        ctx.check(str(di[i]) == q.direction, "direction")
    ctx.reach("end")


@harness("C09", params=[{"skip": True}, {"skip": False}], weight=3)
def many_series(ctx, skip):
    """two columns with 2 points a side: unscaled scores are the t statistic of each column; with rescaling p-values are
    Benjamini-Hochberg adjusted (never below the raw ones, at most 1) and scores keep the sign of the change"""
    a, b = ctx.reals("a", 4), ctx.reals("b", 4)
    if not skip:
        # fixed spread, any location
        a = [a[0] - 1, a[0] + 1, a[2] - 2, a[2] + 2]
        b = [b[0] - 3, b[0] + 3, b[2] - 1, b[2] + 1]
    prev = interval_multi(ctx, {"p": a[:2], "q": b[:2]})
    cur = interval_multi(ctx, {"p": a[2:], "q": b[2:]}, start=2)
    raw = PC(cur, prev, skip_rescaling=True)
    p = PC(cur, prev, skip_rescaling=skip)
    den = []
    for v in (a, b):
        ctx.assume(abs(mean(v[:2])) > 0.5)
        sp = (var(v[:2], 1) + var(v[2:], 1)) / 2
        ctx.assume(sp > 0.01)
        ctx.assume(abs(mean(v[2:]) - mean(v[:2])) > 0.001)
        den.append(sp)
    sc, pv, rp = p.score, p.p_value, raw.p_value
    for i, v in enumerate((a, b)):
        d = mean(v[2:]) - mean(v[:2])
        if skip:
            ctx.eq(sc[i] * sc[i] * den[i], d * d, "t statistic")
            ctx.check((sc[i] > 0) == (d > 0), "sign")
        else:
            ctx.le(rp[i], pv[i], "adjusted p not below raw p")
            ctx.check((sc[i] >= 0) == (d > 0) if ctx.symbolic else bool((sc[i] >= -1e-9) == (d > 0) or abs(sc[i]) < 1e-9),
                      "sign kept")
        ctx.le(pv[i], 1, "p <= 1")
        ctx.le(0, pv[i], "p >= 0")
    if not skip:
        lo, hi = ctx.ite(rp[0] < rp[1], rp[0], rp[1]), ctx.ite(rp[0] < rp[1], rp[1], rp[0])
        s0 = ctx.ite(pv[0] < pv[1], pv[0], pv[1])
        s1 = ctx.ite(pv[0] < pv[1], pv[1], pv[0])
        ctx.eq(s1, hi, "largest p unchanged")
        ctx.eq(s0, ctx.ite(2 * lo < hi, 2 * lo, hi), "smallest p doubled up to the largest")
    d0, d1 = p.direction
    pc = p.perc_change
    for i, dd in ((0, d0), (1, d1)):
        ctx.check((pc[i] > 0) == (str(dd) == "up"), "direction")
    ctx.reach("end")


# ------------------------------------------------------------------ C10
def response(ctx, n, tag, start=0, with_band=True, with_pred=True, with_sig=True):
    names = ["score", "lower", "upper", "pred", "mag", "sig"]
    v = {k: ctx.reals(tag + k, n) for k in names}
    t = {k: tsd(ctx, v[k], range(start, start + n)) for k in names}
    r = AR(t["score"], CB(lower=t["lower"], upper=t["upper"]) if with_band else None, t["pred"] if with_pred else None,
           t["mag"], t["sig"] if with_sig else None)
    return r, v


def parts(r):
    out = {"score": r.scores, "mag": r.anomaly_magnitude_ts}
    if r.confidence_band is not None:
        out["lower"], out["upper"] = r.confidence_band.lower, r.confidence_band.upper
    if r.predicted_ts is not None:
        out["pred"] = r.predicted_ts
    if r.stat_sig_ts is not None:
        out["sig"] = r.stat_sig_ts
    return out


def check_parts(ctx, r, v, idx, times_, label):
    """every series of r holds v[name][i] for i in idx at times_"""
    for k, ts in parts(r).items():
        ctx.check(offs(ts.time) == list(times_), label + " times of " + k)
        ctx.eq_list(list(ts.value), [v[k][i] for i in idx], label + " " + k)


@harness("C10", weight=2)
def sliding_update(ctx):
    """update appends one point and drops the oldest in every component; absent components stay absent"""
    b, p, s = ctx.cbool("band"), ctx.cbool("pred"), ctx.cbool("sig")
    n = 3
    r, v = response(ctx, n, "a", with_band=b, with_pred=p, with_sig=s)
    new = {k: ctx.real("new_" + k) for k in ("score", "lower", "upper", "pred", "mag", "sig")}
    r.update(day(n), new["score"], new["upper"], new["lower"], new["pred"], new["mag"], new["sig"])
    for k in v:
        v[k] = v[k] + [new[k]]
    ctx.check(set(parts(r)) == {"score", "mag"} | ({"lower", "upper"} if b else set()) | ({"pred"} if p else set())
              | ({"sig"} if s else set()), "components")
    check_parts(ctx, r, v, range(1, n + 1), range(1, n + 1), "slid")
    ctx.reach("end")


@harness("C10")
def replace_point(ctx):
    """inplace_update replaces the values of the given time only, in every component"""
    b, p, s = ctx.cbool("band"), ctx.cbool("pred"), ctx.cbool("sig")
    n = 3
    r, v = response(ctx, n, "a", with_band=b, with_pred=p, with_sig=s)
    k0 = ctx.cint("k", -1, 3)
    new = {k: ctx.real("new_" + k) for k in ("score", "lower", "upper", "pred", "mag", "sig")}
    r.inplace_update(day(k0), new["score"], new["upper"], new["lower"], new["pred"], new["mag"], new["sig"])
    for k in v:
        v[k] = [new[k] if i == k0 else x for i, x in enumerate(v[k])]
    check_parts(ctx, r, v, range(n), range(n), "replaced")
    ctx.reach("end")


@harness("C10")
def last_n(ctx):
    """get_last_n keeps the newest n points of every component and leaves the response as it was"""
    b, p, s = ctx.cbool("band"), ctx.cbool("pred"), ctx.cbool("sig")
    n = 4
    r, v = response(ctx, n, "a", with_band=b, with_pred=p, with_sig=s)
    k = ctx.cint("k", 1, 5)
    q = r.get_last_n(k)
    lo = max(0, n - k)
    ctx.check(set(parts(q)) == set(parts(r)), "components")
    check_parts(ctx, q, v, range(lo, n), range(lo, n), "last")
    check_parts(ctx, r, v, range(n), range(n), "original")
    ctx.reach("end")


@harness("C10", weight=2)
def extend_response(ctx):
    """extend appends the other response component by component; components missing on one side only are refused"""
    f1 = [ctx.cbool("band1"), ctx.cbool("pred1"), ctx.cbool("sig1")]
    f2 = [ctx.cbool("band2"), ctx.cbool("pred2"), ctx.cbool("sig2")]
    r, v = response(ctx, 2, "a", 0, *f1)
    q, w = response(ctx, 2, "b", 2, *f2)
    if f1 != f2:
        ctx.raises(ValueError, lambda: r.extend(q), "mismatch refused")
        ctx.stop()
    r.extend(q)
    both = {k: v[k] + w[k] for k in v}
    check_parts(ctx, r, both, range(4), range(4), "extended")
    check_parts(ctx, q, w, range(2), range(2, 4), "other")
    ctx.raises(TypeError, lambda: r.extend(3), "wrong type")
    ctx.reach("end")


@harness("C10")
def multivariate_update(ctx):
    """two score columns: update and inplace_update act per column"""
    def mk(tag, n):
        cols = {"p": ctx.reals(tag + "p", n), "q": ctx.reals(tag + "q", n)}
        return tsd_multi(ctx, cols), cols
    sc, v = mk("s", 2)
    mg, w = mk("m", 2)
    r = AR(sc, None, None, mg, None)
    a, b = ctx.reals("a", 2), ctx.reals("b", 2)
    r.update(day(2), ctx.array(a), None, None, None, ctx.array(b), None)
    for i, c in enumerate(("p", "q")):
        ctx.eq_list(list(r.scores.value[c]), [v[c][1], a[i]], "scores")
        ctx.eq_list(list(r.anomaly_magnitude_ts.value[c]), [w[c][1], b[i]], "magnitude")
    ctx.check(offs(r.scores.time) == [1, 2], "times")
    ctx.reach("end")
