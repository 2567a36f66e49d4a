"""C11 CUSUM change point detection."""
import math
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.cusum_detection as CD
from kats.consts import TimeSeriesData

DIRS = ["increase", "decrease"]


def varied(ctx, xs):
    """the series is not constant"""
    c = xs[1] - xs[0] > 0.01
    for x in xs[1:]:
        c = c | (x - xs[0] > 0.01) | (xs[0] - x > 0.01)
    ctx.assume(c)


def clamp(i, n):
    return max(1, min(i, n - 2))


def argbest(xs, direction):
    """first index of the smallest (increase) or largest (decrease) element"""
    b = 0
    for i in range(1, len(xs)):
        if bool(xs[i] < xs[b]) if direction == "increase" else bool(xs[i] > xs[b]):
            b = i
    return b


def cums(xs):
    out, s = [], 0.0
    for x in xs:
        s = s + x
        out.append(s)
    return out


def step(xs, cp, direction):
    c = (mean(xs[:cp + 1]) + mean(xs[cp + 1:])) / 2
    return clamp(argbest(cums([x - c for x in xs]), direction), len(xs))


def locate(xs, direction, start=None, max_iter=10):
    """reference: iterate the split until it reproduces itself"""
    n = len(xs)
    m = mean(xs)
    cp = min(argbest(cums([x - m for x in xs]), direction), n - 2) if start is None else start
    for _ in range(max_iter):
        nxt = step(xs, cp, direction)
        if nxt == cp:
            return cp, True
        cp = nxt
    return cp, False


def split_ss(xs, cp):
    a, b = xs[:cp + 1], xs[cp + 1:]
    m0, m1 = mean(a), mean(b)
    return ssum([(x - m0) * (x - m0) for x in a]) + ssum([(x - m1) * (x - m1) for x in b])


def llr_arg(xs, cp):
    """scale^2 / sigma^2 of the two-means model against the one-mean model, with its degenerate case"""
    n = len(xs)
    return split_ss(xs, cp) / (n - 2), var(xs)


def found(det, direction, **kw):
    """the candidate split; with threshold 0 the decision is always negative and does not fork the path"""
    kw.setdefault("threshold", 0.0)
    r = det.detector(change_directions=[direction], return_all_changepoints=True, **kw)
    assert len(r) == 1
    return r[0]


@harness("C11", params=[{"n": 4, "direction": "increase"}, {"n": 4, "direction": "decrease"}],
         thorough=[{"n": 5, "direction": "increase"}, {"n": 5, "direction": "decrease"}], weight=3)
def split_point(ctx, n, direction):
    """the split is the fixed point of the CUSUM iteration, lies in [1, n-2]; the means, their difference and the time of
    the split are those of the whole series"""
    xs = ctx.reals("x", n)
    varied(ctx, xs)
    d = CD.CUSUMDetector(tsd(ctx, xs))
    c = found(d, direction)
    cp = c.cp_index
    ctx.check(1 <= cp <= n - 2, "inside the series")
    ctx.eq(c.mu0, mean(xs[:cp + 1]), "mean before")
    ctx.eq(c.mu1, mean(xs[cp + 1:]), "mean after")
    ctx.eq(c.delta, mean(xs[cp + 1:]) - mean(xs[:cp + 1]), "delta")
    ctx.check(offs([c.start_time]) == [cp] and offs([c.end_time]) == [cp], "time")
    ctx.check(c.direction == direction, "direction")
    want, ok = locate(xs, direction)
    if c.stable_changepoint:
        ctx.check(step(xs, cp, direction) == cp, "stable split reproduces itself")
    ctx.check(cp == want, "split point")
    ctx.check(c.stable_changepoint == ok, "stability")
    ctx.check(d.changes_meta[direction]["changepoint"] == cp, "meta data")
    ctx.reach("end")


@harness("C11", params=[{"direction": "increase"}, {"direction": "decrease"}], weight=2)
def split_start(ctx, direction):
    """the search starts from start_point when one is given"""
    xs = ctx.reals("x", 4)
    varied(ctx, xs)
    sp = ctx.cint("start", 0, 2)
    d = CD.CUSUMDetector(tsd(ctx, xs))
    c = found(d, direction, start_point=sp, max_iter=2)
    cp = sp
    n = 0
    while n < 2:
        n += 1
        nx = step(xs, cp, direction)
        if nx == cp:
            break
        cp = nx
    ctx.check(c.cp_index == cp, "split point")
    if c.stable_changepoint:
        ctx.check(step(xs, c.cp_index, direction) == c.cp_index, "stable")
    ctx.reach("end")


@harness("C11", params=[{"direction": "increase"}, {"direction": "decrease"}], weight=3)
def split_window(ctx, direction):
    """with an interest window the split is searched inside the window and reported by its position in the whole series"""
    lo, hi = ctx.choice("w", [(1, 5), (2, 6)])
    base = [1.0, 2.0]
    xs = ctx.reals("x", 3)
    xs.insert(2, 1.5)
    full = [base[0] if i < lo else (xs[i - lo] if i < hi else base[1]) for i in range(6)]
    varied(ctx, xs)
    d = CD.CUSUMDetector(tsd(ctx, full))
    c = found(d, direction, interest_window=[lo, hi])
    cp = c.cp_index
    ctx.check(lo + 1 <= cp <= hi - 2, "inside the window")
    want, ok = locate(xs, direction)
    ctx.check(cp == want + lo, "split point")
    ctx.eq(c.mu0, mean(full[:cp + 1]), "mean before")
    ctx.eq(c.mu1, mean(full[cp + 1:]), "mean after")
    ctx.check(offs([c.start_time]) == [cp], "time")
    di = d.changes_meta[direction]["delta_int"]
    k = cp - lo
    ctx.eq(di, mean(xs[k + 1:]) - mean(xs[:k + 1]), "delta in the window")
    ctx.reach("end")


def shape(ctx, n, spread):
    """a series with symbolic step height and location, fixed wiggle"""
    return [spread * (((i * 7) % 5) - 2) for i in range(n)]


@harness("C11", params=[{"k": 2}, {"k": 3}], weight=2)
def likelihood_ratio(ctx, k):
    """llr is the Gaussian log likelihood ratio of the two-level model with pooled deviation against one level"""
    n = 6
    b, h = 3.0, ctx.real("h", -40, 40)
    w = [0.0, 1.0, -1.0, 0.5, -0.5, 1.0]
    xs = [b + w[i] + (h if i > k else 0.0) for i in range(n)]
    d = CD.CUSUMDetector(tsd(ctx, xs))
    c = found(d, "increase")
    cp = c.cp_index
    s2, v = llr_arg(xs, cp)
    # llr = -n log(s2/v) - (RSS/s2 - n) with RSS = (n-2) s2
    ctx.assume(s2 > 0.001)
    lg = np.log(np.sqrt(s2) / np.sqrt(v))
    want = -2 * (n * lg + 0.5 * ((n - 2) - n))
    ctx.eq(c.llr, want, "llr")
    p = 1 - CD.chi2.cdf(want, 2)
    ctx.eq(c.p_value, p, "p value")
    ctx.eq(c.confidence, 1 - c.p_value, "confidence")
    ctx.check(c.llr_int == float("inf"), "no window")
    ctx.reach("end")


@harness("C11", weight=2)
def likelihood_ratio_window(ctx):
    """the same statistic inside the interest window"""
    n = 5
    b, h = 3.0, ctx.real("h", -40, 40)
    w = [0.0, 1.0, -1.0, 0.5, -0.5]
    win = [b + w[i] + (h if i > 2 else 0.0) for i in range(n)]
    xs = [b] + win + [b + 1]
    d = CD.CUSUMDetector(tsd(ctx, xs))
    c = found(d, "increase", interest_window=[1, 6])
    cp = c.cp_index - 1
    s2, v = llr_arg(win, cp)
    ctx.assume(s2 > 0.001)
    lg = np.log(np.sqrt(s2) / np.sqrt(v))
    want = -2 * (n * lg + 0.5 * ((n - 2) - n))
    ctx.eq(c.llr_int, want, "llr in the window")
    ctx.eq(c.p_value_int, 1 - CD.chi2.cdf(want, 2), "p value in the window")
    ctx.reach("end")


@harness("C11", params=[{"direction": "increase", "window": False}, {"direction": "decrease", "window": False},
                        {"direction": "increase", "window": True}, {"direction": "decrease", "window": True}], weight=2)
def decision(ctx, direction, window):
    """a change is reported exactly if it is significant (also inside the window), goes in the asked direction by more
    than the minimum and exceeds delta_std_ratio deviations of the points before the split"""
    n = 6
    b, h = 40.0, ctx.real("h", -40, 40)
    w = [0.0, 1.0, -1.0, 0.5, -0.5, 1.0]
    xs = [b + 5 + w[i] + (h if i > 2 else 0.0) for i in range(n)]
    th = ctx.choice("threshold", [0.01, 0.2])
    ratio = ctx.choice("ratio", [1.0, 4.0])
    mac = ctx.choice("min_abs", [0, 3])
    kw = dict(threshold=th, delta_std_ratio=ratio, min_abs_change=mac, change_directions=[direction])
    if window:
        kw["interest_window"] = [1, 6]
    d = CD.CUSUMDetector(tsd(ctx, xs))
    got = d.detector(**kw)
    m = d.changes_meta[direction]
    cp = m["changepoint"]
    crit = float(CD.chi2.ppf(1 - th, 2))
    m0, m1 = mean(xs[:cp + 1]), mean(xs[cp + 1:])
    ok = m["llr"] > crit
    if window:
        ok = ok & (m["llr_int"] > crit)
    ok = ok & ((m0 + mac < m1) if direction == "increase" else (m0 > m1 + mac))
    ok = ok & (abs(m1 - m0) > np.sqrt(var(xs[:cp])) * ratio)
    reported = len(got) == 1
    ctx.check(ok == reported, "reported exactly when all conditions hold")
    ctx.check(bool(m["regression_detected"]) == reported, "flag")
    if reported:
        ctx.check(got[0].regression_detected == True and got[0].direction == direction, "reported point")  # noqa
        ctx.check((got[0].delta > 0) if direction == "increase" else (got[0].delta < 0), "sign of the change")
    ctx.reach("end")


@harness("C11")
def directions(ctx):
    """None, "", "both" and [] mean both directions; one direction looks only there; anything else is refused; results
    come one per direction in the asked order"""
    b, h = 3.0, ctx.real("h", -40, 40)
    xs = [b, b + 1, b + h, b + h + 1]
    spec = ctx.choice("dirs", [None, [""], ["both"], [], "both", "", ["increase"], "decrease", ["decrease", "increase"]])
    d = CD.CUSUMDetector(tsd(ctx, xs))
    r = d.detector(change_directions=spec, return_all_changepoints=True)
    want = DIRS
    if spec in (["increase"],):
        want = ["increase"]
    elif spec == "decrease":
        want = ["decrease"]
    elif spec == ["decrease", "increase"]:
        want = spec
    ctx.check([c.direction for c in r] == want, "directions")
    some = d.detector(change_directions=spec)
    ctx.check(all(c.regression_detected for c in some), "only detected ones without return_all")
    ctx.check([c.direction for c in some] == [c.direction for c in r if c.regression_detected], "subset")
    ctx.reach("end")


@harness("C11")
def refusals(ctx):
    """unknown directions and multivariate input are refused"""
    a, b = ctx.reals("a", 5), ctx.reals("b", 5)
    varied(ctx, a)
    bad = ctx.choice("bad", [["up"], "incr", ["increase ", "decrease"]])
    d = CD.CUSUMDetector(tsd(ctx, a))
    ctx.raises(ValueError, lambda: d.detector(change_directions=bad), "unknown direction")
    v = CD.VectorizedCUSUMDetector(tsd(ctx, a))
    ctx.raises(ValueError, lambda: v.detector(change_directions=bad), "unknown direction")
    ctx.raises(ValueError, lambda: v.detector_(change_directions=bad), "unknown direction")
    ctx.raises(ValueError, lambda: CD.CUSUMDetector(tsd_multi(ctx, {"p": a, "q": b})), "multivariate")
    ctx.reach("end")


@harness("C11", params=[{"direction": "increase"}, {"direction": "decrease"}], weight=2)
def shift(ctx, direction):
    """adding a constant to the series moves both means by it and changes nothing else"""
    xs = ctx.reals("x", 4)
    varied(ctx, xs)
    c = ctx.real("c", -100, 100)
    a = found(CD.CUSUMDetector(tsd(ctx, xs)), direction)
    b = found(CD.CUSUMDetector(tsd(ctx, [x + c for x in xs])), direction)
    ctx.check(a.cp_index == b.cp_index, "split under a shift")
    ctx.eq(b.mu0, a.mu0 + c, "mean before")
    ctx.eq(b.delta, a.delta, "delta")
    ctx.reach("end")


@harness("C11", params=[{"direction": "increase"}, {"direction": "decrease"}], weight=2)
def negate(ctx, direction):
    """negating the series swaps the directions"""
    xs = ctx.reals("x", 4)
    varied(ctx, xs)
    a = found(CD.CUSUMDetector(tsd(ctx, xs)), direction)
    e = found(CD.CUSUMDetector(tsd(ctx, [-x for x in xs])), DIRS[1 - DIRS.index(direction)])
    ctx.check(a.cp_index == e.cp_index, "split of the negated series")
    ctx.eq(e.delta, -a.delta, "negated delta")
    ctx.reach("end")


def vcols(ctx):
    x = [1.5, ctx.real("x", -20, 20), 0.5, 1.0]
    b, h = 2.0, ctx.real("h", -20, 20)
    y = [b, b + 1, b + h, b + h + 2]
    varied(ctx, x)
    return x, y


@harness("C11", params=[{"meth": "detector"}, {"meth": "detector_"}], weight=3)
def vectorized(ctx, meth):
    """the vectorized detector finds for every column what the univariate detector finds in it"""
    x, y = vcols(ctx)
    direction = ctx.choice("dir", DIRS)
    v = CD.VectorizedCUSUMDetector(tsd_multi(ctx, {"p": x, "q": y}))
    r = getattr(v, meth)(change_directions=[direction], return_all_changepoints=True, threshold=0.0)
    ctx.check(len(r) == 2, "one list per column")
    for col, got in ((x, r[0]), (y, r[1])):
        u = found(CD.CUSUMDetector(tsd(ctx, col)), direction)
        ctx.check(len(got) == 1, "one change point")
        g = got[0]
        ctx.check(g.cp_index == u.cp_index, "split")
        ctx.eq(g.mu0, u.mu0, "mean before")
        ctx.eq(g.mu1, u.mu1, "mean after")
        ctx.eq(g.delta, u.delta, "delta")
        ctx.check(g.start_time == u.start_time and g.direction == u.direction, "time and direction")
        ctx.check(bool(g.stable_changepoint) == bool(u.stable_changepoint), "stability")
        ctx.eq(g.llr, u.llr, "llr")
        ctx.check(bool(g.regression_detected) == bool(u.regression_detected), "detected")
    ctx.reach("end")


@harness("C11", params=[{"meth": "detector"}, {"meth": "detector_"}], weight=2)
def vectorized_window(ctx, meth):
    """the same with an interest window, thresholds and ratios"""
    b, h = 2.0, ctx.real("h", -20, 20)
    x = [b + 1, b, b + 1, b - 1, b + h, b + h + 1, b]
    y = [3 * v + 7.0 * (i % 3) for i, v in enumerate([b + 3, b, b + h, b + h + 2, b + h - 1, b, b + 1])]
    direction = ctx.choice("dir", DIRS)
    kw = dict(change_directions=[direction], return_all_changepoints=True, interest_window=[1, 6], threshold=0.1,
              delta_std_ratio=0.5, min_abs_change=1)
    v = CD.VectorizedCUSUMDetector(tsd_multi(ctx, {"p": x, "q": y}))
    r = getattr(v, meth)(**kw)
    for col, got in ((x, r[0]), (y, r[1])):
        u = CD.CUSUMDetector(tsd(ctx, col)).detector(**kw)[0]
        g = got[0]
        ctx.check(g.cp_index == u.cp_index, "split")
        ctx.eq(g.mu0, u.mu0, "mean before")
        ctx.eq(g.mu1, u.mu1, "mean after")
        ctx.eq(g.llr_int, u.llr_int, "llr in the window")
        ctx.eq(g.p_value_int, u.p_value_int, "p in the window")
        ctx.check(bool(g.regression_detected) == bool(u.regression_detected), "detected")
    ctx.reach("end")


@harness("C11", params=[{"meth": "detector"}, {"meth": "detector_"}], weight=2)
def vectorized_decision(ctx, meth):
    """every column is judged by the univariate rule: significance, direction, smallest change, deviations before the split"""
    b, h = 40.0, ctx.real("h", 0, 30)
    w = [0.0, 1.0, -1.0, 0.5, -0.5, 1.0]
    direction = ctx.choice("dir", DIRS)
    s = 1 if direction == "increase" else -1
    x = [b + 5 + s * (w[i] + (h if i > 2 else 0.0)) for i in range(6)]
    y = [b + 4 + s * v for v in (1.0, 0.0, 2.0, 6.0, 5.0, 7.0)]
    th, ratio, mac = ctx.choice("set", [(0.4, 4.0, 0), (0.01, 1.0, 5)])
    kw = dict(change_directions=[direction], threshold=th, delta_std_ratio=ratio, min_abs_change=mac)
    v = CD.VectorizedCUSUMDetector(tsd_multi(ctx, {"p": x, "q": y}))
    r = getattr(v, meth)(**kw)
    ctx.check(len(r) == 2, "one list per column")
    for col, got in ((x, r[0]), (y, r[1])):
        u = CD.CUSUMDetector(tsd(ctx, col)).detector(**kw)
        ctx.check(len(got) == len(u), "reported exactly when the univariate detector reports")
        if u and got:
            ctx.check(got[0].cp_index == u[0].cp_index, "split")
            ctx.eq(got[0].delta, u[0].delta, "delta")
    ctx.reach("end")


@harness("C11", weight=2)
def magnitude(ctx):
    """magnitude comparison: counts the days whose same window is smaller by the ratio; vetoes a change below the
    wanted share; never consulted when the data has negative values"""
    # hourly/12h data over 3 days: six points, window = last-but-one day half
    h = ctx.reals("h", 3, 1, 100)
    top = ctx.real("top", 1, 400)
    # rows: day 0..3, two per day; window covers index 6 (day 3 first half)
    vals = [h[0], 5.0, h[1], 5.0, h[2], 5.0, top, 5.0]
    d = CD.CUSUMDetector(tsd(ctx, vals, [12 * i for i in range(8)], unit="h"))
    d.interest_window = [6, 7]
    d.magnitude_quantile = 0.5
    d.magnitude_ratio = 1.3
    got = d._magnitude_compare(np.asarray(ctx.array(vals)))
    days = 3
    n = 0
    for i in range(days):
        n = n + ctx.ite(top >= 1.3 * vals[6 - 2 * i], 1, 0)
    for i in range(1, days):
        ctx.assume(abs(top - 1.3 * vals[6 - 2 * i]) > 1e-3)
    ctx.eq(got * days, n, "share of smaller days")
    ctx.reach("end")


@harness("C11", params=[{"which": "uni"}, {"which": "vec"}], weight=2)
def magnitude_veto(ctx, which):
    """a change whose magnitude is not above enough days is not reported; without a quantile nothing is vetoed"""
    top = ctx.real("top", 1, 60)
    vals = [4.0, 5.0, 4.5, 3.0, 2.0, 3.0, top, top + 1, 5.0]
    w = [4, 8]
    ts = tsd(ctx, vals, [6 * i for i in range(9)], unit="h")
    cls = CD.CUSUMDetector if which == "uni" else CD.VectorizedCUSUMDetector
    kw = dict(change_directions=["increase"], interest_window=w, threshold=0.5, delta_std_ratio=0.1)
    one = (lambda r: r) if which == "uni" else (lambda r: r[0])
    plain = one(cls(ts).detector(**kw))
    share = ctx.choice("share", [0.0, 0.5, 0.8])
    q = one(cls(ts).detector(magnitude_quantile=1.0, magnitude_comparable_day=share, **kw))
    mi = vmax(ctx, vals[4:8])
    ctx.assume(abs(mi - 1.3 * 5.0) > 1e-3)
    cnt = ctx.ite(mi >= 1.3 * 5.0, 1, 0)
    ok = cnt >= share * 2
    ctx.check(len(q) <= len(plain), "magnitude only removes")
    if plain:
        ctx.check(ok == (len(q) == 1), "vetoed exactly when too few days are smaller")
    ctx.reach("end")


def cusum_point(ctx, tag, cp=3, flag=True):
    return CD.CUSUMChangePoint(
        start_time=T0, end_time=T0, confidence=ctx.real("c" + tag, 0, 1), direction="increase", cp_index=cp,
        mu0=ctx.real("m0" + tag, -10, 10), mu1=ctx.real("m1" + tag, -10, 10), delta=ctx.real("d" + tag, -10, 10),
        llr_int=1.0, llr=ctx.real("l" + tag, 0.1, 20), regression_detected=flag, stable_changepoint=True,
        p_value=ctx.real("p" + tag, 0, 1), p_value_int=0.5)


@harness("C11")
def point_equality(ctx):
    """two change points are equal exactly if all compared fields are"""
    cp = ctx.cint("cp", 3, 4)
    fl = ctx.cbool("flag")
    a, b = cusum_point(ctx, "a"), cusum_point(ctx, "b", cp, fl)
    same = (a.confidence == b.confidence) & (a.mu0 == b.mu0) & (a.mu1 == b.mu1) & (a.delta == b.delta) \
        & (a.llr == b.llr) & (a.p_value == b.p_value)
    if cp != 3 or not fl:
        same = same & False if not isinstance(same, bool) else False
    ctx.check(bool(a == b) == bool(same), "equality")
    ctx.check(bool(a == a), "reflexive")
    ctx.reach("end")


@harness("C11", params=[{"n": 4}], thorough=[{"n": 5}], weight=2)
def multivariate(ctx, n):
    """the multivariate detector splits inside the series; the reported means are those of the rows before and after;
    significance is against the chi-square quantile with columns+1 degrees of freedom"""
    b, h = ctx.real("b", -20, 20), ctx.real("h", -8, 8)
    wx, wy = [0.0, 1.0, -1.0, 0.5, 2.0][:n], [1.0, 0.0, 0.5, -1.0, 1.0][:n]
    x = [b + wx[i] + (h if i > 1 else 0.0) for i in range(n)]
    y = [wy[i] + 0.0 * b for i in range(n)]
    mx, my = mean(x), mean(y)
    sxy = ssum([(p - mx) * (q - my) for p, q in zip(x, y)])
    ctx.assume(n * n * var(x) * var(y) - sxy * sxy > 0.01)
    d = CD.MultiCUSUMDetector(tsd_multi(ctx, {"p": x, "q": y}))
    r = d.detector(return_all_changepoints=True, max_iter=3)
    c = r[0]
    cp = c.cp_index
    ctx.check(1 <= cp <= n - 2, "inside the series")
    for k, col in enumerate((x, y)):
        ctx.eq(c.mu0[k], mean(col[:cp + 1]), "mean before")
        ctx.eq(c.mu1[k], mean(col[cp + 1:]), "mean after")
        ctx.eq(c.delta[k], mean(col[cp + 1:]) - mean(col[:cp + 1]), "delta")
    ctx.check(offs([c.start_time]) == [cp], "time")
    ctx.eq(c.p_value, 1 - CD.chi2.cdf(c.llr, 3), "p value")
    ctx.check((c.llr > float(CD.chi2.ppf(0.99, 3))) == bool(c.regression_detected), "decision")
    ctx.check((len(d.detector(max_iter=3)) == 1) == bool(c.regression_detected), "reported")
    ctx.reach("end")
