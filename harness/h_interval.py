"""C24 interval detector: test statistics, decisions, intervals, run probabilities."""
import itertools
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.interval_detector as ID
from kats.consts import TimeSeriesData
from kats.detectors.interval_detector import (
    ABIntervalType, IntervalDetectorModel as Base, OneSampleProportionIntervalDetectorModel as OneProp, TestStatistic, TestType,
    TwoSampleArrivalTimeIntervalDetectorModel as Arrival, TwoSampleCountIntervalDetectorModel as Count,
    TwoSampleProportionIntervalDetectorModel as Prop, TwoSampleRealValuedIntervalDetectorModel as Real)

LOW, UP, TWO = TestType.ONE_SIDED_LOWER, TestType.ONE_SIDED_UPPER, TestType.TWO_SIDED
ABS, REL = TestStatistic.ABSOLUTE_DIFFERENCE, TestStatistic.RELATIVE_DIFFERENCE
DT = object if SYMBOLIC else float
INF = float("inf")


def frame(ctx, cols, start=0, unit="h"):
    n = len(next(iter(cols.values())))
    d = {"time": times(range(start, start + n), unit)}
    for k, v in cols.items():
        d[k] = pd.Series(v, dtype="int64") if k.startswith("sample") or k in ctx_ints else ctx.series(v)
    return TimeSeriesData(pd.DataFrame(d))


ctx_ints = set()


def two(ctx, n, kind="real", p="", lo=1, hi=20):
    c = {"value_a": [ctx.real("%sa%d" % (p, i), lo, hi) for i in range(n)], "value_b": [ctx.real("%sb%d" % (p, i), lo, hi) for i in range(n)],
         "variance_a": [ctx.real("%su%d" % (p, i), 1, 9) for i in range(n)], "variance_b": [ctx.real("%sv%d" % (p, i), 1, 9) for i in range(n)],
         "sample_count_a": [2 + i for i in range(n)], "sample_count_b": [5 - i for i in range(n)],
         "effect_size": [ctx.real("%se%d" % (p, i), 0, 2) for i in range(n)]}
    return c


def clear(ctx, n, p=""):
    """rows whose decisions are clear: up, down, up, ..."""
    c = two(ctx, n, p=p)
    for k, far in (("value_a", 1), ("value_b", 0)):
        c[k] = [ctx.real("%s%s%d" % (p, k, i), 10, 20) if i % 2 == far else ctx.real("%s%s%d" % (p, k, i), 1, 2) for i in range(n)]
    for k in ("variance_a", "variance_b"):
        c[k] = [ctx.real("%s%s%d" % (p, k, i), 1, 4) for i in range(n)]
    return c


def variances(kind, c, i):
    r = []
    for s in "ab":
        v, w, n = c["value_" + s][i], c["variance_" + s][i], c["sample_count_" + s][i]
        r.append({Real: lambda: w / n, Prop: lambda: v * (1 - v) / n, Count: lambda: v / n, Arrival: lambda: v * v / n}[kind]())
    return r


class counts(object):
    """symbolic counts: the type check of counts is done elsewhere"""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.old = ID.Schema._validate_count
        if self.kind is Count:
            ID.Schema._validate_count = lambda *a, **k: None

    def __exit__(self, *a):
        ID.Schema._validate_count = self.old


KINDS = [Real, Prop, Count, Arrival]


@harness("C24", params=[{"k": k, "stat": s} for k in range(4) for s in ["abs", "rel"]])
def statistics(ctx, k, stat):
    """statistic, significance and limits of every time from its own row"""
    kind, n = KINDS[k], 2 if stat == "abs" else 1
    lo, hi = (0.1, 0.9) if kind is Prop else (1, 20)
    c = two(ctx, n, lo=lo, hi=hi)
    tt = ctx.choice("tt", [LOW, UP, TWO])
    t = frame(ctx, c)
    m = kind(alpha=0.05, duration=1, test_type=tt, test_statistic=ABS if stat == "abs" else REL)
    with counts(kind):
        r = m.fit_predict(t)
    ca = m.corrected_alpha
    z = float(ID.norm.ppf(1 - ca / 2)) if tt == TWO else float(ID.norm.ppf(1 - ca))
    lim = {"lower": [], "upper": []}
    for i in range(n):
        va, vb = variances(kind, c, i)
        a, b, e = c["value_a"][i], c["value_b"][i], c["effect_size"][i]
        if stat == "abs":
            d, sd = b - a, np.sqrt(va + vb)
            s = (d - e) / sd
            up, dn = d + z * sd, d - z * sd
        else:
            lg = lambda x: np.log(np.maximum(x, 1e-9))
            d, sd = lg(b) - lg(a), np.sqrt(va / np.maximum(a * a, 1e-18) + vb / np.maximum(b * b, 1e-18))
            s = (d - np.log(1 + e)) / sd
            up, dn = d + z * sd, d - z * sd
        got = r.scores.value.iloc[i]
        ctx.eq(got, s, "statistic")
        lim["lower"].append(-INF if tt == LOW else dn)
        lim["upper"].append(INF if tt == UP else up)
        cdf, sf = ID.norm.cdf(got), ID.norm.sf(got)
        sig = {LOW: cdf, UP: sf, TWO: ctx.ite(cdf < sf, cdf, sf)}[tt]
        ctx.eq(r.stat_sig_ts.value.iloc[i], sig, "significance")
    for side in lim:
        for g, w in zip(getattr(r.confidence_band, side).value, lim[side]):
            if isinstance(w, float) and abs(w) == INF:
                ctx.check(float(g) == w, side)
            else:
                ctx.eq(g if stat == "abs" else np.log(g), w, side)
    ctx.check(list(r.anomaly_magnitude_ts.value) == [0.0] * n, "magnitude")
    ctx.check(all(list(x.time) == list(times(range(n), "h")) for x in [r.scores, r.stat_sig_ts, r.predicted_ts, r.confidence_band.upper, r.confidence_band.lower]), "times")
    ctx.reach("end")


def sig_cols(ctx, stats):
    """two sample rows whose statistics are the given ones"""
    n = len(stats)
    return {"value_a": [0.0] * n, "value_b": stats, "variance_a": [1.0] * n, "variance_b": [1.0] * n, "sample_count_a": [2] * n, "sample_count_b": [2] * n,
            "effect_size": [0.0] * n}


def runs(mask):
    out, i = [], 0
    while i < len(mask):
        j = i
        while j + 1 < len(mask) and mask[j + 1] == mask[i]:
            j += 1
        if mask[i]:
            out.append((i, j))
        i = j + 1
    return out


@harness("C24", params=[{"tt": t, "n": 3 if t == 2 else 4} for t in range(3)] + [{"tt": 1, "n": 1}], thorough=[{"tt": 2, "n": 4}, {"tt": 1, "n": 6}])
def decisions(ctx, tt, n):
    """rejections are the statistics beyond the critical value; runs of them make padded intervals, long ones are anomalies"""
    tt = [LOW, UP, TWO][tt]
    ys = [ctx.real("y%d" % i, -10, 10) for i in range(n)]
    dur = ctx.choice("dur", [1, 2, 3]) if n > 2 else 1
    pad, unit = [(30, "m"), (2, "h")][dur % 2]
    mask = dur == 2
    t = frame(ctx, sig_cols(ctx, ys))
    m = Real(alpha=0.1, duration=dur, test_type=tt)
    r = m.fit_predict(t, interval_padding=pad, interval_units=unit, mask_scores=mask)
    ca = m.corrected_alpha
    z = float(ID.norm.ppf(1 - ca / 2)) if tt == TWO else float(ID.norm.ppf(1 - ca))
    rej = []
    for y in ys:
        ctx.assume(abs(y - z) > 1e-6)
        ctx.assume(abs(y + z) > 1e-6)
        if tt == LOW:
            b = bool(y <= -z)
        elif tt == UP:
            b = bool(y >= z)
        else:
            b = bool(y <= -z) or bool(y >= z)
        rej.append(b)
    rr, ff = runs(rej), runs([not b for b in rej])
    T = times(range(n), "h")
    p = pd.Timedelta(pad, unit)
    for got, want, kind in [(m.reject_intervals, rr, ABIntervalType.REJECT), (m.fail_to_reject_intervals, ff, ABIntervalType.FAIL_TO_REJECT)]:
        ctx.check([(i.start_idx, i.end_idx) for i in got] == want, "runs")
        ctx.check([(i.start, i.end) for i in got] == [(T[a] - p, T[b] + p) for a, b in want], "padded times")
        ctx.check([i.indices for i in got] == [list(range(a, b + 1)) for a, b in want], "indices")
        ctx.check(all(i.interval_type == kind for i in got), "kind")
    long_ = [w for w in rr if w[1] - w[0] + 1 >= dur]
    ctx.check([(i.start_idx, i.end_idx) for i in m.anomaly_intervals] == long_, "anomalies")
    ctx.check([(i.start_idx, i.end_idx) for i in m.caution_intervals] == [w for w in rr if w not in long_], "cautions")
    ctx.check([bool(v) for v in r.predicted_ts.value] == [any(a <= i <= b for a, b in long_) for i in range(n)], "predictions")
    if mask:
        ctx.check([bool(v) for v in r.scores.value] == rej, "masked scores")
    else:
        ctx.eq_list(list(r.scores.value), ys, "scores")
    ctx.reach("end")


@harness("C24", params=[{"again": a} for a in ["same", "shorter", "history", "history2", "raw"]])
def calls(ctx, again):
    """calls leave their inputs alone, do not depend on earlier ones, and judge history and data together"""
    n = 3
    c, h = clear(ctx, n), clear(ctx, 2, p="h")
    t, th = frame(ctx, c, 2), frame(ctx, h, 0)
    tt = UP
    if again in ("same", "history2", "raw"):
        tt = ctx.choice("tt", [LOW, TWO])
    dur = ctx.choice("dur", [1, 2]) if again in ("history", "history2") else 1
    m = Real(alpha=0.2, duration=dur, test_type=tt)
    base = Real(alpha=0.2, duration=dur, test_type=tt)

    def vals(r):
        return [list(x.value) for x in [r.scores, r.stat_sig_ts, r.predicted_ts, r.confidence_band.upper, r.confidence_band.lower]]

    def same(g, w, label):
        for x, y in zip(vals(g), vals(w)):
            ctx.check(len(x) == len(y), label + " length")
            for a, b in zip(x, y):
                if isinstance(b, float) and abs(b) == INF or isinstance(b, (bool, np.bool_)):
                    ctx.check(bool(a == b), label)
                else:
                    ctx.eq(a, b, label)

    if again == "same":
        same(m.fit_predict(t), m.predict(t), "second call")
    elif again == "shorter":
        m.fit_predict(frame(ctx, clear(ctx, 4, p="z")))
        same(m.fit_predict(t), base.fit_predict(t), "after another call")
    elif again in ("history", "history2"):
        r = m.fit_predict(t, th)
        both = frame(ctx, {k: h[k] + c[k] for k in c}, 0)
        same(r, base.fit_predict(both), "history and data")
        ctx.check(list(r.scores.time) == list(both.time), "times")
        for k in h:
            ctx.eq_list(list(th.value[k]), h[k], "history unchanged")
        ctx.check(len(th) == 2, "history length")
        if again == "history2":
            same(m.fit_predict(t, th), r, "second call")
    else:
        m.fit_predict(frame(ctx, clear(ctx, 4, p="z")))
        r = m.fit_predict(t, consolidate_into_intervals=False)
        ctx.check(list(r.predicted_ts.value) == [0.0] * n, "no predictions")
        ctx.check(m.reject_intervals is None and m.fail_to_reject_intervals is None, "no intervals")
        ctx.raises(ValueError, lambda: m.anomaly_intervals, "no anomalies")
    for k in c:
        ctx.eq_list(list(t.value[k]), c[k], "data unchanged: " + k)
    ctx.reach("end")


@harness("C24", params=[{"n": n, "m": m} for n, m in [(1, 1), (3, 1), (3, 2), (3, 3), (4, 2), (5, 2), (5, 3), (6, 2), (6, 4), (7, 3)]], thorough=[{"n": 9, "m": 3}, {"n": 9, "m": 2}])
def runprob(ctx, n, m):
    """the probability of a run of m rejections in n independent tests is exact"""
    p = ctx.real("p", 0, 1)
    want = 0.0
    for bits in itertools.product([0, 1], repeat=n):
        if any(all(bits[i:i + m]) for i in range(n - m + 1)):
            k = sum(bits)
            want = want + p ** k * (1 - p) ** (n - k)
    tt = ctx.choice("tt", [LOW, UP, TWO])
    ctx.eq(Base._probability_of_at_least_one_m_run_in_n_trials(p, n=n, m=m, test_type=tt), want, "probability")
    for bad in [(0, m), (n, 0), (n, n + 1), (-1, m), (n, -1)]:
        ctx.raises(ValueError, lambda: Base._probability_of_at_least_one_m_run_in_n_trials(p, n=bad[0], m=bad[1]), "refused")
    ctx.reach("end")


class weights(object):
    """multivariate normal probabilities of given regions (product of arbitrary ones), recorded"""

    def __init__(self, F):
        self.F, self.calls = F, []

    def __enter__(self):
        self.old = Base._mvn_mvnun
        F, calls = self.F, self.calls

        def mvn(lower, upper, mean=None, cov=1, **k):
            calls.append((list(lower), list(upper), np.array(cov)))
            r = 1.0
            for a, b in zip(lower, upper):
                r = r * (F(b) - F(a))
            return r
        Base._mvn_mvnun = staticmethod(mvn)
        return self

    def __exit__(self, *a):
        Base._mvn_mvnun = staticmethod(self.old)


@harness("C24", params=[{"m": m} for m in [1, 2, 3]])
def correlated(ctx, m):
    """with a covariance, run weights are the probabilities of k rejections before the first acceptance, and of m rejections"""
    p = ctx.choice("p", [0.05, 0.3])
    tt = ctx.choice("tt", [LOW, UP, TWO])
    n = m + 2
    z = float(ID.norm.ppf(1 - p / 2)) if tt == TWO else float(ID.norm.ppf(1 - p))
    q = ctx.real("q", 0.01, 0.4)    # probability beyond the critical value, on each side

    def F(x):
        x = float(x)
        if abs(x) == INF:
            return 0.0 if x < 0 else 1.0
        assert abs(abs(x) - z) < 1e-9
        return 1 - q if x > 0 else q
    cov = np.array([[1.0 if i == j else 1.0 / (2 + abs(i - j) + (i + j) / 7.0) for j in range(m)] for i in range(m)])
    with weights(F) as w:
        got = Base._w(m=m, p=p, test_type=tt, cov=cov)
        pr = 2 * q if tt == TWO else q
        ctx.check(len(got) == m + 1, "length")
        for k in range(m):
            ctx.eq(got[k], pr ** k * (1 - pr), "%d rejections, then none" % k)
        ctx.eq(got[m], pr ** m, "m rejections")
        for lo, up, c in w.calls:
            s = len(lo)
            ctx.check(c.shape == (s, s) and bool((c == cov[m - s:, m - s:]).all()), "covariance of the tests")
        full = Base._probability_of_at_least_one_m_run_in_n_trials(p, n=n, m=m, test_type=tt, cov=cov)
    want = 0.0
    for bits in itertools.product([0, 1], repeat=n):
        if any(all(bits[i:i + m]) for i in range(n - m + 1)):
            want = want + pr ** sum(bits) * (1 - pr) ** (n - sum(bits))
    ctx.eq(full, want, "run probability")
    ctx.reach("end")


class prob(object):
    """stands in for the run probability"""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __enter__(self):
        self.old = Base._probability_of_at_least_one_m_run_in_n_trials
        f, calls = self.f, self.calls

        def g(p, n, m, test_type=UP, cov=None):
            calls.append((p, n, m, test_type))
            return f(p, n, m)
        Base._probability_of_at_least_one_m_run_in_n_trials = staticmethod(g)
        return self

    def __exit__(self, *a):
        Base._probability_of_at_least_one_m_run_in_n_trials = staticmethod(self.old)


@harness("C24")
def duration(ctx):
    """an automatic duration is the smallest whose run probability is at most alpha, with tolerance"""
    n = ctx.choice("n", [1, 3])
    alpha, tol = ctx.real("alpha", 0.01, 0.5), ctx.real("tol", 0, 0.5)
    P = [ctx.real("p%d" % i, 0, 1) for i in range(1, n + 1)]
    with prob(lambda p, n_, m: P[m - 1]) as st:
        # runs get less likely with their length, but never less likely than by chance alone
        for i in range(n):
            ctx.assume(P[i] != alpha * (1 + tol))
            if i:
                ctx.assume(P[i] <= P[i - 1])
        try:
            r = Base._get_lowest_m(p=alpha, n=n, r_tol=tol, test_type=UP)
        except Exception as e:
            ctx.observe_exc(e) if hasattr(ctx, "observe_exc") else None
            r = None
        if r is None:
            for i in range(n):
                ctx.check(P[i] > alpha * (1 + tol), "none suffices")
        else:
            ctx.eq(r.p, P[r.m - 1], "its probability")
            ctx.check(P[r.m - 1] <= alpha * (1 + tol), "suffices")
            if r.m > 1:
                ctx.check(P[r.m - 2] > alpha * (1 + tol), "shorter ones do not")
        ctx.check(all(c[1] == n and c[3] == UP for c in st.calls), "asked")
        for c in st.calls:
            ctx.eq(c[0], alpha, "level asked")
    ctx.reach("end")


@harness("C24", params=[{"m": 1}, {"m": 2}])
def level(ctx, m):
    """the level corrected for a given duration has a run probability within the tolerance of alpha, or none is given"""
    n = ctx.choice("n", [2, 5, 6])
    goal = ctx.choice("goal", [0.05, 0.3])
    tol = ctx.choice("tol", [0.1, 0.5])
    P = [ctx.real("p%d" % i, 0, 1) for i in range(4)]
    ans = {}

    def f(p, n_, m_):
        k = float(p)
        ans.setdefault(k, P[len(ans)])
        return ans[k]

    if n == m:
        r = Base._get_lowest_p(m=m, n=n, p_goal=goal, r_tol=tol, test_type=UP)
        ctx.check(abs(r.p_corrected ** m - goal) < 1e-9 and r.p_global == goal, "a run of all tests")
        ctx.reach("end")
        return
    for x in P:
        ctx.assume(x != goal)
        ctx.assume(x != goal * (1 + tol))
        ctx.assume(x != goal * (1 - tol))
    with prob(f) as st:
        try:
            r = Base._get_lowest_p(m=m, n=n, p_goal=goal, r_tol=tol, test_type=TWO, max_iter=3)
        except Exception as e:
            if isinstance(e, (ValueError, TypeError, AttributeError, IndexError)):
                raise
            r = None
        ok = [bool(ans[float(c[0])] <= goal * (1 + tol)) and bool(ans[float(c[0])] >= goal * (1 - tol)) for c in st.calls]
        ctx.check(all(c[1:] == (n, m, TWO) for c in st.calls), "asked")
        if r is None:
            ctx.check(not any(ok), "none suffices")
        else:
            ctx.check(ok[-1] and not any(ok[:-1]), "within tolerance")
            ctx.check(r.p_corrected == st.calls[-1][0], "the level asked last")
            ctx.eq(r.p_global, ans[float(r.p_corrected)], "its probability")
        # bisection: towards the goal
        for i in range(len(st.calls) - 1):
            up = bool(ans[float(st.calls[i][0])] < goal)
            ctx.check((st.calls[i + 1][0] > st.calls[i][0]) == up, "direction")
    ctx.raises(ValueError, lambda: Base._get_lowest_p(m=n + 1, n=n, p_goal=goal, r_tol=tol, test_type=UP), "too long")
    ctx.raises(ValueError, lambda: Base._get_lowest_p(m=m, n=n, p_goal=goal, r_tol=1e-10, test_type=UP), "tolerance")
    ctx.reach("end")


@harness("C24")
def levels(ctx):
    """critical values are the quantiles at the corrected level; an automatic duration is found anew for each call"""
    tt = ctx.choice("tt", [LOW, UP, TWO])
    auto = ctx.choice("auto", [0, 1])
    alpha = 0.1
    m = Real(alpha=alpha, duration=None if auto else 2, test_type=tt)
    seen = []
    olds = Base._get_lowest_m, Base._get_lowest_p
    ca = ctx.choice("ca", [0.02, 0.2])
    Base._get_lowest_m = staticmethod(lambda p, n, r_tol, test_type, **k: (seen.append((p, n, r_tol, test_type)), Base.LowestM(m=min(n, 3), p=ca))[1])
    Base._get_lowest_p = staticmethod(lambda m, n, p_goal, r_tol, test_type, **k: (seen.append((p_goal, n, r_tol, test_type, m)), Base.LowestP(p_corrected=ca, p_global=0.7))[1])
    try:
        for n in (4, 2):
            c = clear(ctx, n, p="n%d" % n)
            m.fit_predict(frame(ctx, c), r_tol=0.25)
            ctx.check(seen[-1] == ((alpha, n, 0.25, tt) if auto else (alpha, n, 0.25, tt, 2)), "asked")
            ctx.check(m.duration == (min(n, 3) if auto else 2) and m.corrected_alpha == ca and m.alpha == alpha, "settings")
            cv = m.critical_value
            z = [None if x is None else [float(v) for v in x] for x in (cv.lower, cv.upper)]
            w = {LOW: (ca, None), UP: (None, 1 - ca), TWO: (ca / 2, 1 - ca / 2)}[tt]
            for g, q in zip(z, w):
                ctx.check((g is None) == (q is None), "sides")
                ctx.check(g is None or len(g) == n and all(abs(x - float(ID.norm.ppf(q))) < 1e-9 for x in g), "critical value")
    finally:
        Base._get_lowest_m, Base._get_lowest_p = map(staticmethod, olds)
    ctx.check(len(seen) == 2, "one question per call")
    ctx.reach("end")


def from_bytes(kind, m):
    return kind(serialized_model=m.serialize())


@harness("C24")
def stored(ctx):
    """a stored model has the settings and answers of the original; impossible settings are refused"""
    kind = KINDS[ctx.choice("kind", [0, 1, 2, 3])]
    tt, st = ctx.choice("tt", [LOW, UP, TWO]), ctx.choice("st", [ABS, REL])
    dur = ctx.choice("dur", [None, 2])
    alpha = ctx.choice("alpha", [0.01, 0.2])
    m = kind(alpha=alpha, duration=dur, test_type=tt, test_statistic=st)
    r = from_bytes(kind, m)
    ctx.check((r.alpha, r.duration, r.test_type, r.test_statistic) == (alpha, dur, tt, st), "restored")
    o = from_bytes(OneProp, OneProp(alpha=alpha, duration=dur, test_type=tt))
    ctx.check((o.alpha, o.duration, o.test_type) == (alpha, dur, tt), "restored")
    V = ValueError
    for kw in [dict(alpha=-0.1), dict(alpha=1.1), dict(alpha=None), dict(duration=0), dict(duration=-1), dict(test_type=None), dict(test_statistic=None)]:
        ctx.raises(V, lambda: kind(**kw), "refused %s" % kw)
    ctx.raises(TypeError, lambda: kind(test_type="two_sided"), "type")
    ctx.raises(TypeError, lambda: kind(test_statistic="absolute_difference"), "type")
    for f in ["corrected_alpha", "anomaly_intervals", "caution_intervals"]:
        ctx.raises(V, lambda: getattr(kind(), f), "not fitted")

    def s(v):
        m.corrected_alpha = v
    for v in (-0.1, 1.1, None):
        ctx.raises(V, lambda: s(v), "corrected level")
    ctx.reach("end")


@harness("C24")
def validation(ctx):
    """data without a column, with missing values, impossible variances, counts or proportions is refused, wherever they are"""
    kind = KINDS[ctx.choice("kind", [0, 1, 2, 3])]
    n = 3
    c = {"value_a": [0.2, 0.3, 0.4], "value_b": [0.5, 0.6, 0.7], "variance_a": [1.0] * n, "variance_b": [2.0] * n, "sample_count_a": [2] * n, "sample_count_b": [3] * n,
         "effect_size": [0.0] * n}
    if kind is Count:
        c["value_a"], c["value_b"] = [1, 2, 3], [2, 3, 4]
    i = ctx.choice("i", [0, 1, 2])
    f = lambda d: TimeSeriesData(pd.DataFrame({"time": times(range(n), "h"), **d}))
    V = ValueError
    x = ctx.real("x", -5, 5)
    col = ctx.choice("col", sorted(c))
    ctx.raises(V, lambda: kind(duration=1).fit_predict(f({k: v for k, v in c.items() if k != col})), "missing column")
    d = dict(c, **{col: [NAN if j == i else float(v) for j, v in enumerate(c[col])]})
    ctx.raises(V, lambda: kind(duration=1).fit_predict(f(d)), "missing value")
    if col.startswith("sample_count"):
        for bad in (0, -1):
            d = dict(c, **{col: [bad if j == i else v for j, v in enumerate(c[col])]})
            ctx.raises(V, lambda: kind(duration=1).fit_predict(f(d)), "count")
        d = dict(c, **{col: [float(v) for v in c[col]]})
        ctx.raises(V, lambda: kind(duration=1).fit_predict(f(d)), "count type")
    if col.startswith("variance"):
        d = dict(c, **{col: ctx.series([x if j == i else v for j, v in enumerate(c[col])])})
        try:
            kind(duration=1).fit_predict(f(d))
            ok = True
        except V:
            ok = False
        if ok:
            ctx.check(x >= 0, "negative variance")
        else:
            ctx.check(x < 0, "allowed variance")
    if col.startswith("value") and kind in (Prop, Arrival):
        d = dict(c, **{col: ctx.series([x if j == i else v for j, v in enumerate(c[col])])})
        ctx.assume(x != 0)
        ctx.assume(x != 1)
        try:
            kind(duration=1).fit_predict(f(d))
            ok = True
        except V:
            ok = False
        inside = bool(x >= 0) and bool(x <= 1) if kind is Prop else bool(x > 0)
        ctx.check(ok == inside, "proportion or time")
    if col.startswith("value") and kind is Count:
        d = dict(c, **{col: [v + 0.5 for v in c[col]]})
        ctx.raises(V, lambda: kind(duration=1).fit_predict(f(d)), "count type")
    ctx.reach("end")


@harness("C24")
def proportions(ctx):
    """one sample proportions are tested against the binomial law of each row's own size and threshold"""
    tt = ctx.choice("tt", [LOW, UP])
    ns, es = [10, 20, 40], [0.3, 0.5, 0.6]
    ks = [ctx.choice("k%d" % i, o) for i, o in enumerate([[1, 3, 6, 9], [4, 10, 15], [16, 24, 39]])]
    vs = [k / n for k, n in zip(ks, ns)]
    t = TimeSeriesData(pd.DataFrame({"time": times(range(3), "h"), "value": vs, "variance": [1.0] * 3, "sample_count": ns, "effect_size": es}))
    m = OneProp(alpha=0.2, duration=1, test_type=tt)
    r = m.fit_predict(t)
    ca = m.corrected_alpha
    from scipy.stats import beta, binom
    for i in range(3):
        q = ca if tt == LOW else 1 - ca
        cv = (m.critical_value.lower if tt == LOW else m.critical_value.upper)[i]
        ctx.check(abs(float(cv) - binom.ppf(q, ns[i], es[i]) / ns[i]) < 1e-9, "critical value")
        ctx.check(bool(r.predicted_ts.value.iloc[i]) == (vs[i] <= cv if tt == LOW else vs[i] >= cv), "decision")
        ctx.check(float(r.scores.value.iloc[i]) == vs[i], "score")
        lo, up = float(r.confidence_band.lower.value.iloc[i]), float(r.confidence_band.upper.value.iloc[i])
        ctx.check(lo == 0.0 if tt == LOW else abs(lo - beta.ppf(ca, ks[i], ns[i] - ks[i] + 1)) < 1e-9, "lower limit")
        ctx.check(up == 1.0 if tt == UP else abs(up - beta.ppf(1 - ca, ks[i] + 1, ns[i] - ks[i])) < 1e-9, "upper limit")
    ctx.reach("end")


@harness("C24", params=[{"n": n} for n in [1, 2, 4]])
def trueruns(ctx, n):
    """runs of true values"""
    b = [bool(ctx.real("x%d" % i, -1, 1) > 0) for i in range(n)]
    s, e = Base._get_true_run_indices(np.array(b))
    ctx.check(list(zip([int(x) for x in s], [int(x) for x in e])) == runs(b), "runs")
    ctx.reach("end")
