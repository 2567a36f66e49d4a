"""C14 CUSUM detector model: windows, alert state, scores."""
import json as realjson
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.detectors.cusum_model as CM
import kats.detectors.cusum_detection as CD
from kats.consts import TimeSeriesData

H = 3600
LOG = []
RULE = [None]
REAL = (CM.CUSUMDetector, CM.VectorizedCUSUMDetector)


def point(data, i, direction):
    t = data.time.iloc[i]
    return CD.CUSUMChangePoint(start_time=t, end_time=t, confidence=1.0, direction=direction, cp_index=i, mu0=0.0, mu1=0.0,
                               delta=0.0, llr_int=0.0, llr=0.0, regression_detected=True, stable_changepoint=True,
                               p_value=0.0, p_value_int=0.0)


def hours(data):
    t = data.time if data.tz() is None else data.time.dt.tz_convert("UTC").dt.tz_localize(None)
    return offs(t, "h")


class StubDet(object):
    """arbitrary univariate detector: what it reports is RULE(values, window)"""

    def __init__(self, data):
        self.data = data

    def detector(self, **kw):
        vs = list(self.data.value)
        lo, hi = kw["interest_window"]
        LOG.append({"vals": vs, "offs": hours(self.data), "kw": kw})
        return [point(self.data, i, d) for i, d in RULE[0](vs, lo, hi)]


class StubVec(object):
    """the same detector applied to every column"""

    def __init__(self, data):
        self.data = data

    def detector(self, **kw):
        lo, hi = kw["interest_window"]
        cols = [list(self.data.value.iloc[:, c]) for c in range(self.data.value.shape[1])]
        LOG.append({"cols": cols, "offs": hours(self.data), "kw": kw})
        return [[point(self.data, i, d) for i, d in RULE[0](vs, lo, hi)] for vs in cols]


class stubbed(object):
    def __init__(self, rule):
        self.rule = rule

    def __enter__(self):
        CM.CUSUMDetector, CM.VectorizedCUSUMDetector = StubDet, StubVec
        RULE[0] = self.rule
        del LOG[:]
        return self

    def __exit__(self, *a):
        CM.CUSUMDetector, CM.VectorizedCUSUMDetector = REAL


def never(vs, lo, hi):
    return []


def jump(by):
    """reports a change before the last two points if they are away from the first point by more than `by`"""
    def rule(vs, lo, hi):
        d = vs[hi - 1] - vs[0]
        if bool(d > by):
            return [(hi - 3, "increase")]
        if bool(d < -by):
            return [(hi - 3, "decrease")]
        return []
    return rule


def trailing(xs, w):
    """mean of the last w points, with zeros before the beginning"""
    if w <= 1:
        return list(xs)
    return [ssum(xs[max(0, i - w + 1):i + 1]) / w for i in range(len(xs))]


def scan_runs(n_hist, n, scan, hist, step):
    """(first, begin, end) index ranges of the runs over all n_hist + n hourly points: context first..begin-1,
    new points begin..end-1"""
    total = n_hist + n
    start = max(hist, n_hist)
    if start > total - 1 or total < scan:
        return None
    if step is None:
        step = min(scan / 2.0, n)
    runs = []
    s = float(start)
    done = start
    while s <= min(total - step, total - 1):
        e = int(np.ceil(s + step))
        b = int(np.ceil(s))
        e = min(e, total)
        if e > b:
            runs.append((max(0, int(np.ceil(s - hist))), b, e))
            done = e
        s += step
    if done < total:
        runs.append((max(0, done - hist - 1), done, total))
    return start, runs


def scan_begin(n, scan):
    """index in a run of n points where the scan window begins"""
    return max(0, n - 1 - scan)


class Ref(object):
    """the alert state machine"""

    def __init__(self):
        self.on, self.mean, self.var, self.dir, self.cps = False, 0.0, 1.0, None, []

    def step(self, vs, first, scan, rule, dirs, ratio, adapted):
        lo = scan_begin(len(vs), scan)
        if not self.on:
            if len(vs) - lo <= 1:
                return
            got = rule(vs, lo, len(vs))
            if got:
                i, d = sorted(got)[0]
                self.cps = (self.cps + [first + i])[-10:]
                self.on, self.dir = True, d
                self.mean, self.var = mean(vs[:i + 1]), var(vs[:i + 1])
            return
        cur = mean(vs[lo:])
        if adapted:
            self.mean, self.var = mean(vs[:lo]), var(vs[:lo])
        dev = np.sqrt(self.var) * ratio
        up, down = "increase" in dirs, "decrease" in dirs
        # back to normal: not beyond the baseline on the side of the alert, and not a change to the other side
        if self.dir == "increase":
            ok = bool(cur <= self.mean) if up else True
            ok = ok and (bool(self.mean - dev <= cur) if down else True)
        else:
            ok = bool(cur >= self.mean) if down else True
            ok = ok and (bool(cur <= self.mean + dev) if up else True)
        if ok:
            self.on = False
        if first + len(vs) - 1 - self.cps[-1] > 7 * 24:
            self.on = False

    def score(self, sm, begin, func):
        out = []
        for k, v in enumerate(sm):
            if not self.on or begin + k <= self.cps[-1]:
                out.append(0.0)
            elif func == "change":
                out.append(v - self.mean)
            elif func == "percentage_change":
                out.append((v - self.mean) / self.mean)
            else:
                out.append((v - self.mean) / np.sqrt(self.var))
        return out


def ref_scores(st, allv, n_hist, scan, hist, step, rule, dirs, ratio, func, adapted=False):
    n = len(allv) - n_hist
    sm = trailing(allv, scan)
    r = scan_runs(n_hist, n, scan, hist, step)
    if r is None:
        return st.score(sm[n_hist:], n_hist, func), st.score(sm[n_hist:], n_hist, "change")
    start, runs = r
    sc, mg = [0.0] * (start - n_hist), [0.0] * (start - n_hist)
    for a, b, e in runs:
        st.step(allv[a:e], a, scan, rule, dirs, ratio, adapted)
        sc += st.score(sm[b:e], b, func)
        mg += st.score(sm[b:e], b, "change")
    return sc, mg


# n_hist, n, scan, hist, step
CONFIGS = [(0, 9, 3, 4, 2), (0, 8, 4, 5, None), (4, 6, 3, 4, 2), (6, 4, 2, 3, 1), (2, 7, 3, 5, 2), (0, 4, 3, 6, 2),
           (5, 3, 6, 4, 4), (3, 3, 4, 2, 3), (0, 8, 2, 2, 1), (0, 7, 5, 4, 4), (0, 6, 4, 5, 3), (8, 2, 5, 6, None)]


def model(scan, hist, step, **kw):
    return CM.CUSUMDetectorModel(scan_window=scan * H, historical_window=hist * H,
                                 step_window=None if step is None else step * H, **kw)


def split(ctx, xs, n_hist):
    h = tsd(ctx, xs[:n_hist], range(n_hist), unit="h") if n_hist else None
    return tsd(ctx, xs[n_hist:], range(n_hist, len(xs)), unit="h"), h


def same_list(ctx, got, want, label):
    got = list(got)
    ctx.check(len(got) == len(want), label + " (length)")
    for g, w in zip(got, want):
        ctx.eq(g, w, label)


@harness("C14", params=[{"cfg": i} for i in range(len(CONFIGS))])
def runs(ctx, cfg):
    """every run sees exactly its historical window and the new points, searches the scan window at its end with the
    model's settings; without a change all scores are zero; the response is on the data's times; the caller's series
    are left alone"""
    n_hist, n, scan, hist, step = CONFIGS[cfg]
    xs = ctx.reals("x", n_hist + n)
    data, h = split(ctx, xs, n_hist)
    kw = dict(threshold=0.07, delta_std_ratio=1.5, magnitude_quantile=None, magnitude_ratio=1.4,
              change_directions=["decrease"])
    m = model(scan, hist, step, **kw)
    with stubbed(never):
        r = m.fit_predict(data, h)
        log = list(LOG)
    same_list(ctx, r.scores.value, [0.0] * n, "no change, no score")
    same_list(ctx, r.anomaly_magnitude_ts.value, [0.0] * n, "no change, no magnitude")
    ctx.check(offs(r.scores.time, "h") == list(range(n_hist, n_hist + n)), "times of the scores")
    ctx.check(offs(r.anomaly_magnitude_ts.time, "h") == list(range(n_hist, n_hist + n)), "times of the magnitudes")
    ctx.check(m.cps == [] and m.alert_fired is False, "no alert")
    rr = scan_runs(n_hist, n, scan, hist, step)
    want = [] if rr is None else rr[1]
    ctx.check(len(log) == len(want), "number of runs")
    for l, (a, b, e) in zip(log, want):
        ctx.check(l["offs"] == list(range(a, e)), "points of the run")
        same_list(ctx, l["vals"], xs[a:e], "values of the run")
        k = dict(l["kw"])
        ctx.check(list(k.pop("interest_window")) == [scan_begin(e - a, scan), e - a], "scan window")
        ctx.check(k == kw, "settings")
    same_list(ctx, data.value, xs[n_hist:], "the data is not changed")
    if h is not None:
        same_list(ctx, h.value, xs[:n_hist], "the history is not changed")
        ctx.check(len(h) == n_hist, "the history keeps its length")
    ctx.reach("end")


def levels(ctx, k, base=20.0):
    """concrete history with a wiggle, then k symbolic levels"""
    hs = [ctx.real("h%d" % i, -12, 30) for i in range(k)]
    return base, hs


def respond_check(ctx, m, r, st, sc, mg, n_hist, n):
    same_list(ctx, r.scores.value, sc, "score")
    same_list(ctx, r.anomaly_magnitude_ts.value, mg, "magnitude")
    ctx.check(offs(r.scores.time, "h") == list(range(n_hist, n_hist + n)), "times")
    ctx.check(bool(m.alert_fired) == st.on, "alert state")
    ctx.check([c - int(T0.value // 10 ** 9) for c in m.cps] == [c * H for c in st.cps], "recorded change points")
    if st.cps:
        ctx.eq(m.pre_mean, st.mean, "baseline mean")
        ctx.eq(m.pre_std * m.pre_std, st.var, "baseline deviation")


@harness("C14", params=[{"func": f, "dirs": d} for f, d in
                        [("change", "both"), ("percentage_change", "increase"), ("z_score", "decrease")]], weight=2)
def lifecycle(ctx, func, dirs):
    """a change switches the alert on with the mean and deviation before it as baseline; scores are the smoothed data
    against the baseline after the change and zero otherwise; the alert goes off when the scan window is back"""
    base, (a, b, c) = levels(ctx, 3)
    w = [0.0, 1.0, -1.0, 2.0]
    xs = [base + x for x in w] + [base + 1 + a, base + a, base + 2 + b, base + b, base + 1 + c, base + c]
    n_hist, scan, hist, step = 4, 3, 4, 2
    data, h = split(ctx, xs, n_hist)
    ds = DIRS if dirs == "both" else [dirs]

    def rule(vs, lo, hi):
        return [(i, d) for i, d in jump(5)(vs, lo, hi) if d in ds]

    m = model(scan, hist, step, score_func=func, change_directions=ds, delta_std_ratio=1.0)
    with stubbed(rule):
        r = m.fit_predict(data, h)
    st = Ref()
    sc, mg = ref_scores(st, xs, n_hist, scan, hist, step, rule, ds, 1.0, func)
    respond_check(ctx, m, r, st, sc, mg, n_hist, 6)
    ctx.reach("end")


DIRS = ["increase", "decrease"]


@harness("C14", params=[{"direction": "increase"}, {"direction": "decrease"}], weight=2)
def adapted(ctx, direction):
    """with a rolling baseline the points before the scan window are the baseline while the alert is on"""
    base, (a, b) = levels(ctx, 2)
    s = 1 if direction == "increase" else -1
    w = [0.0, 1.0, -1.0, 2.0, 30.0 * s, 29.0 * s]
    xs = [base + x for x in w] + [base + a, base + 1 + a, base + b, base + 2 + b]
    n_hist, scan, hist, step = 4, 3, 4, 2
    data, h = split(ctx, xs, n_hist)
    m = model(scan, hist, step, change_directions=DIRS, adapted_pre_mean=True, delta_std_ratio=2.0)
    with stubbed(jump(5)):
        r = m.fit_predict(data, h)
    st = Ref()
    sc, mg = ref_scores(st, xs, n_hist, scan, hist, step, jump(5), DIRS, 2.0, "change", adapted=True)
    respond_check(ctx, m, r, st, sc, mg, n_hist, 6)
    ctx.reach("end")


@harness("C14")
def retention(ctx):
    """an alert older than seven days is dropped, a younger one stays while the level is away"""
    n = ctx.choice("n", [166, 169, 170, 171, 172, 174])
    a = ctx.real("a", 50, 60)
    m = model(3, 4, 2)
    xs = [0.0, 1.0, 0.0, 1.0] + [40.0] * (n - 6) + [a, a]
    data, h = split(ctx, xs, 4)
    with stubbed(lambda vs, lo, hi: jump(5)(vs, lo, hi) if vs[0] < 5 else []):
        r = m.fit_predict(data, h)
    # the first run holds points 0..5 and reports a change at 3
    age = (n - 1) - 3
    ctx.check(m.cps[0] - int(T0.value // 10 ** 9) == 3 * H, "change point")
    ctx.check(len(m.cps) == 1, "one change")
    ctx.check(bool(m.alert_fired) == (age <= 168), "kept seven days")
    ctx.eq(r.scores.value.iloc[-1], (40.0 + 2 * a) / 3 - 0.5 if age <= 168 else 0.0, "last score")
    ctx.reach("end")


@harness("C14", params=[{"kind": k} for k in ("plain", "vectorized", "columns")], weight=2)
def change_position(ctx, kind):
    """wherever in the scan window the change is found - in the history, at the first new point, inside the new points -
    the points up to it score zero and the later ones against the baseline before it, with and without a time zone"""
    base, (a, b) = levels(ctx, 2)
    pos = ctx.choice("pos", [4, 5, 6, 7])
    tz = ctx.choice("tz", [None, "Asia/Tokyo"])
    xs = [base + v for v in [0.0, 1.0, -1.0, 2.0, 1.0]] + [base + a, base + 1 + a, base + b, base + 1 + b]
    n_hist, scan, hist, step = 5, 5, 5, 4

    def rule(vs, lo, hi):
        return [(pos, "increase")] if bool(vs[hi - 1] - vs[0] > 5) else []

    tm = times(range(9), "h")
    if tz:
        tm = tm.dt.tz_localize("UTC").dt.tz_convert(tz)

    def part(lo, hi):
        t = tm[lo:hi].reset_index(drop=True)
        if kind == "columns":
            return TimeSeriesData(time=t, value=pd.DataFrame({"p": ctx.series(xs[lo:hi]), "q": ctx.series([2 * x for x in xs[lo:hi]])}))
        return TimeSeriesData(time=t, value=ctx.series(xs[lo:hi], name="value"))

    kw = dict(change_directions=DIRS, delta_std_ratio=1.0)
    if kind == "columns":
        m = CM.VectorizedCUSUMDetectorModel(scan_window=scan * H, historical_window=hist * H, step_window=step * H, **kw)
    else:
        m = model(scan, hist, step, vectorized=kind == "vectorized", **kw)
    with stubbed(rule):
        r = m.fit_predict(part(5, 9), part(0, 5))
    for k, mul in ((0, 1), (1, 2)):
        if k and kind != "columns":
            break
        ys = [mul * x for x in xs]
        st = Ref()
        sc, mg = ref_scores(st, ys, n_hist, scan, hist, step, rule, DIRS, 1.0, "change")
        gs, gm = r.scores.value, r.anomaly_magnitude_ts.value
        if kind == "columns":
            gs, gm = gs.iloc[:, k], gm.iloc[:, k]
        same_list(ctx, gs, sc, "score")
        same_list(ctx, gm, mg, "magnitude")
    ctx.check(list(r.scores.time) == list(tm[5:]), "times")
    ctx.reach("end")


@harness("C14")
def retention_columns(ctx):
    """the age of an alert is that of the column's last change point"""
    a = ctx.real("a", 50, 60)
    old, young = ctx.choice("ages", [(200, 3), (200, 168), (200, 169), (300, 250)])
    now = 400
    m = CM.VectorizedCUSUMDetectorModel(scan_window=3 * H, historical_window=4 * H, step_window=2 * H)
    ix = ["p", "q"]
    m.alert_fired = pd.Series([True, False], index=ix)
    m.pre_mean, m.pre_std = pd.Series([1.0, 1.0], index=ix), pd.Series([0.5, 0.5], index=ix)
    m.alert_change_direction = pd.Series(["increase", None], index=ix)
    m.number_of_normal_scan = pd.Series([0, 0], index=ix)
    t0 = int(T0.value // 10 ** 9)
    m.cps = [[t0 + (now - old) * H, t0 + (now - young) * H], []]
    m.cps_meta = [[None, None], []]
    h = tsd_multi(ctx, {"p": [a] * 4, "q": [a * 0] * 4}, range(now - 5, now - 1), unit="h")
    d = tsd_multi(ctx, {"p": [a] * 2, "q": [a * 0] * 2}, range(now - 1, now + 1), unit="h")
    with stubbed(never):
        m._fit(d, h, 3 * H, change_directions=DIRS)
    ctx.check(bool(m.alert_fired[0]) == (young <= 168), "kept seven days after the last change")
    ctx.check(not bool(m.alert_fired[1]), "no alert")
    ctx.reach("end")


@harness("C14")
def change_points_kept(ctx):
    """at most ten change points are remembered, the oldest are dropped"""
    k = ctx.cint("k", 8, 12)
    a = ctx.real("a", 1, 5)
    m = model(3, 4, 2)
    m.cps = list(range(k))
    with stubbed(lambda vs, lo, hi: [(hi - 2, "increase"), (lo, "decrease")]):
        d = tsd(ctx, [a, a + 1], [5, 6], unit="h")
        h = tsd(ctx, [a, a, a + 1], [2, 3, 4], unit="h")
        m._fit(d, h, 3 * H)
    new = int(T0.value // 10 ** 9) + 3 * H
    ctx.check(m.cps == (list(range(k)) + [new])[-10:] or m.cps == (list(range(k)) + [new])[1:], "the newest are kept")
    ctx.check(m.cps[-1] == new and m.alert_change_direction == "decrease", "the earliest change of the window")
    ctx.check(len(m.cps) <= max(10, k), "bounded")
    ctx.reach("end")


class TokenJson(object):
    """json with symbolic leaves (exact round trip, as repr of floats)"""

    def __init__(self):
        self.vals = []

    def _out(self, x):
        if isinstance(x, dict):
            return {k: self._out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self._out(v) for v in x]
        if isinstance(x, (str, bool, int, float, type(None), np.floating)) and not SYMPROXY(x):
            return x
        if SYMPROXY(x):
            self.vals.append(x)
            return {"__sx__": len(self.vals) - 1}
        return x

    def dumps(self, x, *a, **k):
        return realjson.dumps(self._out(x), *a, **k)

    def loads(self, s, **k):
        return realjson.loads(s, object_hook=lambda d: self.vals[d["__sx__"]] if "__sx__" in d else d, **k)


def SYMPROXY(x):
    return type(x).__module__.startswith("symex")


if SYMBOLIC:
    CM.json = TokenJson()


@harness("C14", params=[{"cut": 4}, {"cut": 2}], weight=2)
def resume(ctx, cut):
    """a model written out and read back is equal and continues exactly as the original; every setting and the state
    survive"""
    base, (a, b) = levels(ctx, 2)
    xs = [base, base + 1, base, base + 1, base + 1 + a, base + a, base + 2 + b, base + b, base + 1 + b, base + b]
    kw = dict(score_func="percentage_change", change_directions=DIRS, delta_std_ratio=1.0, threshold=0.3,
              magnitude_quantile=0.4, magnitude_ratio=1.7)
    m = model(3, 4, 2, **kw)
    with stubbed(jump(5)):
        m.fit_predict(*split(ctx, xs[:4 + cut], 4))
        m2 = CM.CUSUMDetectorModel(serialized_model=m.serialize())
        ctx.check(bool(m2 == m), "equal after the round trip")
        for f in ("cps", "alert_fired", "pre_mean", "pre_std", "number_of_normal_scan", "alert_change_direction", "scan_window",
                  "historical_window", "step_window", "threshold", "delta_std_ratio", "magnitude_quantile", "magnitude_ratio",
                  "change_directions", "score_func", "remove_seasonality", "season_period_freq", "vectorized", "adapted_pre_mean"):
            ctx.check(getattr(m, f) == getattr(m2, f), "field " + f)
        d, h = split(ctx, xs, 4 + cut)
        r1 = m.fit_predict(d, h)
        d, h = split(ctx, xs, 4 + cut)
        r2 = m2.fit_predict(d, h)
    same_list(ctx, r1.scores.value, list(r2.scores.value), "same scores")
    ctx.check(m.cps == m2.cps and m.alert_fired == m2.alert_fired, "same state")
    ctx.reach("end")


@harness("C14", params=[{"carried": False, "func": "change"}, {"carried": True, "func": "z_score"}, {"carried": False, "func": "percentage_change"}], weight=3)
def vectorized(ctx, carried, func):
    """the vectorized model gives the scores, change points and state of the plain one"""
    base, (a, b) = levels(ctx, 2, 20.5)
    w = [0.0, 1.0, -1.0, 2.0]
    xs = [base + x for x in w] + [base + 1 + a, base + a, base + b, base + 1 + b, base + 1]
    res = []
    for vec in (False, True):
        m = model(3, 4, 2, vectorized=vec, score_func=func, delta_std_ratio=1.0)
        if carried:
            m.alert_fired, m.pre_mean, m.pre_std, m.alert_change_direction = True, base - 9.25, 0.75, "increase"
            m.cps = [int(T0.value // 10 ** 9)]
        with stubbed(jump(5)):
            r = m.fit_predict(*split(ctx, xs, 4))
        ctx.check(m.vectorized_trans_flag == vec, "vectorized used")
        res.append((m, r))
    (m, r), (v, s) = res
    same_list(ctx, s.scores.value, list(r.scores.value), "scores")
    same_list(ctx, s.anomaly_magnitude_ts.value, list(r.anomaly_magnitude_ts.value), "magnitudes")
    ctx.check(list(s.scores.time) == list(r.scores.time), "times")
    ctx.check(v.cps == m.cps and bool(v.alert_fired) == bool(m.alert_fired), "state")
    ctx.eq(v.pre_mean, m.pre_mean, "baseline mean")
    ctx.eq(v.pre_std, m.pre_std, "baseline deviation")
    ctx.reach("end")


@harness("C14", params=[{"func": "change", "adapted": False}, {"func": "z_score", "adapted": False}, {"func": "change", "adapted": True}], weight=3)
def columns(ctx, func, adapted):
    """the multivariate model gives every column what the univariate model gives it"""
    base, (a, b) = levels(ctx, 2)
    w = [0.0, 1.0, -1.0, 2.0]
    x = [base + v for v in w] + [base + 1 + a, base + a, base + 1 + b, base + b]
    c = ctx.real("c", -5, 5)
    y = [c + 2 * v for v in w] + [c + 35, c + 34, c + 36, c]
    kw = dict(score_func=func, delta_std_ratio=1.0, change_directions=DIRS, adapted_pre_mean=adapted)
    h = tsd_multi(ctx, {"p": x[:4], "q": y[:4]}, range(4), unit="h")
    d = tsd_multi(ctx, {"p": x[4:], "q": y[4:]}, range(4, 8), unit="h")
    m = CM.VectorizedCUSUMDetectorModel(scan_window=3 * H, historical_window=4 * H, step_window=2 * H, **kw)
    with stubbed(jump(5)):
        r = m.fit_predict(d, h)
        us = [model(3, 4, 2, **kw) for _ in range(2)]
        rs = [u.fit_predict(*split(ctx, col, 4)) for u, col in zip(us, (x, y))]
    ctx.check(offs(r.scores.time, "h") == [4, 5, 6, 7], "times")
    for k in range(2):
        same_list(ctx, r.scores.value.iloc[:, k], list(rs[k].scores.value), "scores")
        same_list(ctx, r.anomaly_magnitude_ts.value.iloc[:, k], list(rs[k].anomaly_magnitude_ts.value), "magnitudes")
        ctx.check(bool(m.alert_fired.iloc[k]) == bool(us[k].alert_fired), "alert state")
        ctx.check(m.cps[k] == us[k].cps, "change points")
        if us[k].cps:
            ctx.eq(m.pre_mean.iloc[k], us[k].pre_mean, "baseline mean")
    ctx.reach("end")


@harness("C14", params=[{"which": "uni"}, {"which": "multi"}])
def short_data(ctx, which):
    """data of any length is answered, one score per point"""
    n = ctx.cint("n", 3, 9)
    hist = ctx.choice("hist", [4, 5])
    xs = ctx.reals("x", n)
    step = ctx.choice("step", [2, None])
    with stubbed(never):
        if which == "uni":
            r = model(3, hist, step).fit_predict(tsd(ctx, xs, unit="h"))
            same_list(ctx, r.scores.value, [0.0] * n, "zero scores")
        else:
            m = CM.VectorizedCUSUMDetectorModel(scan_window=3 * H, historical_window=hist * H, step_window=step and step * H)
            r = m.fit_predict(tsd_multi(ctx, {"p": xs, "q": [-x for x in xs]}, unit="h"))
            ctx.check(r.scores.value.shape == (n, 2), "zero scores")
    ctx.check(offs(r.scores.time, "h") == list(range(n)), "times")
    ctx.reach("end")


@harness("C14")
def refusals(ctx):
    """unusable windows and missing parameters are refused"""
    from kats.consts import ParameterError, InternalError
    xs = ctx.reals("x", 8)
    d = tsd(ctx, xs, unit="h")
    bad = ctx.choice("bad", [(3, 4, 3), (3, 4, 4), (3, 4, 0.5), (1, 4, None), (3, 1, None), (1.5, 4, 1)])
    with stubbed(never):
        ctx.raises(ParameterError, lambda: model(*bad).fit_predict(d), "windows")
        model(2, 2, 1).fit_predict(d)
    ctx.raises(ParameterError, lambda: CM.CUSUMDetectorModel(scan_window=3), "no historical window")
    ctx.raises(InternalError, lambda: model(3, 4, 2).predict(d), "predict")
    ctx.reach("end")


@harness("C14", weight=2)
def with_detector(ctx):
    """together with the real CUSUM detector: a clear level shift raises the alert at the shift, and only in the
    asked direction"""
    hgt = ctx.real("h", 60, 90)
    w = [0.0, 1.0, -1.0, 0.5, -0.5, 1.0, 0.0, 1.0]
    xs = [20 + v for v in w] + [20 + hgt, 21 + hgt, 20 + hgt, 21 + hgt]
    direction = ctx.choice("dir", DIRS)
    m = model(6, 6, 4, change_directions=[direction])
    CM.CUSUMDetector = REAL[0]
    r = m.fit_predict(*split(ctx, xs, 8))
    if direction == "increase":
        ctx.check(m.cps == [int(T0.value // 10 ** 9) + 7 * H], "change point")
        b = mean(xs[2:8])
        sm = trailing(xs, 6)
        same_list(ctx, r.scores.value, [v - b for v in sm[8:]], "scores")
        ctx.check(bool(m.alert_fired), "alert")
    else:
        same_list(ctx, r.scores.value, [0.0] * 4, "scores")
        ctx.check(not m.alert_fired and m.cps == [], "no alert")
    ctx.reach("end")
