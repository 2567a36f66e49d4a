"""C06 data partitions, C07 backtest folds, C08 backtest errors."""
import math
import pandas as pd
import numpy as np
from symex.registry import harness
from .common import *
import kats.utils.datapartition as DP
import kats.utils.backtesters as BT
from kats.consts import Params, TimeSeriesData

symbolic_pools(DP, BT)


def rows(ts):
    return offs(ts.time), list(ts.value)


def same_rows(ctx, ts, offsets, vals, lo, hi, label):
    """ts is exactly rows lo..hi-1"""
    o, v = rows(ts)
    ctx.check(o == list(offsets[lo:hi]), label + ": times")
    ctx.eq_list(v, list(vals[lo:hi]), label + ": values")


# ------------------------------------------------------------------ C06
@harness("C06", params=[{"multi": False, "test": "none"}, {"multi": False, "test": "frac"},
                        {"multi": True, "test": "frac"}, {"multi": False, "test": "size"}], thorough=[
                            {"multi": False, "test": "frac", "N": 12}], weight=3)
def simple_fraction(ctx, multi, test, N=5):
    """train = first trunc(f*n) rows, test = the next rows of the requested fraction, size or everything left; for
    every fraction and for a single series, a list and a dictionary"""
    n = ctx.cint("n", 2, N)
    vals = ctx.reals("v", n)
    data = tsd(ctx, vals)
    f = ctx.real("f", -1, 2)
    kw = {"multi": multi}
    if test == "frac":
        g = ctx.real("g", -1, 2)
        kw["test_frac"] = g
    if test == "size":
        k = ctx.cint("k", -1, N)
        kw["test_size"] = k
    bad = bool(f <= 0) or bool(f >= 1)
    if test == "frac":
        bad = bad or bool(g <= 0) or bool(g >= 1)
    if test == "size":
        bad = bad or k <= 0
    if bad:
        ctx.raises(ValueError, lambda: DP.SimpleDataPartition(train_frac=f, **kw), "fraction outside (0,1) refused")
        ctx.stop()
    dp = DP.SimpleDataPartition(train_frac=f, **kw)
    a = int(f * n)
    b = n if test == "none" else (a + int(g * n) if test == "frac" else a + k)
    res = dp.split(data)
    ctx.check(len(res) == 1, "one split")
    same_rows(ctx, res[0].train, range(n), vals, 0, a, "train")
    same_rows(ctx, res[0].test, range(n), vals, a, b, "test")
    ctx.eq_list(list(data.value), vals, "input untouched")
    ctx.reach("end")


@harness("C06", params=[{"multi": False}, {"multi": True}])
def simple_size(ctx, multi):
    """train_size in -1..6 with an optional test size or fraction: first rows then next rows; one of size/fraction only"""
    n = 5
    vals = ctx.reals("v", n)
    data = tsd(ctx, vals)
    a = ctx.cint("a", -1, 5)
    t = ctx.choice("t", [None, 0.3, 1, 2])
    kw = {} if t is None else ({"test_frac": t} if t == 0.3 else {"test_size": t})
    if a <= 0:
        ctx.raises(ValueError, lambda: DP.SimpleDataPartition(train_size=a, multi=multi, **kw), "refused")
        ctx.stop()
    ctx.raises(ValueError, lambda: DP.SimpleDataPartition(train_size=a, train_frac=0.5, multi=multi), "both refused")
    ctx.raises(ValueError, lambda: DP.SimpleDataPartition(test_size=a, multi=multi), "neither refused")
    ctx.raises(ValueError, lambda: DP.SimpleDataPartition(train_size=2, test_size=a, test_frac=0.5, multi=multi),
               "both test sizes refused")
    r = DP.SimpleDataPartition(train_size=a, multi=multi, **kw).split(data)[0]
    b = n if t is None else a + (1 if t == 0.3 else t)
    same_rows(ctx, r.train, range(n), vals, 0, a, "train")
    same_rows(ctx, r.test, range(n), vals, a, b, "test")
    ctx.reach("end")


@harness("C06", params=[{"multi": False}, {"multi": True}])
def several_series(ctx, multi):
    """lists and dictionaries of 2 series of different lengths: each split on its own length, order and keys kept,
    anything else refused"""
    v = [ctx.reals("a", 4), ctx.reals("b", 6), ctx.reals("c", 5)]
    data = [tsd(ctx, x) for x in v]
    f = ctx.real("f", 0.25, 0.75)
    as_dict = ctx.cbool("dict")
    keys = ["z", 5, "a"] if as_dict else [0, 1, 2]
    inp = dict(zip(keys, data)) if as_dict else list(data)
    steps = ctx.cint("steps", 1, 3)
    if steps == 1:
        parts = DP.SimpleDataPartition(train_frac=f, multi=multi).split(inp)
    else:
        parts = DP.RollingOriginDataParition(f, 0.2, expanding_steps=steps, multi=multi).split(inp)
    ctx.check(len(parts) == steps, "number of splits")
    for i, p in enumerate(parts):
        for side in (p.train, p.test):
            ctx.check(type(side) is type(inp) and len(side) == 3, "same container")
            ctx.check((not as_dict) or list(side.keys()) == keys, "same keys")
        for k, x in zip(keys, v):
            n = len(x)
            a = int(f * n)
            tr, te = p.train[k], p.test[k]
            if steps == 1:
                same_rows(ctx, tr, range(n), x, 0, a, "train")
                same_rows(ctx, te, range(n), x, a, n, "test")
            else:
                one = DP.RollingOriginDataParition(f, 0.2, expanding_steps=steps, multi=False).split(
                    data[keys.index(k)])[i]
                ctx.check(rows(one.train)[0] == rows(tr)[0] and rows(one.test)[0] == rows(te)[0], "as alone: times")
                ctx.eq_list(rows(tr)[1], rows(one.train)[1], "as alone: train")
                ctx.eq_list(rows(te)[1], rows(one.test)[1], "as alone: test")
    bad = [data[0], 3] if not as_dict else {"a": data[0], "b": [1]}
    ctx.raises(ValueError, lambda: DP.SimpleDataPartition(train_frac=0.5, multi=multi).split(bad), "bad member refused")
    ctx.raises(ValueError, lambda: DP.SimpleDataPartition(train_frac=0.5, multi=multi).split(3), "bad input refused")
    ctx.reach("end")


@harness("C06", params=[{"const": False}, {"const": True}], thorough=[{"const": False, "N": 11}, {"const": True, "N": 11}],
         weight=5)
def rolling_origin(ctx, const, N=6):
    """rolling origin: test folds of fixed size start a fixed window after the train end, never overlap the train rows,
    move forward in (almost) equal steps and the last fold ends at the end of the data; train grows or keeps its size"""
    n = ctx.cint("n", 4, N)
    vals = ctx.reals("v", n)
    data = tsd(ctx, vals)
    f, g, w = ctx.real("f", 0, 1), ctx.real("g", 0, 1), ctx.real("w", 0, 1)
    steps = ctx.cint("steps", 0, 3)
    ctx.assume(f > 0.125)
    ctx.assume(g > 0.125)
    tot = f + g + w
    mk = lambda: DP.RollingOriginDataParition(f, g, w, steps, const, multi=False)
    if steps < 1 or bool(tot > 1) or (bool(tot == 1) and steps > 1):
        ctx.raises(ValueError, mk, "refused")
        ctx.stop()
    parts = mk().split(data)
    a, b, c = int(f * n), int(g * n), int(w * n)
    ctx.check(len(parts) == steps, "fold count")
    m = n - a - b - c
    prev = None
    for i, p in enumerate(parts):
        te = rows(p.test)
        tr = rows(p.train)
        if b and te[0]:
            off = te[0][0] - a - c
        else:
            off = len(tr[0]) - a if not const else (tr[0][0] if tr[0] else None)
        if off is None:
            continue
        same_rows(ctx, p.train, range(n), vals, off if const else 0, off + a, "train")
        same_rows(ctx, p.test, range(n), vals, off + a + c, off + a + c + b, "test")
        ctx.check(off == 0 if i == 0 else off >= prev, "origin moves forward")
        if steps > 1:
            ctx.check(abs(off * (steps - 1) - i * m) < steps - 1, "even steps")
            if i == steps - 1:
                ctx.check(off == m, "last fold ends at the end")
        prev = off
    ctx.reach("end")


@harness("C06", params=[{"multi": False}])
def rolling_arguments(ctx, multi):
    """fractions below 0 or above 1 are refused"""
    f, g, w = ctx.real("f", -2, 2), ctx.real("g", -2, 2), ctx.real("w", -2, 2)
    bad = any(bool(x < 0) or bool(x > 1) for x in (f, g, w)) or bool(f + g + w > 1)
    mk = lambda: DP.RollingOriginDataParition(f, g, w, multi=multi)
    if bad:
        ctx.raises(ValueError, mk, "refused")
    else:
        d = mk()
        ctx.eq(d.start_train_frac, f, "train frac")
        ctx.eq(d.test_frac, g, "test frac")
        ctx.eq(d.window_frac, w, "window frac")
        ctx.reach("end")


@harness("C06", params=[{"bounds": b} for b in ("both", "train", "test", "none")], weight=3)
def by_timestamp(ctx, bounds):
    """timestamp partition: train = rows with start <= t <= end, test likewise, both ends inclusive, open ends default
    to everything; repeated timestamps stay together; start not before end is refused"""
    gaps = ctx.choice("gaps", [(0, 2), (1, 1), (1, 0), (0, 0)])
    os_ = [0]
    for g in gaps:
        os_.append(os_[-1] + g)
    os_.append(os_[-1] + 1)
    vals = ctx.reals("v", 4)
    data = tsd(ctx, vals, os_)
    te, ts_ = ctx.cint("te", -1, 3), ctx.cint("ts", 0, 4)
    day = lambda k: T0 + pd.Timedelta(k, "D")
    kw = {}
    t0 = t1 = None
    if bounds in ("both", "train"):
        t0 = ctx.cint("t0", 0, 2)
        kw["train_start"] = str(day(t0))
    if bounds in ("both", "test"):
        t1 = te + 2 if bounds == "both" else ctx.cint("t1", 1, 4)
        kw["test_end"] = day(t1)
    mk = lambda: DP.SimpleTimestampDataPartition(str(day(te)), day(ts_).to_pydatetime(), multi=False, **kw)
    if (t0 is not None and te <= t0) or (t1 is not None and t1 <= ts_):
        ctx.raises(ValueError, mk, "empty range refused")
        ctx.stop()
    r = mk().split(data)
    ctx.check(len(r) == 1, "one split")
    tr = [i for i, o in enumerate(os_) if o <= te and (t0 is None or o >= t0)]
    tt = [i for i, o in enumerate(os_) if o >= ts_ and (t1 is None or o <= t1)]
    for part, idx, lab in ((r[0].train, tr, "train"), (r[0].test, tt, "test")):
        o, v = rows(part)
        ctx.check(o == [os_[i] for i in idx], lab + " times")
        ctx.eq_list(v, [vals[i] for i in idx], lab + " values")
    ctx.reach("end")


@harness("C06")
def core_limits(ctx):
    """the worker count: one without multi, the given count up to the available cores, refused when not positive"""
    total = DP.cpu_count()
    c = ctx.cint("c", -1, total + 2)
    none = ctx.cbool("none")
    mk = lambda m: DP.SimpleDataPartition(train_frac=0.5, multi=m, max_core=None if none else c)
    ctx.check(mk(False).max_core == 1, "single")
    if none:
        ctx.check(mk(True).max_core == max((total - 1) // 2, 1), "default")
    elif c <= 0:
        ctx.raises(ValueError, lambda: mk(True), "refused")
    else:
        ctx.check(mk(True).max_core == min(c, total), "given, capped")
    ctx.reach("end")


# ------------------------------------------------------------------ C07
class MP(Params):
    def __init__(self, f=None):
        self.f = f

    def validate_params(self):
        pass


class StubModel(object):
    """records what it is given; spoils its own copy of the training data; forecasts params.f(step, train)"""
    log = []

    def __init__(self, data, params):
        self.data, self.params = data, params
        self.seen = (offs(data.time), list(data.value))
        self.fitted = False

    def fit(self):
        self.fitted = True
        v = self.data.value.copy()
        for i in range(len(v)):
            v.iloc[i] = 0.0
        self.data.value = v

    def predict(self, steps, freq=None, **kw):
        assert self.fitted
        self.steps, self.freq = steps, freq
        return pd.DataFrame({"time": times(range(steps)), "fcst": [self.params.f(i, self.seen[1]) for i in range(steps)],
                             "fcst_lower": [0.0] * steps})


def naive_plus(i, tr):
    return tr[-1] + i


def size_of(n, p):
    return int(math.floor(n * p / 100)) if isinstance(p, (int, float)) else int((n * p / 100))


def check_fold(ctx, res, n, vals, tr, te, off=0, freq="D", f=naive_plus):
    got_tr, got_te, model, pred = res
    ctx.eq_list(list(got_tr), vals[tr[0]:tr[1]], "train rows")
    ctx.eq_list(list(got_te), vals[te[0]:te[1]], "test rows")
    ctx.check(model.seen[0] == list(range(tr[0], tr[1])), "model saw exactly the training times")
    ctx.eq_list(model.seen[1], vals[tr[0]:tr[1]], "model saw exactly the training values")
    ctx.check(model.steps == te[1] - te[0] + off, "steps asked for")
    ctx.check(model.freq == freq, "frequency")
    want = [f(i, vals[tr[0]:tr[1]]) for i in range(te[1] - te[0] + off)][off:]
    ctx.eq_list(list(pred), want, "forecasts of the test rows")


@harness("C07", params=[{"N": 5}], thorough=[{"N": 12}], weight=3)
def simple_backtest(ctx, N):
    """simple backtest for every pair of percentages: first floor(p*n/100) rows train, the next floor(q*n/100) test;
    impossible percentages are refused; the model sees only the training rows"""
    n = ctx.cint("n", 3, N)
    vals = ctx.reals("v", n)
    data = tsd(ctx, vals)
    p, q = ctx.real("p", -10, 120), ctx.real("q", -10, 120)
    mk = lambda: BT.BackTesterSimple(["mae"], data, MP(naive_plus), p, q, StubModel)
    if bool(p <= 0) or bool(p > 100) or bool(q <= 0) or bool(q > 100):
        ctx.raises(ValueError, mk, "percentage refused")
        ctx.stop()
    bt = mk()
    a, b = size_of(n, p), size_of(n, q)
    if a == 0 or b == 0 or a + b > n:
        ctx.raises(ValueError, bt.run_backtest, "sizes refused")
        ctx.stop()
    bt.run_backtest()
    ctx.check(len(bt.results) == 1, "one fold")
    check_fold(ctx, bt.results[0], n, vals, (0, a), (a, a + b))
    ctx.eq_list(list(data.value), vals, "data untouched")
    ctx.reach("end")


@harness("C07", params=[{"N": 5}], thorough=[{"N": 10}], weight=3)
def fixed_window(ctx, N):
    """fixed window backtest: test starts a window after the train end and the forecast of the window is dropped"""
    n = ctx.cint("n", 4, N)
    vals = ctx.reals("v", n)
    data = tsd(ctx, vals)
    p, q, w = ctx.real("p", 1, 100), ctx.real("q", 1, 100), ctx.real("w", -10, 120)
    mk = lambda: BT.BackTesterFixedWindow(["mae"], data, MP(naive_plus), p, q, w, StubModel)
    if bool(w < 0) or bool(w > 100):
        ctx.raises(ValueError, mk, "window refused")
        ctx.stop()
    bt = mk()
    a, b, c = size_of(n, p), size_of(n, q), size_of(n, w)
    if a == 0 or a >= n or b == 0 or b >= n or a + b + c > n:
        ctx.raises(ValueError, bt.run_backtest, "sizes refused")
        ctx.stop()
    bt.run_backtest()
    check_fold(ctx, bt.results[0], n, vals, (0, a), (a + c, a + c + b), off=c)
    ctx.reach("end")


@harness("C07", params=[{"const": k, "kind": x, "n": 6} for k in (False, True) for x in ("origin", "alias", "cv")],
         thorough=[{"const": k, "kind": "origin", "n": 11} for k in (False, True)], weight=4)
def rolling_backtest(ctx, const, kind, n):
    """rolling backtests (class, deprecated aliases, cross validation) for every start/test percentage and 1-4 folds,
    sequential and pooled: test always directly follows train, sizes as asked, forward moving, the last one ends at the
    end, train grows or keeps its size"""
    vals = ctx.reals("v", n)
    data = tsd(ctx, vals)
    p, q = ctx.real("p", 15, 90), ctx.real("q", 15, 90)
    steps = ctx.cint("steps", 1, 4 if kind == "origin" else 3)
    multi = ctx.cbool("multi") if kind != "alias" else False
    pm = MP(naive_plus)

    def mk():
        if kind == "origin":
            return BT.BackTesterRollingOrigin(["mae"], data, pm, p, q, steps, StubModel, constant_train_size=const,
                                              multi=multi)
        if kind == "cv":
            return BT.CrossValidation(["mae"], data, pm, p, q, steps, StubModel, constant_train_size=const, multi=multi)
        if const:
            return BT.BackTesterRollingWindow(["mae"], data, pm, p, q, steps, StubModel, multi=multi)
        return BT.BackTesterExpandingWindow(["mae"], data, pm, p, 100 - q, q, steps, StubModel, multi=multi)

    if bool(p + q > 100) or (bool(p + q == 100) and steps > 1):
        ctx.raises(ValueError, mk, "percentages refused")
        ctx.stop()
    bt = mk()
    run = bt.run_cv if kind == "cv" else bt.run_backtest
    a, b = size_of(n, p), size_of(n, q)
    if a == 0 or b == 0 or (a + b == n and steps > 1):
        ctx.raises(ValueError, run, "sizes refused")
        ctx.stop()
    run()
    ctx.check(len(bt.results) == steps, "fold count")
    m = n - a - b
    prev = 0
    tot = 0.0
    for i, r in enumerate(bt.results):
        te_start = len(r[0]) + (r[2].seen[0][0] if r[2].seen[0] else 0)
        off = te_start - a
        check_fold(ctx, r, n, vals, (off if const else 0, off + a), (off + a, off + a + b))
        ctx.check(off >= prev, "forward")
        if i == 0:
            ctx.check(off == 0, "first origin")
        if steps > 1:
            ctx.check(abs(off * (steps - 1) - i * m) < max(steps - 1, 1) * 1.0 + 0.001, "even steps")
            if i == steps - 1:
                ctx.check(off == m, "last fold ends at the end of the data")
        prev = off
        tot = tot + mean([abs(x - y) for x, y in zip(r[1], r[3])])
    ctx.eq(bt.get_error_value("mae"), tot / steps, "mean of fold errors")
    ctx.reach("end")


@harness("C07")
def refused_backtests(ctx):
    """unknown error names, empty data, and non positive step counts or percentages are refused"""
    vals = ctx.reals("v", 4)
    data = tsd(ctx, vals)
    p = ctx.real("p", -20, 130)
    q = ctx.real("q", -20, 130)
    ctx.raises(ValueError, lambda: BT.BackTesterSimple(["nope"], data, MP(), 50, 50, StubModel), "unknown error")
    empty = TimeSeriesData(pd.DataFrame({"time": [], "value": []}))
    ctx.raises(ValueError, lambda: BT.BackTesterSimple(["mae"], empty, MP(), 50, 50, StubModel), "empty")
    bad = bool(p <= 0) or bool(p > 100) or bool(q <= 0) or bool(q > 100)
    if bad:
        ctx.raises(ValueError, lambda: BT.BackTesterRollingOrigin(["mae"], data, MP(), p, q, 1, StubModel), "rolling")
        ctx.raises(ValueError, lambda: BT.BackTesterFixedWindow(["mae"], data, MP(), p, q, 0, StubModel), "fixed")
        ctx.raises(ValueError, lambda: BT.CrossValidation(["mae"], data, MP(), p, q, 1, StubModel), "cv")
        ctx.reach("refused")
    s = ctx.cint("s", -2, 0)
    if s < 0:
        ctx.raises(ValueError, lambda: BT.BackTesterRollingOrigin(["mae"], data, MP(), 25, 25, s, StubModel), "steps")
        ctx.raises(ValueError, lambda: BT.CrossValidation(["mae"], data, MP(), 25, 25, s, StubModel), "folds")


# ------------------------------------------------------------------ C08
class TableModel(StubModel):
    """forecasts are given values"""

    def predict(self, steps, freq=None, **kw):
        return pd.DataFrame({"fcst": self.params.f[:steps]})


@harness("C08", params=[{"m": k} for k in ("mae", "mse", "me", "mape", "smape", "mdae")], weight=2)
def single_backtest_error(ctx, m):
    """the reported error of a simple backtest is the metric of the test rows and the forecasts, the raw errors are
    their differences"""
    vals = ctx.reals("v", 5)
    fc = ctx.reals("f", 2)
    if m in ("mape", "smape"):
        for x in vals[3:]:
            ctx.assume(x >= 0.5)
        for x in fc:
            ctx.assume(x >= 0.25)
    data = tsd(ctx, vals)
    bt = BT.BackTesterSimple([m, "rmse"], data, MP(ctx.array(fc)), 60, 40, TableModel)
    bt.run_backtest()
    e = [a - b for a, b in zip(vals[3:], fc)]
    want = {"mae": mean([abs(x) for x in e]), "mse": mean([x * x for x in e]), "me": mean(e),
            "mdae": mean([abs(x) for x in e])}
    if m == "mape":
        want[m] = mean([abs(x) / y for x, y in zip(e, vals[3:])])
    if m == "smape":
        want[m] = mean([2 * abs(x) / (y + z) for x, y, z in zip(e, vals[3:], fc)])
    ctx.eq(bt.get_error_value(m), want[m], m)
    r = bt.get_error_value("rmse")
    ctx.eq(r * r, want["mse"] if "mse" in want else mean([x * x for x in e]), "rmse^2")
    ctx.check(len(bt.raw_errors) == 1, "raw errors")
    ctx.eq_list(list(bt.raw_errors[0]), e, "raw errors")
    ctx.raises(ValueError, lambda: bt.get_error_value("nope"), "unknown")
    ctx.reach("end")


@harness("C08")
def fold_weights(ctx):
    """calc_error weights each fold's error by its number of test rows (2 folds of 1-3 rows)"""
    data = tsd(ctx, ctx.reals("v", 3))
    bt = BT.BackTesterSimple(["mae", "me"], data, MP(), 60, 40, TableModel)
    k = [ctx.cint("k%d" % i, 1, 3) for i in range(2)]
    t = [ctx.reals("t%d_" % i, k[i]) for i in range(2)]
    f = [ctx.reals("f%d_" % i, k[i]) for i in range(2)]
    one = ctx.array([ctx.real("x")])
    bt.results = [(one, ctx.array(t[i]), None, ctx.array(f[i])) for i in range(2)]
    bt.calc_error()
    e = [a - b for i in range(2) for a, b in zip(t[i], f[i])]
    ctx.eq(bt.get_error_value("mae"), mean([abs(x) for x in e]), "mae")
    ctx.eq(bt.get_error_value("me"), mean(e), "me")
    ctx.check(len(bt.raw_errors) == 2, "raw")
    for i in range(2):
        ctx.eq_list(list(bt.raw_errors[i]), [a - b for a, b in zip(t[i], f[i])], "raw errors")
    ctx.reach("end")


@harness("C08")
def bad_results(ctx):
    """empty train, truth or forecasts, different lengths, and no results at all are refused"""
    data = tsd(ctx, ctx.reals("v", 3))
    bt = BT.BackTesterSimple(["mae"], data, MP(), 60, 40, TableModel)
    a, b, c = ctx.cint("a", 0, 2), ctx.cint("b", 0, 2), ctx.cint("c", 0, 2)
    if a and b == c and b:
        ctx.stop()
    bt.results = [(ctx.array(ctx.reals("x", a)), ctx.array(ctx.reals("y", b)), None, ctx.array(ctx.reals("z", c)))]
    ctx.raises(ValueError, bt.calc_error, "refused")
    bt.results = []
    ctx.raises(ValueError, bt.calc_error, "nothing")
    ctx.reach("end")


class Forecaster(object):
    def __init__(self, fc, fail, exc=ValueError):
        self.fc, self.fail, self.n, self.calls, self.exc = fc, fail, 0, [], exc

    def __call__(self, train, test):
        i = self.n
        self.n += 1
        self.calls.append((len(train), len(test)))
        if self.fail[i]:
            raise self.exc("no forecast")
        return pd.DataFrame({"y": test.value.values, "fcst": self.fc[i]})


@harness("C08", params=[{"summ": "average", "nfail": k} for k in (0, 1, 2)] + [{"summ": "weighted", "nfail": 0}], weight=2)
def generic_summary(ctx, summ, nfail):
    """generic backtester over 3 rolling folds: fold errors are the metric of each fold, the summary their average over
    the folds that worked; failed folds get the error score; raw results kept or dropped as asked"""
    vals = ctx.reals("v", 6)
    data = tsd(ctx, vals)
    dp = DP.RollingOriginDataParition(0.5, 0.2, expanding_steps=3, multi=False)
    fc = [ctx.reals("f%d_" % i, 1) for i in range(3)]
    fail = [False] * 3
    if nfail:
        idx = ctx.choice("failing", list(itertools.combinations(range(3), nfail)))
        for i in idx:
            fail[i] = True
    fcst = Forecaster([ctx.array(x) for x in fc], fail)
    keep_raw, keep_fold = ctx.cbool("raw"), ctx.cbool("fold")
    gb = BT.GenericBacktester(dp, fcst, ["mae", "me"], summarizer=summ, raw_errors=keep_raw, fold_errors=keep_fold,
                              multi=False)
    ctx.raises(ValueError, gb.get_errors, "nothing before running")
    gb.run_backtester(data)
    r = gb.get_errors()
    ctx.check(fcst.calls == [(3, 1), (4, 1), (5, 1)], "each fold once in order")
    e = [vals[3 + i] - fc[i][0] for i in range(3)]
    ok = [i for i in range(3) if not fail[i]]
    ctx.eq(r.summary_errors["me"], mean([e[i] for i in ok]), "summary me")
    ctx.eq(r.summary_errors["mae"], mean([abs(e[i]) for i in ok]), "summary mae")
    ctx.check((r.raw_errors is None) == (not keep_raw) and (r.fold_errors is None) == (not keep_fold), "kept as asked")
    if keep_fold:
        for i in range(3):
            if fail[i]:
                ctx.check(isnan(r.fold_errors[i]["me"]), "failed fold")
            else:
                ctx.eq(r.fold_errors[i]["me"], e[i], "fold me")
                ctx.eq(r.fold_errors[i]["mae"], abs(e[i]), "fold mae")
    if keep_raw:
        for i in range(3):
            ctx.check((r.raw_errors[i] is None) == fail[i], "raw of failed fold")
    ctx.reach("end")


@harness("C08")
def weighted_summary(ctx):
    """'weighted' summary: folds weighted by their number of test rows (2 folds of different size)"""
    vals = ctx.reals("v", 6)
    data = tsd(ctx, vals)
    k = ctx.cint("k", 1, 3)

    class Parts(object):
        def split(self, d):
            return [DP.TrainTestData(d[:2], d[2:2 + k]), DP.TrainTestData(d[:3], d[3:5])]

    fc = [ctx.reals("f", k), ctx.reals("g", 2)]
    gb = BT.GenericBacktester(Parts(), Forecaster([ctx.array(x) for x in fc], [False] * 2), "me", summarizer="weighted",
                              multi=False)
    gb.run_backtester(data)
    e = [mean([a - b for a, b in zip(vals[2:2 + k], fc[0])]), mean([a - b for a, b in zip(vals[3:5], fc[1])])]
    ctx.eq(gb.get_errors().summary_errors["me"], (e[0] * k + e[1] * 2) / (k + 2), "weighted by rows")
    ctx.reach("end")


@harness("C08")
def weighted_summary_with_failure(ctx):
    """'weighted' summary when one of two folds failed: the error of the other fold"""
    vals = ctx.reals("v", 6)
    data = tsd(ctx, vals)
    dp = DP.RollingOriginDataParition(0.5, 0.2, expanding_steps=2, multi=False)
    fc = [ctx.reals("f%d_" % i, 1) for i in range(2)]
    first = ctx.cbool("first")
    gb = BT.GenericBacktester(dp, Forecaster([ctx.array(x) for x in fc], [first, not first]), "me",
                              summarizer="weighted", multi=False)
    gb.run_backtester(data)
    e = [vals[3] - fc[0][0], vals[5] - fc[1][0]]
    ctx.eq(gb.get_errors().summary_errors["me"], e[1] if first else e[0], "the valid fold")
    ctx.reach("end")


@harness("C08")
def all_failed(ctx):
    """error score replaces a failed fold's error; when every fold fails the run is refused"""
    vals = ctx.reals("v", 6)
    data = tsd(ctx, vals)
    s = ctx.real("score", 0, 100)
    dp = DP.RollingOriginDataParition(0.5, 0.2, expanding_steps=2, multi=False)
    fc = ctx.reals("f", 1)
    gb = BT.GenericBacktester(dp, Forecaster([ctx.array(fc)] * 2, [False, True]), "me", multi=False, error_score=s)
    gb.run_backtester(data)
    r = gb.get_errors()
    ctx.eq(r.fold_errors[1]["me"], s, "error score")
    ctx.eq(r.summary_errors["me"], (s + vals[3] - fc[0]) / 2, "summary with error score")
    gb = BT.GenericBacktester(dp, Forecaster([None] * 2, [True, True]), "me", multi=False)
    ctx.raises(ValueError, lambda: gb.run_backtester(data), "every fold failed")
    ctx.raises(ValueError, lambda: BT.GenericBacktester(dp, gb.forecaster, ["nope"], multi=False), "unknown scorer")
    ctx.reach("end")


@harness("C08")
def kats_backtester(ctx):
    """the generic backtester for Kats models fits on each training part and scores the forecast of each test part"""
    vals = ctx.reals("v", 5)
    data = tsd(ctx, vals)
    dp = DP.SimpleDataPartition(train_size=3, multi=False)
    fc = ctx.reals("f", 2)
    gb = BT.KatsSimpleBacktester(dp, ["mae", "me"], MP(ctx.array(fc)), TableModel, multi=False)
    gb.run_backtester(data)
    r = gb.get_errors()
    e = [a - b for a, b in zip(vals[3:], fc)]
    ctx.eq(r.summary_errors["me"], mean(e), "me")
    ctx.eq(r.summary_errors["mae"], mean([abs(x) for x in e]), "mae")
    ctx.eq_list(list(r.raw_errors[0]["y"]), vals[3:], "truth")
    ctx.eq_list(list(r.raw_errors[0]["fcst"]), fc, "forecast")
    ctx.reach("end")
