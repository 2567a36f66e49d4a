"""C23 ML-AR: training rows, normalisation, forecasts, iteration."""
import math
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
import kats.models.ml_ar as MA
from kats.consts import TimeSeriesData
from kats.models.ml_ar import MLARModel, MLARParams

DT = object if SYMBOLIC else float
SAVED = MA.gbm.LGBMRegressor, MA.smape


class Reg(object):
    """a regressor that records what it learns from and answers with given numbers"""
    last = None
    answer = None

    def __init__(self, **kw):
        Reg.last, self.kw, self.asked = self, kw, []

    def fit(self, X, y, feature_name="auto", **kw):
        assert len(feature_name) == X.shape[1]
        assert len(X) == len(y)
        self.names, self.X, self.y = list(feature_name), X, list(y)

    def predict(self, X):
        assert X.shape[1] == len(self.names)
        rows = [dict(zip(self.names, r)) for r in X]
        self.asked.append(rows)
        return np.array([Reg.answer(r) for r in rows], dtype=DT)


class stubbed(object):
    def __init__(self, answer=None):
        self.answer = answer

    def __enter__(self):
        Reg.answer = self.answer
        class G(object):
            LGBMRegressor = Reg
        self.gbm = MA.gbm
        MA.gbm, MA.smape = G, lambda *a, **k: 0.0

    def __exit__(self, *a):
        MA.gbm, MA.smape = self.gbm, SAVED[1]


def key(row):
    """which row it is: variable, horizon, day of the target time"""
    v = [k[3:] for k in row if k.startswith("TV_") and row[k] == 1]
    assert len(v) == 1 and sum(1 for k in row if k.startswith("TV_") and row[k] == 0) + 1 == sum(1 for k in row if k.startswith("TV_"))
    return v[0], int(row["horizon"]), int(row["day"])


def ok(v):
    return not isnan(v)


def stat(ctx, name, w):
    w = [x for x in w if ok(x)]
    if name == "std":
        return np.sqrt(var(w, 1))
    return {"min": vmin, "max": vmax, "mean": lambda c, v: mean(v), "median": lambda c, v: stats(c, v)["median"]}[name](ctx, w)


def stats(ctx, w):
    w = [x for x in w if ok(x)]
    if not w:
        return dict.fromkeys(["min", "max", "mean", "median", "std"], NAN)
    d = {"min": vmin(ctx, w), "max": vmax(ctx, w), "mean": mean(w), "std": np.sqrt(var(w, 1)) if len(w) > 1 else NAN}
    if len(w) == 1:
        d["median"] = w[0]
    elif len(w) == 2:
        d["median"] = (w[0] + w[1]) / 2
    else:
        assert len(w) == 3
        d["median"] = w[0] + w[1] + w[2] - d["min"] - d["max"]
    return d


class Spec(object):
    """the rows the model should see for one series"""

    def __init__(self, ctx, start, cols, **cfg):
        self.ctx, self.start, self.cols, self.cfg = ctx, start, {k: list(v) for k, v in cols.items()}, cfg
        self.n = len(next(iter(cols.values())))

    def at(self, col, i):
        c = self.cols[col]
        return c[i] if 0 <= i < len(c) else NAN

    def norm(self, w):
        """function that normalises by the window w, and its inverse"""
        c = self.cfg
        d = c.get("default_min", 1e-8) if c.get("use_default_min") else 0.0
        w = [x for x in w if ok(x)]
        st = c.get("norm_sum_stat", "mean")
        if st == "z-score":
            m, s = mean(w), np.sqrt(var(w, 1))
            return (lambda x: (x - m) / (s + d)), (lambda x: x * (s + d) + m)
        n = stat(self.ctx, st, w)
        if c.get("sub_div", "div") == "sub":
            return (lambda x: x - n), (lambda x: x + n)
        return (lambda x: (x + d) / (n + d)), (lambda x: x * (n + d) - d)

    def row(self, var_, i, h):
        """(features, output, inverse) for origin i"""
        c, L = self.cfg, self.cfg["input_window"]
        log = (lambda v: np.log(v) if ok(v) else v) if c.get("transform_data") == "log" else (lambda v: v)
        lags = [log(self.at(var_, i - L + 1 + k)) for k in range(L)]
        f, inv = self.norm(lags[-(c.get("norm_window_size") or L):])
        sf = lambda x: f(x) if ok(x) else NAN
        r = {"lag_%d" % (L - 1 - k): sf(lags[k]) for k in range(L)}
        if c.get("use_sum_stats"):
            r.update(stats(self.ctx, [sf(x) for x in lags]))
        for x, p in c.get("cov_history_input_windows", {}).items():
            w = [self.at(x, i - p + 1 + k) for k in range(p)]
            g = self.norm(w)[0] if c.get("cov_history_norm") else (lambda v: v)
            for k in range(p):
                r["%s_%d" % (x, k)] = g(w[k]) if ok(w[k]) else NAN
        t = i + h
        for x, p in c.get("cov_future_input_windows", {}).items():
            w = [self.at(x, t - p + 1 + k) for k in range(2 * p)]
            if t - p + 1 < 0 or t >= self.n:
                w = [NAN] * (2 * p)
            for k in range(2 * p):
                r["Fut_Cov_%s_%d" % (x, k)] = w[k]
        r["horizon"], r["day"] = h, self.start + t + 1
        for v in c["target_variable"]:
            r["TV_" + v] = 1.0 if v == var_ else 0.0
        for cat, (val, allv) in c.get("cats", {}).items():
            for o in allv:
                r["%s_is_%s" % (cat, o)] = 1.0 if o == val else 0.0
        out = sf(log(self.at(var_, t)))
        if c.get("transform_data") == "log":
            return r, out, (lambda x: np.exp(inv(x)))
        return r, out, inv

    def last(self):
        return max(i for v in self.cfg["target_variable"] for i in range(self.n) if ok(self.cols[v][i]))

    def rows(self, training=True):
        c = self.cfg
        lags = max([c["input_window"]] + list(c.get("cov_history_input_windows", {}).values()))
        H = c["horizon"]
        H = range(1, H + 1) if isinstance(H, int) else H
        d = {}
        last = self.last()
        for v in c["target_variable"]:
            for h in H:
                for i in range(lags - 1, last + 1) if training else [last]:
                    r, out, inv = self.row(v, i, h)
                    if not training or ok(out) and i + h <= last:
                        d[v, h, r["day"]] = (r, out, inv)
        return d


def same(ctx, got, want, label):
    ctx.check(set(got) == set(want), label + ": features")
    for k in sorted(want):
        g, w = got[k], want[k]
        if not ok(w):
            ctx.check(isnan(float(g)) if not SYMBOLIC or isinstance(g, float) else False, "%s: %s missing" % (label, k))
        else:
            ctx.eq(g, w, "%s: %s" % (label, k))


def check_training(ctx, model, specs, label=""):
    reg = Reg.last
    want = {}
    for s in specs:
        want.update(s.rows())
    got = {}
    for x, y in zip(reg.X, reg.y):
        r = dict(zip(reg.names, x))
        ctx.check(key(r) not in got, "each row once")
        got[key(r)] = (r, y)
    ctx.check(set(got) == set(want), label + "training rows")
    for k in want:
        same(ctx, got[k][0], want[k][0], label + "row %s %d %d" % k)
        ctx.eq(got[k][1], want[k][1], label + "output %s %d %d" % k)


def params(cfg, **kw):
    d = {k: v for k, v in cfg.items() if k not in ("cats",)}
    d.setdefault("use_sum_stats", False)
    d.setdefault("fourier_features_period", None)
    d.setdefault("fourier_features_order", None)
    d.setdefault("calendar_features", ["day"])
    d.update(kw)
    return MLARParams(**d)


def build(ctx, start, cols, cats={}, unit="D", drop=()):
    n = len(next(iter(cols.values())))
    keep = [i for i in range(n) if i not in drop]
    df = pd.DataFrame({k: ctx.series([v[i] for i in keep]) for k, v in cols.items()})
    for c, (v, _) in cats.items():
        df[c] = [v] * len(df)
    df["time"] = times([start + i for i in keep], unit).values
    kw = {"categorical_var": list(cats)} if cats else {}
    return TimeSeriesData(df, time_col_name="time", **kw)


def vals(ctx, p, n, lo=1, hi=50):
    return [ctx.real("%s%d" % (p, i), lo, hi) for i in range(n)]


def answers(ctx, lo=1, hi=5):
    seen = {}

    def f(row):
        k = key(row)
        seen[k] = seen.get(k, 0) + 1
        return ctx.real("p_%s_%d_%d_%d" % (k + (seen[k],)), lo, hi)
    return f


NORMS = [("mean", "div"), ("mean", "sub"), ("max", "div"), ("max", "sub"), ("median", "div"), ("median", "sub"), ("std", "div"), ("z-score", "div")]


@harness("C23", params=[{"norm": n} for n in NORMS])
def windows(ctx, norm):
    """training rows hold the normalised windows before the origin and the value h steps after it"""
    ys = vals(ctx, "y", 6)
    cfg = dict(target_variable=["y"], input_window=3, horizon=ctx.choice("h", [2, [1, 3]]), norm_sum_stat=norm[0], sub_div=norm[1])
    nw = ctx.choice("nw", [None, 2])
    if nw:
        cfg["norm_window_size"] = nw
    if norm[0] in ("std", "z-score"):
        for a, b in zip(ys, ys[1:]):
            ctx.assume(b > a + 1)
    if norm[0] != "z-score" and ctx.choice("dm", [0, 1]):
        cfg.update(use_default_min=True, default_min=0.5)
    t = build(ctx, 0, {"y": ys})
    with stubbed():
        m = MLARModel(params(cfg))
        m.train([t])
        check_training(ctx, m, [Spec(ctx, 0, {"y": ys}, **cfg)])
    ctx.eq_list(list(t.value), ys, "data unchanged")
    ctx.reach("end")


@harness("C23", params=[{"norm": "sub"}, {"norm": "div"}])
def statistics(ctx, norm):
    """window statistics are those of the normalised window"""
    ys = vals(ctx, "y", 5)
    cfg = dict(target_variable=["y"], input_window=ctx.choice("w", [2, 3]), horizon=1, norm_sum_stat="max" if norm == "sub" else "mean", sub_div=norm, use_sum_stats=True, norm_window_size=1)
    t = build(ctx, 0, {"y": ys})
    with stubbed():
        m = MLARModel(params(cfg))
        m.train({"a": t})
        check_training(ctx, m, [Spec(ctx, 0, {"y": ys}, **cfg)])
    ctx.reach("end")


@harness("C23", params=[{"hist": h, "fut": f} for h, f in [(2, 0), (4, 0), (0, 1), (0, 2), (1, 2), (3, 1)]])
def covariates(ctx, hist, fut):
    """covariate histories end at the origin, future covariates surround the target time"""
    n = 6
    ys, xs, zs = vals(ctx, "y", n), vals(ctx, "x", n), vals(ctx, "z", n)
    cfg = dict(target_variable=["y"], input_window=2, horizon=2)
    cols = {"y": ys}
    if hist:
        cfg["cov_history_input_windows"] = {"x": hist, "z": 1}
        cols.update(x=xs, z=zs)
    if fut:
        cfg["cov_future_input_windows"] = {"z": fut}
        cols.update(z=zs)
    if hist and ctx.choice("norm", [0, 1]):
        cfg.update(cov_history_norm=True)
    t = build(ctx, 0, cols)
    with stubbed():
        m = MLARModel(params(cfg))
        m.train([t])
        check_training(ctx, m, [Spec(ctx, 0, cols, **cfg)])
    ctx.reach("end")


@harness("C23")
def several(ctx):
    """several series and variables, each with its own windows, category and missing values"""
    a, b = vals(ctx, "a", 6), vals(ctx, "b", 4)
    a2, b2 = vals(ctx, "c", 6), vals(ctx, "d", 4)
    miss = ctx.choice("miss", ["no", "nan", "row", "tail", "both"])
    cats = ctx.choice("cats", [0, 1])
    cfg = dict(target_variable=["y", "v"], input_window=2, horizon=2)
    drop = ()
    if miss == "nan":
        a[2] = NAN
    elif miss == "row":
        a[2] = a2[2] = NAN
        drop = (2,)
    elif miss == "tail":
        a[5] = NAN
    elif miss == "both":
        a[5] = a2[5] = b[3] = b2[3] = NAN
    specs, data = [], {}
    for name, start, y, v in [("p", 0, a, a2), ("q", 12, b, b2)]:
        c = {"k": ("K" + name, ["Kp", "Kq"])} if cats else {}
        data[name] = build(ctx, start, {"y": y, "v": v}, c, drop=drop if name == "p" else ())
        specs.append(Spec(ctx, start, {"y": y, "v": v}, cats=c, **cfg))
    with stubbed():
        kw = {"categoricals": ["k"]} if cats else {}
        if miss == "row":
            kw["freq"] = "D"
        m = MLARModel(params(cfg, **kw))
        if ctx.choice("list", [0, 1]):
            data = [data["p"], data["q"]]
        m.train(data)
        check_training(ctx, m, specs)
    ctx.reach("end")


def check_forecast(ctx, model, res, name, spec, P, label=""):
    """one more forecast per variable and horizon, right after the data; returns them"""
    want = spec.rows(training=False)
    rows = {key(r): r for r in Reg.last.asked[-1]}
    mine = {k: r for k, r in rows.items() if k in want}
    ctx.check(set(mine) == set(want), label + "questions")
    out = {}
    for k in want:
        same(ctx, mine[k], want[k][0], label + "question %s %d %d" % k)
        out[k] = want[k][2](P[k])
    got = {}
    for t, v, f in zip(res["time"], res["variable"], res["forecast"]):
        got[v, offs([t])[0]] = f
    ctx.check(len(got) == len(res), label + "each time and variable once")
    ctx.check(list(res["dummy"]) == [name] * len(res), label + "series name")
    return out, got


class Memo(object):
    """arbitrary answers, remembered by row"""

    def __init__(self, ctx, lo=1, hi=5):
        self.ctx, self.lo, self.hi, self.vals, self.n = ctx, lo, hi, {}, {}

    def __call__(self, row):
        k = key(row)
        self.n[k] = self.n.get(k, 0) + 1
        self.vals[k] = self.ctx.real("p_%s_%d_%d_%d" % (k + (self.n[k],)), self.lo, self.hi)
        return self.vals[k]


@harness("C23", params=[{"norm": n} for n in NORMS])
def forecasts(ctx, norm):
    """forecasts undo the normalisation of the last window, at origin + h"""
    ys = vals(ctx, "y", 5)
    if norm[0] in ("std", "z-score"):
        for a, b in zip(ys, ys[1:]):
            ctx.assume(b > a + 1)
    hor = ctx.choice("h", [2, [1, 3]])
    cfg = dict(target_variable=["y"], input_window=3, horizon=hor, norm_sum_stat=norm[0], sub_div=norm[1], norm_window_size=2)
    if norm[0] != "z-score" and ctx.choice("dm", [0, 1]):
        cfg.update(use_default_min=True, default_min=0.5)
    tail = ctx.choice("tail", [0, 1])
    if tail and norm[0] != "std":
        ys[4] = NAN
    t = build(ctx, 3, {"y": ys})
    P = Memo(ctx)
    with stubbed(P):
        m = MLARModel(params(cfg))
        m.train({"s": t})
        r = m.predict()
        sp = Spec(ctx, 3, {"y": ys}, **cfg)
        want, got = check_forecast(ctx, m, r["s"], "s", sp, P.vals)
        ctx.check(sorted(got) == sorted((k[0], k[2] - 1) for k in want), "times")
        for k in want:
            ctx.eq(got[k[0], k[2] - 1], want[k], "forecast %d" % k[1])
        ctx.check(list(r) == ["s"], "series")
    ctx.reach("end")


@harness("C23")
def logs(ctx):
    """log-transformed targets are transformed back"""
    ys = vals(ctx, "y", 4, 1, 20)
    cfg = dict(target_variable=["y"], input_window=2, horizon=1, sub_div="sub", transform_data="log")
    t = build(ctx, 0, {"y": ys})
    P = Memo(ctx)
    with stubbed(P):
        m = MLARModel(params(cfg))
        m.train({"s": t})
        sp = Spec(ctx, 0, {"y": ys}, **cfg)
        check_training(ctx, m, [sp])
        r = m.predict()
        want, got = check_forecast(ctx, m, r["s"], "s", sp, P.vals)
        for k in want:
            ctx.eq(got[k[0], k[2] - 1], want[k], "forecast %d" % k[1])
    ctx.eq_list(list(t.value), ys, "data unchanged")
    ctx.eq_list(list(m.all_series["s"]["y"]), ys, "kept data unchanged")
    ctx.reach("end")


@harness("C23", params=[{"two": 0}, {"two": 1}])
def batches(ctx, two):
    """each series is forecast from its own end, for every variable, with known future covariates"""
    a, b = vals(ctx, "a", 5), vals(ctx, "b", 4)
    x, z = vals(ctx, "x", 5), vals(ctx, "z", 4)
    a2, b2 = vals(ctx, "c", 5), vals(ctx, "d", 4)
    cfg = dict(target_variable=["y", "v"] if two else ["y"], input_window=2, horizon=2, sub_div="sub")
    cov = ctx.choice("cov", [0, 1])
    if cov:
        cfg["cov_future_input_windows"] = {"x": 1}
        cfg["cov_history_input_windows"] = {"x": 1}
        a[4] = a2[4] = NAN
    P = Memo(ctx)
    specs, data = {}, {}
    for name, start, y, v, w in [("p", 0, a, a2, x), ("q", 12, b, b2, z)]:
        cols = {"y": y, "x": w}
        if two:
            cols["v"] = v
        c = {"k": ("K" + name, ["Kp", "Kq"])}
        data[name] = build(ctx, start, cols, c)
        specs[name] = Spec(ctx, start, cols, cats=c, **cfg)
    with stubbed(P):
        m = MLARModel(params(cfg, categoricals=["k"]))
        m.train(data)
        r = m.predict()
        ctx.check(sorted(r) == ["p", "q"], "series")
        for name in ["p", "q"]:
            want, got = check_forecast(ctx, m, r[name], name, specs[name], P.vals)
            ctx.check(sorted(got) == sorted((k[0], k[2] - 1) for k in want), "times")
            for k in want:
                ctx.eq(got[k[0], k[2] - 1], want[k], "forecast %s %d" % (name, k[1]))
    ctx.reach("end")


@harness("C23", params=[{"hor": 2, "steps": 3}, {"hor": 2, "steps": 5}, {"hor": 1, "steps": 3}, {"hor": [1, 3], "steps": 4}, {"hor": [1, 2, 4], "steps": 5},
                        {"hor": 2, "steps": 3, "two": 1}, {"hor": [1, 3], "steps": 4, "two": 1},
                        {"hor": 2, "steps": 6, "cat": 1}])
def iterated(ctx, hor, steps, two=0, cat=0):
    """further steps are forecast with the forecasts so far in the place of data"""
    ys, v = vals(ctx, "y", 4), vals(ctx, "v", 4)
    cfg = dict(target_variable=["y", "v"] if two else ["y"], input_window=2, horizon=hor, sub_div="sub")
    cols = {"y": ys, "v": v} if two else {"y": ys}
    cats = {"k": ("Kp", ["Kp"])} if cat else {}
    cfg["cats"] = cats
    t = build(ctx, 0, cols, cats)
    P = Memo(ctx)
    with stubbed(P):
        m = MLARModel(params(cfg, categoricals=list(cats)))
        m.train([t])
        r = m.predict(steps=steps)[0]
        H = list(range(1, hor + 1)) if isinstance(hor, int) else hor
        filled = {k: list(c) for k, c in cols.items()}
        fc = {}
        for q in Reg.last.asked:
            # what is known without a gap so far
            n = 4
            while all((c, n) in fc for c in filled):
                for c in filled:
                    if len(filled[c]) == n:
                        filled[c].append(fc[c, n])
                n += 1
            cur = {c: filled[c][:n] for c in filled}
            sp = Spec(ctx, 0, cur, **cfg)
            want = sp.rows(training=False)
            rows = {key(x): x for x in q}
            ctx.check(set(rows) == set(want), "questions follow the gap-free part")
            for k in want:
                same(ctx, rows[k], want[k][0], "question %s %d %d" % k)
                if (k[0], k[2] - 1) not in fc:
                    fc[k[0], k[2] - 1] = want[k][2](P.vals[k])
        got = {(w, offs([x])[0]): f for x, w, f in zip(r["time"], r["variable"], r["forecast"])}
        ctx.check(len(got) == len(r), "each time and variable once")
        ctx.check(set(got) == set(fc), "times")
        ctx.check(all((c, 3 + s) in got for c in cols for s in range(1, steps + 1)), "all steps")
        for k in fc:
            ctx.eq(got[k], fc[k], "forecast %s %d" % k)
    ctx.reach("end")


@harness("C23", params=[{"at": a, "n": n} for a, n in [(4, 3), (4, 1), (1, 2), (6, 3), (3, 3)]])
def newdata(ctx, at, n):
    """new data moves the origin to its end; earlier data fills the window, later training data is not used"""
    ys, new, x, nx = vals(ctx, "y", 4), vals(ctx, "n", n), vals(ctx, "x", 4), vals(ctx, "u", n)
    cfg = dict(target_variable=["y"], input_window=2, horizon=2, sub_div="sub", cov_history_input_windows={"x": 1})
    t, nt = build(ctx, 0, {"y": ys, "x": x}), build(ctx, at, {"y": new, "x": nx})
    P = Memo(ctx)
    with stubbed(P):
        m = MLARModel(params(cfg, freq="D"))
        m.train({"s": t})
        more = ctx.choice("steps", [0, 3])
        cat = lambda a, b: (a[:at] + [NAN] * max(0, at - len(a)) + b)
        r = m.predict(new_data={"s": nt}) if not more else m.predict(steps=3, new_data={"s": nt})
        got = {offs([a])[0]: f for a, f in zip(r["s"]["time"], r["s"]["forecast"])}
        cols = {"y": cat(ys, new), "x": cat(x, nx)}
        first = Reg.last.asked[0]
        sp = Spec(ctx, 0, cols, **cfg)
        want = sp.rows(training=False)
        for row in first:
            same(ctx, row, want[key(row)][0], "question %d" % key(row)[1])
        ctx.check(len(first) == 2, "questions")
        for k in want:
            ctx.check(k[2] - 1 in got, "times")
            ctx.eq(got[k[2] - 1], want[k][2](ctx.real("p_%s_%d_%d_1" % k, 1, 5)), "forecast %d" % k[1])
        ctx.check(sorted(got) == list(range(at + n, at + n + (4 if more else 2))), "all times")
    ctx.eq_list(list(t.value["y"]) + list(nt.value["y"]), ys + new, "data unchanged")
    ctx.reach("end")


@harness("C23")
def rounds(ctx):
    """denormalize undoes normalize"""
    xs, n1, n2 = vals(ctx, "x", 3, -50, 50), vals(ctx, "n", 3), vals(ctx, "m", 3)
    df = pd.DataFrame({"a": ctx.series(xs), "b": ctx.series(xs[::-1])})
    a, b = ctx.series(n1), ctx.series(n2)
    sub = ctx.choice("sub", ["div", "sub", "sub_div"])
    use, d = ctx.choice("use", [False, True]), ctx.real("d", 0, 3)
    kw = dict(use_default_min=use, default_min=d, sub_div=sub)
    y = MA.normalize(df, a, b, **kw)
    e = d if use else 0.0
    for i in range(3):
        w = {"div": (xs[i] + e) / (n1[i] + e), "sub": xs[i] - n1[i], "sub_div": (xs[i] - n1[i]) / (n2[i] + e)}[sub]
        ctx.eq(y["a"].iloc[i], w, "normalised")
    z = MA.denormalize(y, a, b, **kw)
    ctx.eq_list(list(z["a"]) + list(z["b"]), xs + xs[::-1], "round trip")
    s = MA.denormalize(y["a"], a, b, **kw)
    ctx.eq_list(list(s), xs, "round trip of a column")
    ctx.eq_list(list(df["a"]) + list(a) + list(b), xs + n1 + n2, "inputs unchanged")
    ctx.raises(ValueError, lambda: MA.normalize(df, a, sub_div="x"), "unknown method")
    ctx.raises(ValueError, lambda: MA.denormalize(df, a, sub_div="x"), "unknown method")
    ctx.reach("end")


@harness("C23")
def embedding(ctx):
    """windows of a series"""
    n = ctx.choice("n", [4, 5, 6])
    xs = vals(ctx, "x", n)
    l, h = ctx.choice("l", [1, 2, 3]), ctx.choice("h", [0, 1, 2])
    M = l + ctx.choice("m", [0, 1])
    r = MA.embed(ctx.array(xs), l, h, M)
    ctx.check(r.shape == (n - M + 1, l + h), "shape")
    for j in range(n - M + 1):
        for k in range(l + h):
            i = j + M - l + k
            if i < n:
                ctx.eq(r[j, k], xs[i], "cell")
            else:
                ctx.check(isnan(float(r[j, k])) if not SYMBOLIC or isinstance(r[j, k], float) else False, "no value")
    ctx.reach("end")


FREQS = [("D", None), ("H", None), ("W", None), ("MS", None), ("M", None), ("QS", None), ("T", None), ("2D", None), ("A", None)]


@harness("C23")
def calendars(ctx):
    """times, calendar and Fourier features follow the data's own frequency"""
    f = ctx.choice("freq", [x[0] for x in FREQS])
    ys = vals(ctx, "y", 5)
    tm = pd.date_range("2021-01-01", periods=5, freq=f)
    t = TimeSeriesData(time=pd.Series(tm), value=ctx.series(ys, name="y"))
    cfg = dict(target_variable=["y"], input_window=2, horizon=2, sub_div="sub")
    base = {"MS": "M", "QS": "Q", "T": "min", "A": "Y"}.get(f, f)
    cal = {"D": ["year", "quarter", "month", "day", "weekday"], "H": ["year", "quarter", "month", "weekday", "hour"], "W": ["year", "quarter", "month", "weekofyear"],
           "M": ["year", "quarter"], "Q": ["year"], "min": ["year", "quarter", "month", "weekday", "hour", "minuteofday"]}.get(base, [])
    four = {"D": ([7, 365], [3, 7], 86400), "H": ([24, 168, 8760], [3, 5, 7], 3600), "W": ([365], [7], 86400), "min": ([60], [7], 60)}.get(base, ([], [], 1))
    own = ctx.choice("own", [0, 1])
    if own:
        cal, four = ["month", "weekday", "minuteofday"], ([3, 10], [2, 1], 3600)
    kw = dict(calendar_features=cal, fourier_features_period=four[0], fourier_features_order=four[1], fourier_features_offset=four[2]) if own else \
        dict(calendar_features="auto", fourier_features_period="auto", fourier_features_order="auto")

    def features(x):
        d = {}
        for c in cal:
            d[c] = {"year": x.year, "quarter": (x.month + 2) // 3, "month": x.month, "day": x.day, "weekday": x.weekday(), "hour": x.hour,
                    "weekofyear": x.isocalendar()[1], "minuteofday": 60 * x.hour + x.minute}[c]
        sec = (x - pd.Timestamp("1970-01-01")).total_seconds() / four[2]
        for p, o in zip(four[0], four[1]):
            for k in range(1, o + 1):
                a = 2 * math.pi * k * sec / p
                d["%s_%d_sin" % (p, k)], d["%s_%d_cos" % (p, k)] = math.sin(a), math.cos(a)
        return d

    all_t = list(pd.date_range("2021-01-01", periods=8, freq=f))
    with stubbed(lambda row: 1.0):
        m = MLARModel(params(cfg, **kw))
        m.train([t])
        reg = Reg.last
        names = {"lag_1", "lag_0", "TV_y", "horizon"} | set(features(all_t[0]))
        ctx.check(set(reg.names) == names, "features")
        want = []
        for i in range(1, 5):
            for h in (1, 2):
                if i + h < 5:
                    want.append((i, h))
        ctx.check(len(reg.X) == len(want), "rows")
        m.predict()
        q = reg.asked[-1]
        ctx.check(len(q) == 2, "questions")
        for row, (i, h) in list(zip([dict(zip(reg.names, x)) for x in reg.X], sorted(want, key=lambda w: w[::-1]))) + list(zip(sorted(q, key=lambda r: r["horizon"]), [(4, 1), (4, 2)])):
            ctx.check(row["horizon"] == h, "horizon")
            for k, v in features(all_t[i + h]).items():
                ctx.check(abs(float(row[k]) - v) < 1e-5, "feature %s of the target time" % k)
            ctx.eq(row["lag_0"], ys[i] - (ys[i] + ys[i - 1]) / 2, "lag")
        r = m.forecast_data
        ctx.check(list(r["target_time"]) == all_t[5:7], "times of the forecasts")
    ctx.reach("end")


@harness("C23")
def settings(ctx):
    """settings reach the regressor; impossible ones and incomplete data are refused"""
    kw = dict(n_jobs=2, max_depth=3, min_data_in_leaf=4, subsample=0.5, n_estimators=6, learning_rate=0.7, colsample_bytree=0.8, num_leaves=9,
              boosting_type=ctx.choice("b", ["gbdt", "dart", "goss", "rf"]), objective="quantile", alpha=0.3, verbose=-1, random_state=11)
    ys = vals(ctx, "y", 5)
    t = build(ctx, 0, {"y": ys})
    with stubbed():
        m = MLARModel(MLARParams(target_variable="y", input_window=2, horizon=1, **kw))
        m.train([t])
        for k, v in kw.items():
            ctx.check(Reg.last.kw[k] == v, k)
    p = MLARParams(horizon=[1, 4], input_window=3, cov_history_input_windows={"a": 5}, cov_future_input_windows={"b": 2}, categoricals=["c"])
    ctx.check(p.max_lags == 5 and p.max_horizon == 4 and p.all_vars == {"y", "a", "b", "c"}, "derived settings")
    V = ValueError
    for bad in [dict(boosting_type="x"), dict(horizon=0), dict(horizon=-1), dict(horizon=[1, 0]), dict(horizon=1.5), dict(horizon=["a"]), dict(cov_history_input_windows={"a": -1}),
                dict(cov_future_input_windows={"a": -1}), dict(horizon=2, cov_future_input_windows={"a": 3}), dict(calendar_features="x")]:
        ctx.raises(V, lambda: MLARParams(**bad), "refused %s" % bad)
    ctx.raises(V, lambda: MLARModel({}), "parameters of another type")
    m = MLARModel(MLARParams(target_variable="q", input_window=2, horizon=1))
    for bad in [[], {}, [t], (t,), [pd.DataFrame()], {"a": t}]:
        try:
            m.train(bad)
            ctx.check(False, "refused data")
        except (ValueError, AttributeError):
            pass
    t2 = build(ctx, 0, {"y": ys, "z": ys})
    with stubbed(lambda row: 1.0):
        m = MLARModel(params(dict(target_variable=["y"], input_window=2, horizon=[2, 3])))
        m.train([t2])
        ctx.raises(V, lambda: m.predict(steps=4), "iterating without one step")
    ctx.reach("end")
