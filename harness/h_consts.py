"""C01-C03: the time series container."""
import itertools
import numpy as np
import pandas as pd
from symex.registry import harness
from .common import *
from kats.consts import TimeSeriesData, TimeSeriesIterator, TSIterator, TimeSeriesChangePoint, IntervalAnomaly


def _values_of(ts):
    return list(ts.value.to_numpy())


# ------------------------------------------------------------------ C01
def _expect_sorted(ks, xs, drop):
    idx = list(range(len(ks)))
    if drop:
        seen, keep = set(), []
        for i in idx:
            if ks[i] not in seen:
                seen.add(ks[i])
                keep.append(i)
        idx = keep
    return sorted(idx, key=lambda i: ks[i])


@harness("C01", params=[{"how": "series"}, {"how": "df"}, {"how": "index"}], weight=3)
def build_sorted(ctx, how):
    """3 rows, every order of (possibly equal) day offsets in 0..2, arbitrary real values:
    rows come out in time order, each value still attached to its own time stamp;
    duplicates are dropped (first kept) exactly when asked."""
    n = 3
    ks = [ctx.cint("k%d" % i, 0, 2) for i in range(n)]
    drop = ctx.cbool("drop")
    if not drop and len(set(ks)) < n:
        # order among equal time stamps is unspecified
        strict = False
    else:
        strict = True
    xs = ctx.reals("x", n)
    if how == "series":
        ts = TimeSeriesData(time=times(ks), value=ctx.series(xs), drop_duplicate_time=drop)
    elif how == "index":
        ts = TimeSeriesData(time=pd.DatetimeIndex(times(ks)), value=ctx.series(xs), drop_duplicate_time=drop)
    else:
        ts = TimeSeriesData(df=pd.DataFrame({"time": times(ks), "v": ctx.series(xs)}), drop_duplicate_time=drop)
    order = _expect_sorted(ks, xs, drop)
    ctx.check(offs(ts.time) == [ks[i] for i in order], "times in order")
    got = _values_of(ts)
    ctx.check(len(got) == len(order) == len(ts), "length")
    ctx.check(list(ts.time.index) == list(range(len(order))), "row labels 0..n-1")
    ctx.reach("built")
    if strict:
        ctx.eq_list(got, [xs[i] for i in order], "pairing")
    else:
        for k in sorted(set(ks)):
            grp = [xs[i] for i in range(n) if ks[i] == k]
            g2 = [got[p] for p, i in enumerate(order) if ks[i] == k]
            ctx.eq(ssum(g2), ssum(grp), "group sum")
            ctx.eq(vmax(ctx, g2), vmax(ctx, grp), "group max")
    ctx.check(ts.is_univariate(), "univariate")


@harness("C01", params=[{"how": "series"}, {"how": "df"}], weight=2)
def build_four(ctx, how):
    """4 rows in any of the 24 orders: sorted by time with the pairing kept (two value columns)."""
    perm = list(ctx.choice("perm", list(itertools.permutations(range(4)))))
    xs, ys = ctx.reals("x", 4), ctx.reals("y", 4)
    v = pd.DataFrame({"a": ctx.series(xs), "b": ctx.series(ys)})
    if how == "series":
        ts = TimeSeriesData(time=times(perm), value=v)
    else:
        v = v.copy()
        v.insert(1, "when", times(perm))
        ts = TimeSeriesData(df=v, time_col_name="when")
    inv = [perm.index(k) for k in range(4)]
    ctx.check(offs(ts.time) == [0, 1, 2, 3], "times in order")
    ctx.eq_list(list(ts.value["a"]), [xs[i] for i in inv], "a")
    ctx.eq_list(list(ts.value["b"]), [ys[i] for i in inv], "b")
    for c, zs in (("a", xs), ("b", ys)):
        ctx.eq(ts.min[c], vmin(ctx, zs), "min " + c)
        ctx.eq(ts.max[c], vmax(ctx, zs), "max " + c)
    ctx.reach("end")


@harness("C01")
def unsorted_kept(ctx):
    """sort_by_time=False keeps the given row order (3 rows, any order)."""
    ks = list(ctx.choice("perm", list(itertools.permutations(range(3)))))
    xs = ctx.reals("x", 3)
    ts = TimeSeriesData(time=times(ks), value=ctx.series(xs), sort_by_time=False)
    ctx.check(offs(ts.time) == ks, "times as given")
    ctx.eq_list(_values_of(ts), xs, "values as given")
    ctx.reach("end")


@harness("C01", params=[{"how": "series"}, {"how": "df"}])
def unsorted_duplicates(ctx, how):
    """without sorting, rows keep the given order; repeated times are dropped (first kept) exactly when asked, adjacent
    or not"""
    ks = [ctx.cint("k%d" % i, 0, 2) for i in range(4)]
    xs = ctx.reals("x", 4)
    drop = ctx.cbool("drop")
    kw = dict(sort_by_time=False, drop_duplicate_time=drop)
    if how == "series":
        ts = TimeSeriesData(time=times(ks), value=ctx.series(xs), **kw)
    else:
        ts = TimeSeriesData(pd.DataFrame({"time": times(ks), "v": ctx.series(xs)}), **kw)
    keep = [i for i in range(4) if not drop or ks[i] not in ks[:i]]
    ctx.check(offs(ts.time) == [ks[i] for i in keep], "times")
    ctx.eq_list(_values_of(ts), [xs[i] for i in keep], "values")
    live = [xs[i] for i in keep]
    ctx.eq(ts.min, vmin(ctx, live), "min")
    ctx.eq(ts.max, vmax(ctx, live), "max")
    ctx.reach("end")


@harness("C01")
def caller_data_untouched(ctx):
    """Building a series never modifies the caller's frame or series (3 rows, any order)."""
    ks = list(ctx.choice("perm", list(itertools.permutations(range(3)))))
    xs = ctx.reals("x", 3)
    df = pd.DataFrame({"time": times(ks), "v": ctx.series(xs)})
    df.index = [5, 6, 7]
    TimeSeriesData(df=df, drop_duplicate_time=True)
    ctx.check(offs(df["time"]) == ks and list(df.index) == [5, 6, 7], "frame times untouched")
    ctx.eq_list(list(df["v"]), xs, "frame values untouched")
    t, v = times(ks), ctx.series(xs)
    ts = TimeSeriesData(time=t, value=v)
    ctx.check(offs(t) == ks, "time series untouched")
    ctx.eq_list(list(v), xs, "value series untouched")
    ctx.reach("end")


@harness("C01")
def unix_and_text_times(ctx):
    """Unix-second and text time columns denote the same instants as parsed ones (any 3 day offsets 0..5)."""
    ks = [ctx.cint("k%d" % i, 0, 5) for i in range(2)]
    if ks[0] == ks[1]:
        ctx.stop()
    xs = ctx.reals("x", 2)
    order = sorted(range(2), key=lambda i: ks[i])
    secs = pd.Series([int(T0.timestamp()) + 86400 * k for k in ks])
    ts = TimeSeriesData(df=pd.DataFrame({"time": secs, "v": ctx.series(xs)}), use_unix_time=True, unix_time_units="s")
    ts2 = TimeSeriesData(df=pd.DataFrame({"time": times(ks).dt.strftime("%d/%m/%Y"), "v": ctx.series(xs)}),
                         date_format="%d/%m/%Y")
    ts3 = TimeSeriesData(time=secs, value=ctx.series(xs), use_unix_time=True, unix_time_units="s")
    for t in (ts, ts2, ts3):
        ctx.check(offs(t.time) == sorted(ks), "times")
        ctx.eq_list(_values_of(t), [xs[i] for i in order], "values")
    ctx.reach("end")


@harness("C01", params=[{"mask": m} for m in ((0, 0, 0), (1, 0, 0), (0, 1, 1), (0, 0, 1))])
def min_max_with_gaps(ctx, mask):
    """min/max are the extremes of the non-missing values, and follow an assignment of new values."""
    xs = ctx.reals("x", 3)
    vs = [NAN if m else x for m, x in zip(mask, xs)]
    ts = tsd(ctx, vs)
    live = [x for m, x in zip(mask, xs) if not m]
    ctx.eq(ts.min, vmin(ctx, live), "min")
    ctx.eq(ts.max, vmax(ctx, live), "max")
    ys = ctx.reals("y", 3)
    ts.value = ctx.series(ys)
    ctx.eq(ts.min, vmin(ctx, ys), "min after assignment")
    ctx.eq(ts.max, vmax(ctx, ys), "max after assignment")
    ctx.reach("end")


@harness("C01")
def bad_inputs(ctx):
    """Mismatching lengths, non-numeric values, a missing time column and half-empty inputs are refused."""
    n = ctx.cint("n", 0, 3)
    m = ctx.cint("m", 0, 3)
    xs = ctx.reals("x", m)
    mk = lambda: TimeSeriesData(time=times(range(n)), value=ctx.series(xs))
    if n != m:
        ctx.raises(ValueError, mk, "length mismatch refused")
    else:
        ctx.check(len(mk()) == n, "accepted")
    if n:
        ctx.raises(ValueError, lambda: TimeSeriesData(time=times(range(n)), value=pd.Series(["a"] * n)), "non numeric")
        ctx.raises(ValueError, lambda: TimeSeriesData(df=pd.DataFrame({"t": times(range(n)), "v": [1.0] * n})),
                   "missing time column")
        ctx.raises(ValueError, lambda: TimeSeriesData(time=times(range(n))), "value missing")
    ctx.reach("end")


# ------------------------------------------------------------------ C02
@harness("C02")
def slicing(ctx):
    """ts[a:b] holds exactly rows a..b-1 (5 rows, all 0<=a,b<=5)."""
    xs = ctx.reals("x", 5)
    ts = tsd(ctx, xs)
    a, b = ctx.cint("a", 0, 5), ctx.cint("b", 0, 5)
    if a >= b:
        ctx.stop()
    s = ts[a:b]
    ctx.check(offs(s.time) == list(range(a, b)), "times")
    ctx.eq_list(_values_of(s), xs[a:b], "values")
    ctx.eq(s.min, vmin(ctx, xs[a:b]), "min")
    ctx.eq(s.max, vmax(ctx, xs[a:b]), "max")
    ctx.eq_list(_values_of(ts), xs, "original kept")
    ctx.reach("end")


@harness("C02")
def columns(ctx):
    """Selecting one or several columns returns those values with the same times."""
    xs, ys, zs = ctx.reals("x", 3), ctx.reals("y", 3), ctx.reals("z", 3)
    ts = tsd_multi(ctx, {"a": xs, "b": ys, "c": zs})
    d = {"a": xs, "b": ys, "c": zs}
    for c in "abc":
        s = ts[c]
        ctx.check(s.is_univariate() and offs(s.time) == [0, 1, 2], "times")
        ctx.eq_list(_values_of(s), d[c], "values " + c)
    s = ts[["c", "a"]]
    ctx.check(list(s.value.columns) == ["c", "a"], "columns")
    for c in "ca":
        ctx.eq_list(list(s.value[c]), d[c], "values2 " + c)
    s = ts[1:]
    for c in "abc":
        ctx.eq_list(list(s.value[c]), d[c][1:], "sliced " + c)
    ctx.reach("end")


@harness("C02", params=[{"multi": False}, {"multi": True}])
def exclude_range(ctx, multi):
    """exclude(start, end) removes exactly the rows inside the closed range (5 rows, every range)."""
    xs, ys = ctx.reals("x", 5), ctx.reals("y", 5)
    ts = tsd_multi(ctx, {"a": xs, "b": ys}) if multi else tsd(ctx, xs)
    a, b = ctx.cint("a", -1, 5), ctx.cint("b", -1, 5)
    half = ctx.cbool("half")
    if a > b:
        ctx.stop()
    h = pd.Timedelta(12 if half else 0, "h")
    lo, hi = T0 + pd.Timedelta(a, "D") + h, T0 + pd.Timedelta(b, "D") + h
    keep = [i for i in range(5) if not (lo <= T0 + pd.Timedelta(i, "D") <= hi)]
    if not keep:
        r = ts.exclude(lo, hi)
        ctx.check(len(r.time) == 0, "all removed")
        ctx.stop()
    r = ts.exclude(lo, hi)
    ctx.check(offs(r.time) == keep, "kept times")
    if multi:
        ctx.eq_list(list(r.value["a"]), [xs[i] for i in keep], "a")
        ctx.eq_list(list(r.value["b"]), [ys[i] for i in keep], "b")
    else:
        ctx.eq_list(_values_of(r), [xs[i] for i in keep], "values")
    ctx.check(len(ts) == 5, "original kept")
    ctx.reach("end")


@harness("C02", params=[{"multi": False}, {"multi": True}])
def extend_concat(ctx, multi):
    """extend appends the other series' rows after the current ones and refreshes min/max."""
    n, m = ctx.cint("n", 1, 3), ctx.cint("m", 1, 3)
    xs, ys = ctx.reals("x", n), ctx.reals("y", m)
    us, ws = ctx.reals("u", n), ctx.reals("w", m)
    gap = ctx.cint("gap", 0, 1)
    o1, o2 = list(range(n)), list(range(n + gap, n + gap + m))
    if multi:
        a, b = tsd_multi(ctx, {"p": xs, "q": us}, o1), tsd_multi(ctx, {"p": ys, "q": ws}, o2)
    else:
        a, b = tsd(ctx, xs, o1, name="v"), tsd(ctx, ys, o2, name="v")
    validate = ctx.cbool("validate")
    if validate and n + m < 3:
        ctx.raises(ValueError, lambda: a.extend(b, validate=True), "too short to have a frequency")
        ctx.stop()
    if validate and gap:
        ctx.raises(ValueError, lambda: a.extend(b, validate=True), "irregular refused")
        ctx.stop()
    a.extend(b, validate=validate)
    ctx.check(offs(a.time) == o1 + o2, "times")
    if multi:
        ctx.eq_list(list(a.value["p"]), xs + ys, "p")
        ctx.eq_list(list(a.value["q"]), us + ws, "q")
        ctx.eq(a.max["q"], vmax(ctx, us + ws), "max q")
    else:
        ctx.eq_list(_values_of(a), xs + ys, "values")
        ctx.eq(a.min, vmin(ctx, xs + ys), "min")
        ctx.eq(a.max, vmax(ctx, xs + ys), "max")
    ctx.check(len(b) == m, "other untouched")
    ctx.reach("end")


@harness("C02", params=[{"multi": False}, {"multi": True}])
def extend_with_gaps(ctx, multi):
    """minimum and maximum after extending are those of the present values of both, also when one side is empty or has
    only missing values"""
    m1 = ctx.choice("gaps_left", [(), (1,), (0, 1), (1, 0), (1, 1)])
    m2 = ctx.choice("gaps_right", [(0,), (1,), (0, 1), (1, 1)])
    if multi and not m1:
        ctx.stop()
    mk = lambda k, m: [NAN if g else x for g, x in zip(m, ctx.reals(k, len(m)))]
    xs, ys = mk("x", m1), mk("y", m2)
    us, ws = ctx.reals("u", len(m1)), ctx.reals("w", len(m2))
    o1, o2 = list(range(len(m1))), list(range(len(m1), len(m1) + len(m2)))
    if multi:
        a, b = tsd_multi(ctx, {"p": xs, "q": us}, o1), tsd_multi(ctx, {"p": ys, "q": ws}, o2)
    else:
        a = tsd(ctx, xs, o1, name="value") if m1 else TimeSeriesData(time_col_name="time")
        b = tsd(ctx, ys, o2, name="value")
    if all(m1 + m2):
        ctx.stop()
    a.extend(b, validate=False)
    ctx.check(len(a) == len(m1 + m2), "rows")
    live = [x for g, x in zip(m1 + m2, xs + ys) if not g]
    lo, hi = (a.min["p"], a.max["p"]) if multi else (a.min, a.max)
    ctx.eq(lo, vmin(ctx, live), "min")
    ctx.eq(hi, vmax(ctx, live), "max")
    if multi:
        ctx.eq(a.min["q"], vmin(ctx, us + ws), "min of the other column")
    if not all(m2):
        ctx.eq(b.min["p"] if multi else b.min, vmin(ctx, [x for g, x in zip(m2, ys) if not g]), "other's min")
    ctx.reach("end")


@harness("C02")
def extend_with_empty(ctx):
    """extending an empty series gives the other series, whatever its columns are called; extending by an empty one changes
    nothing"""
    n = ctx.cint("n", 1, 3)
    xs, us = ctx.reals("x", n), ctx.reals("u", n)
    kind = ctx.choice("kind", ["value", "v", "multi"])
    mk = lambda: (tsd_multi(ctx, {"p": xs, "q": us}) if kind == "multi" else tsd(ctx, xs, name=kind))  # noqa
    b = mk()
    e = TimeSeriesData(time_col_name="time") if ctx.choice("empty", [0, 1]) else TimeSeriesData(mk().to_dataframe().iloc[:0])
    if ctx.choice("which", [0, 1]):
        e.extend(b, validate=False)
        r = e
        ctx.check(len(b) == n, "other untouched")
    else:
        b.extend(e, validate=False)
        r = b
        ctx.check(len(e) == 0, "other untouched")
    ctx.check(offs(r.time) == list(range(n)), "times")
    ctx.check(r.is_univariate() == (kind != "multi"), "columns")
    if kind == "multi":
        ctx.check(list(r.value.columns) == ["p", "q"], "column names")
        ctx.eq_list(list(r.value["p"]), xs, "p")
        ctx.eq_list(list(r.value["q"]), us, "q")
        ctx.eq(r.max["q"], vmax(ctx, us), "max q")
    else:
        ctx.eq_list(_values_of(r), xs, "values")
        ctx.eq(r.min, vmin(ctx, xs), "min")
    ctx.reach("end")


@harness("C02", params=[{"multi": False}, {"multi": True}])
def equality(ctx, multi):
    """== holds exactly when times and values agree (2 rows; != is its negation)."""
    xs, ys = ctx.reals("x", 2), ctx.reals("y", 2)
    us, ws = ctx.reals("u", 2), ctx.reals("w", 2)
    for v in xs + ys + us + ws:
        ctx.assume(v * 1 == v)
    k = ctx.cint("k", 1, 2)
    same_t = k == 1
    if multi:
        a = tsd_multi(ctx, {"p": xs, "q": us}, [0, 1])
        b = tsd_multi(ctx, {"q": ws, "p": ys}, [0, k])
        pairs = list(zip(xs + us, ys + ws))
    else:
        a, b = tsd(ctx, xs, [0, 1]), tsd(ctx, ys, [0, k])
        pairs = list(zip(xs, ys))
    if not same_t:
        ctx.check(not (a == b), "different times are unequal")
        ctx.check(a != b, "different times are unequal (!=)")
        ctx.reach("times")
        ctx.stop()
    # comparison is up to the usual relative tolerance: use clearly different or equal values
    all_eq = True
    for p, q in pairs:
        e = bool(p == q)
        if not e:
            ctx.assume((p - q > 1) | (q - p > 1))
            all_eq = False
    ctx.check((a == b) == all_eq, "equal iff same content")
    ctx.check((a != b) == (not all_eq), "!= is the negation")
    ctx.check((b == a) == (a == b), "symmetric")
    ctx.reach("values")


@harness("C02")
def frame_round_trip(ctx):
    """to_dataframe followed by construction gives the same series; arrays list the same rows."""
    perm = list(ctx.choice("perm", list(itertools.permutations(range(3)))))
    xs = ctx.reals("x", 3)
    ts = TimeSeriesData(time=times(perm).rename("when"), value=ctx.series(xs, name="v"))
    df = ts.to_dataframe()
    ctx.check(list(df.columns) == ["when", "v"], "columns")
    ctx.check(list(ts.to_dataframe(standard_time_col_name=True).columns) == ["time", "v"], "standard time name")
    back = TimeSeriesData(df=df, time_col_name="when")
    ctx.check(offs(back.time) == [0, 1, 2], "times")
    ctx.eq_list(_values_of(back), _values_of(ts), "values")
    arr = ts.to_array()
    ctx.eq_list([arr[i][1] for i in range(3)], _values_of(ts), "array")
    ctx.reach("end")


@harness("C02")
def iterators(ctx):
    """Iterating yields every column / every point once, in order."""
    xs, ys = ctx.reals("x", 3), ctx.reals("y", 3)
    ts = tsd_multi(ctx, {"a": xs, "b": ys})
    cols = [list(c["y"]) for c in TimeSeriesIterator(ts)]
    ctx.check(len(cols) == 2, "two columns")
    ctx.eq_list(cols[0], xs, "first")
    ctx.eq_list(cols[1], ys, "second")
    pts = list(TSIterator(ts))
    ctx.check(len(pts) == 3, "three points")
    for i, p in enumerate(pts):
        ctx.check(offs(p.time) == [i], "point time")
        ctx.eq(p.value["a"].iloc[0], xs[i], "point a")
        ctx.eq(p.value["b"].iloc[0], ys[i], "point b")
    u = tsd(ctx, xs)
    pts = list(TSIterator(u))
    ctx.check(len(pts) == 3, "three points (uni)")
    for i, p in enumerate(pts):
        ctx.check(offs(p.time) == [i], "point time (uni)")
        ctx.eq(p.value.iloc[0], xs[i], "point (uni)")
    ctx.reach("end")


@harness("C02")
def robust_frequency(ctx):
    """The robust frequency is a most frequent gap between consecutive times (4 gaps in 1..3 days, any row order flag)."""
    gs = [ctx.cint("g%d" % i, 1, 3) for i in range(4)]
    o = [0]
    for g in gs:
        o.append(o[-1] + g)
    xs = ctx.reals("x", 5)
    rev = ctx.cbool("reversed")
    if rev:
        ts = TimeSeriesData(time=times(o[::-1]), value=ctx.series(xs), sort_by_time=False)
    else:
        ts = tsd(ctx, xs, o)
    f = ts.infer_freq_robust()
    cnt = {g: gs.count(g) for g in set(gs)}
    ctx.check(cnt.get(f.days, 0) == max(cnt.values()) and f == pd.Timedelta(f.days, "D"), "majority gap")
    ctx.reach("end")


@harness("C02", params=[{"method": m} for m in ("linear", "ffill", "bfill")])
def interpolation(ctx, method):
    """Filling missing days: original points keep their values; a missing point gets the linear /
    previous / next value (gaps of 1..6 and 1..4 days between 3 points)."""
    g1, g2 = ctx.cint("g1", 1, 6), ctx.cint("g2", 1, 4)
    xs = ctx.reals("x", 3)
    o = [0, g1, g1 + g2]
    ts = tsd(ctx, xs, o)
    r = ts.interpolate(freq="D", method=method)
    n = o[-1] + 1
    ctx.check(offs(r.time) == list(range(n)), "full grid")
    got = _values_of(r)
    want = []
    for d in range(n):
        j = max(i for i in range(3) if o[i] <= d)
        if o[j] == d:
            want.append(xs[j])
        elif method == "ffill":
            want.append(xs[j])
        elif method == "bfill":
            want.append(xs[j + 1])
        else:
            want.append(xs[j] + (xs[j + 1] - xs[j]) * (d - o[j]) / (o[j + 1] - o[j]))
    ctx.eq_list(got, want, "values")
    ctx.check(len(ts) == 3, "original kept")
    ctx.reach("end")


@harness("C02")
def interval_and_point_records(ctx):
    """Interval records need start<end and a confidence in [0,1]; point records compare by content and
    equal ones hash alike."""
    a, b = ctx.cint("a", 0, 3), ctx.cint("b", 0, 3)
    c = ctx.real("c", -2, 2)
    s, e = T0 + pd.Timedelta(a, "D"), T0 + pd.Timedelta(b, "D")
    ok = a < b and bool(c >= 0) and bool(c <= 1)
    if ok:
        iv = IntervalAnomaly(s, e, c)
        ctx.check(iv.start == s and iv.end == e, "bounds kept")
        ctx.eq(iv.confidence, c, "confidence kept")
        ctx.eq(iv.second_len, (b - a) * 86400, "length in seconds")
        ctx.reach("ok")
    else:
        ctx.raises(ValueError, lambda: IntervalAnomaly(s, e, c), "bad interval refused")
        ctx.reach("bad")
    d = ctx.real("d", 0, 1)
    p, q = TimeSeriesChangePoint(s, e, c), TimeSeriesChangePoint(s, T0 + pd.Timedelta(2, "D"), d)
    same = b == 2 and bool(c == d)
    ctx.check((p == q) == same, "equality by content")
    if same:
        ctx.check(hash(p) == hash(q), "equal points hash alike")


# ------------------------------------------------------------------ C03
def _op(name, a, b):
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[name]()


@harness("C03", params=[{"op": o} for o in ("add", "sub", "mul", "div")], weight=2)
def pointwise(ctx, op):
    """a OP b on two series with the same 3 times (each built from its own row order) is the pointwise
    result on those times."""
    perm = list(ctx.choice("perm", [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)]))
    xs, ys = ctx.reals("x", 3), ctx.reals("y", 3)
    if op == "div":
        for y in ys:
            ctx.assume(y != 0)
    a = tsd(ctx, xs)
    b = tsd(ctx, ys, perm)
    inv = [perm.index(k) for k in range(3)]
    r = _op(op, a, b)
    ctx.check(offs(r.time) == [0, 1, 2], "times")
    ctx.eq_list(_values_of(r), [_op(op, xs[i], ys[inv[i]]) for i in range(3)], "values")
    ctx.eq_list(_values_of(a), xs, "left operand untouched")
    ctx.eq_list(_values_of(b), [ys[i] for i in inv], "right operand untouched")
    ctx.check(r.is_univariate(), "univariate result")
    ctx.reach("end")


@harness("C03", params=[{"op": o} for o in ("add", "sub", "mul", "div")])
def scalar(ctx, op):
    """a OP c for a number c (real or integer) applies c at every time."""
    xs = ctx.reals("x", 3)
    integer = ctx.cbool("integer")
    c = ctx.int("ci", -5, 5) if integer else ctx.real("c")
    if op == "div":
        ctx.assume(c != 0)
    r = _op(op, tsd(ctx, xs, name="w"), c)
    ctx.check(offs(r.time) == [0, 1, 2], "times")
    ctx.eq_list(_values_of(r), [_op(op, x, c) for x in xs], "values")
    ctx.check(r.value.name == "w", "value name kept")
    ctx.reach("end")


@harness("C03", params=[{"op": o} for o in ("add", "sub", "mul", "div")])
def integer_series(ctx, op):
    """a series of whole numbers (integer column) combined with any number, or with a series of reals, is exact"""
    base = ctx.choice("base", [[1, 2, 3], [-4, 7, 2]])
    a = TimeSeriesData(time=times(range(3)), value=pd.Series(base, name="value", dtype="int64"))
    c = ctx.real("c")
    ys = ctx.reals("y", 3)
    if op == "div":
        for y in ys + [c]:
            ctx.assume(abs(y) > 0.001)
    r = _op(op, a, c)
    ctx.eq_list(_values_of(r), [_op(op, x, c) for x in base], "with a constant")
    r = _op(op, a, tsd(ctx, ys, name="value"))
    ctx.eq_list(_values_of(r), [_op(op, x, y) for x, y in zip(base, ys)], "with a real series")
    r = _op(op, tsd(ctx, ys, name="value"), a)
    ctx.eq_list(_values_of(r), [_op(op, y, x) for x, y in zip(base, ys)], "real series first")
    b = TimeSeriesData(time=times(range(3)), value=pd.Series([5, 2, 4], name="value", dtype="int64"))
    r = _op(op, a, b)
    ctx.eq_list(_values_of(r), [_op(op, float(x), float(y)) for x, y in zip(base, [5, 2, 4])], "two integer series")
    ctx.check(list(a.value) == base, "left operand untouched")
    ctx.reach("end")


@harness("C03", params=[{"op": o} for o in ("add", "sub", "mul", "div")])
def multivariate(ctx, op):
    """Columns are matched by name; columns present on one side only become missing."""
    xs, ys, us, ws = (ctx.reals(k, 2) for k in "xyuw")
    if op == "div":
        for y in us + ws:
            ctx.assume(y != 0)
    a = tsd_multi(ctx, {"p": xs, "q": ys, "r": xs})
    b = tsd_multi(ctx, {"q": ws, "p": us, "s": ws})
    r = _op(op, a, b)
    ctx.eq_list(list(r.value["p"]), [_op(op, i, j) for i, j in zip(xs, us)], "p")
    ctx.eq_list(list(r.value["q"]), [_op(op, i, j) for i, j in zip(ys, ws)], "q")
    for c in ("r", "s"):
        ctx.check(all(isnan(float(v)) for v in r.value[c]), "unmatched column is missing")
    ctx.reach("end")


@harness("C03")
def zero_division(ctx):
    """Division by a zero value gives an infinite or undefined point there and leaves other points exact."""
    xs, ys = ctx.reals("x", 2), ctx.reals("y", 2)
    r = _values_of(tsd(ctx, xs) / tsd(ctx, ys))
    for i in range(2):
        if bool(ys[i] == 0):
            ctx.check(not np.isfinite(float(r[i])), "not finite")
        else:
            ctx.eq(r[i], xs[i] / ys[i], "exact")
    ctx.reach("end")


@harness("C03")
def mismatch_refused(ctx):
    """Series with different time stamps and non-series operands are refused."""
    k = ctx.cint("k", 0, 3)
    xs, ys = ctx.reals("x", 2), ctx.reals("y", 2)
    a, b = tsd(ctx, xs, [0, 1]), tsd(ctx, ys, [0, 1 + k])
    for op in ("add", "sub", "mul", "div"):
        if op == "div":
            for y in ys:
                ctx.assume(y != 0)
        if k:
            ctx.raises(ValueError, lambda: _op(op, a, b), "different times refused")
        else:
            ctx.check(len(_op(op, a, b)) == 2, "same times accepted")
        ctx.raises(TypeError, lambda: _op(op, a, "x"), "bad operand refused")
    ctx.reach("end")


@harness("C03")
def time_name_kept(ctx):
    """The result keeps the left operand's time column name."""
    xs, ys = ctx.reals("x", 2), ctx.reals("y", 2)
    a = TimeSeriesData(time=times([0, 1]).rename("when"), value=ctx.series(xs))
    b = tsd(ctx, ys)
    r = a - b
    ctx.check(r.time_col_name == "when" and list(r.to_dataframe().columns)[-1] != "time", "name")
    ctx.eq_list(_values_of(r), [xs[i] - ys[i] for i in range(2)], "values")
    ctx.reach("end")
