import datetime
import itertools

import numpy as np
import pandas as pd

T0 = pd.Timestamp("2020-01-01")


def times(offsets, unit="D", base=T0):
    return pd.Series([base + pd.Timedelta(int(o), unit) for o in offsets])


def tsd(ctx, vals, offsets=None, unit="D", name=None, **kw):
    from kats.consts import TimeSeriesData
    if offsets is None:
        offsets = range(len(vals))
    return TimeSeriesData(time=times(offsets, unit), value=ctx.series(list(vals), name=name), **kw)


def tsd_multi(ctx, cols, offsets=None, unit="D", **kw):
    """cols: dict name -> list of values"""
    from kats.consts import TimeSeriesData
    n = len(next(iter(cols.values())))
    if offsets is None:
        offsets = range(n)
    df = pd.DataFrame({k: ctx.series(v) for k, v in cols.items()})
    return TimeSeriesData(time=times(offsets, unit), value=df, **kw)


def distinct(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            ctx.assume(xs[i] != xs[j])


def ssum(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


def mean(xs):
    return ssum(xs) / len(xs)


def var(xs, ddof=0):
    m = mean(xs)
    return ssum([(x - m) * (x - m) for x in xs]) / (len(xs) - ddof)


def vmin(ctx, xs):
    r = xs[0]
    for x in xs[1:]:
        r = ctx.ite(x < r, x, r)
    return r


def vmax(ctx, xs):
    r = xs[0]
    for x in xs[1:]:
        r = ctx.ite(x > r, x, r)
    return r


def offs(ts_time, unit="D", base=T0):
    """integer offsets of a time series' time column"""
    return [int((t - base) / pd.Timedelta(1, unit)) for t in ts_time]


def isnan(x):
    """true for concrete nan only (proxies are finite reals)"""
    return isinstance(x, float) and x != x


NAN = float("nan")


# ------------------------------------------------------------------ stand-ins for pools (symbolic process only)
import builtins

SYMBOLIC = hasattr(builtins, "__sx_hit__")


class _Fut(object):
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def ready(self):
        return True


class SeqPool(object):
    """runs pool tasks one after another; unordered results come back in reverse"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, f, xs, *a, **k):
        return [f(*x) for x in xs]

    def map(self, f, xs, *a, **k):
        return [f(x) for x in xs]

    imap = map

    def imap_unordered(self, f, xs, *a, **k):
        return [f(x) for x in xs][::-1]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        v = f(*args, **kwds)
        if callback:
            callback(v)
        return _Fut(v)

    def map_async(self, f, xs, *a, **k):
        return _Fut(self.map(f, xs))

    def starmap_async(self, f, xs, *a, **k):
        return _Fut(self.starmap(f, xs))

    def close(self):
        pass

    join = terminate = close


class FakeMP(object):
    Pool = SeqPool

    def __getattr__(self, k):
        import multiprocessing
        return getattr(multiprocessing, k)


def symbolic_pools(*modules):
    """replace thread/process pools of the given modules while exploring symbolically"""
    if SYMBOLIC:
        for m in modules:
            if hasattr(m, "Pool"):
                m.Pool = SeqPool
            if hasattr(m, "mp"):
                m.mp = FakeMP()
