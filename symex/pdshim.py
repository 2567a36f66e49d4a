"""pandas patches for object columns that hold proxies."""
import functools
import numpy as np
import pandas as pd


def install():
    from . import shim as S
    from . import values as V
    import pandas.core.nanops as nanops
    import pandas.api.types as pat
    import pandas.core.dtypes.common as pdc

    # is_numeric_dtype: object columns with proxies count as numeric
    orig_isnum = pdc.is_numeric_dtype

    def is_numeric_dtype(x):
        if orig_isnum(x):
            return True
        if S.active() and getattr(x, "dtype", None) == object and hasattr(x, "to_numpy"):
            vals = x.to_numpy()
            return len(vals) > 0 and all(
                V.is_sym(e) or isinstance(e, (int, float, np.number)) for e in vals.flat)
        return False

    pat.is_numeric_dtype = is_numeric_dtype
    S.register_replacement(orig_isnum, is_numeric_dtype)

    def red(name, scalar, ddof=False):
        orig = getattr(nanops, name)

        @functools.wraps(orig)
        def fn(values, *, axis=None, skipna=True, **k):
            if S.active() and type(values) is np.ndarray and values.dtype == object:
                if S.has_sym(values):
                    kw = {}
                    if ddof:
                        kw["ddof"] = k.get("ddof", 1)

                    def f(s):
                        if skipna:
                            s = S.notnan(s)
                        elif any(not V.is_sym(e) and e != e for e in s):
                            return V.NAN
                        mc = k.get("min_count", 0) or 0
                        if not s:
                            if name == "nansum" and mc == 0:
                                return 0.0
                            return V.NAN
                        return scalar(s, **kw)

                    return S.reduce_axis(f, values, axis)
                try:
                    values = values.astype(float)
                except (TypeError, ValueError):
                    pass
            return orig(values, axis=axis, skipna=skipna, **k)

        setattr(nanops, name, fn)

    red("nanmean", S.s_mean)
    red("nansum", S.s_sum)
    red("nanmin", S.s_min)
    red("nanmax", S.s_max)
    red("nanmedian", S.s_median)
    red("nanvar", S.s_var, True)
    red("nanstd", S.s_std, True)

    # frame reductions end in astype(float)
    def frame_red(name, op, ddof=False):
        orig = getattr(pd.DataFrame, name)

        @functools.wraps(orig)
        def fn(self, axis=None, skipna=None, level=None, *a, **k):
            if S.active() and level is None and S.has_sym(self):
                ax = 0 if axis in (None, 0, "index") else 1
                skip = True if skipna is None else skipna
                kw = {}
                if ddof:
                    kw["ddof"] = a[0] if a else k.get("ddof", 1)
                res = getattr(nanops, op)(S.to_obj(self.to_numpy()), axis=ax, skipna=skip, **kw)
                return pd.Series(S.to_obj(res), index=self.columns if ax == 0 else self.index)
            return orig(self, axis, skipna, level, *a, **k)

        setattr(pd.DataFrame, name, fn)

    frame_red("mean", "nanmean")
    frame_red("median", "nanmedian")
    frame_red("min", "nanmin")
    frame_red("max", "nanmax")
    frame_red("var", "nanvar", True)
    frame_red("std", "nanstd", True)

    # rows that differ in a concrete column are no duplicates, whatever the proxies are
    orig_dup = pd.DataFrame.duplicated

    @functools.wraps(orig_dup)
    def duplicated(self, subset=None, keep="first"):
        if S.active() and subset is None and S.has_sym(self):
            plain = [c for c in range(self.shape[1]) if not S.has_sym(self.iloc[:, c])]
            d = orig_dup(self.iloc[:, plain], keep=False) if plain else None
            if d is not None and not d.any():
                return d
        return orig_dup(self, subset, keep)

    pd.DataFrame.duplicated = duplicated

    # comparison helpers of pandas.testing
    import pandas._libs.testing as plt_

    orig_aae = plt_.assert_almost_equal

    def assert_almost_equal(a, b, *args, **k):
        if S.active() and (S.has_sym(a) or S.has_sym(b)):
            rtol, atol = k.get("rtol", 1e-5), k.get("atol", 1e-8)
            av, bv = list(S.to_obj(a).reshape(-1)), list(S.to_obj(b).reshape(-1))
            if len(av) != len(bv):
                raise AssertionError("length")
            for x, y in zip(av, bv):
                xs, ys = V.is_sym(x), V.is_sym(y)
                if not xs and not ys:
                    orig_aae(x, y, rtol=rtol, atol=atol)
                    continue
                if (not xs and x != x) or (not ys and y != y):
                    raise AssertionError("nan")
                if not bool(abs(x - y) <= atol + rtol * abs(y)):
                    raise AssertionError("values differ")
            return True
        return orig_aae(a, b, *args, **k)

    plt_.assert_almost_equal = assert_almost_equal

    # linear interpolation
    def lin(vals, limit_direction="forward"):
        n = len(vals)
        out = list(vals)
        known = [i for i, e in enumerate(vals) if V.is_sym(e) or (e is not None and e == e)]
        if not known:
            return out
        for i in range(n):
            if i in known:
                continue
            lo = [k for k in known if k < i]
            hi = [k for k in known if k > i]
            if lo and hi:
                a, b = lo[-1], hi[0]
                out[i] = vals[a] + (vals[b] - vals[a]) * (i - a) / (b - a)
            elif lo and limit_direction in ("forward", "both"):
                out[i] = vals[lo[-1]]
            elif hi and limit_direction in ("backward", "both"):
                out[i] = vals[hi[0]]
        return out

    def patch_interp(cls):
        orig = cls.interpolate

        @functools.wraps(orig)
        def interpolate(self, method="linear", *a, **k):
            if S.active() and S.has_sym(self):
                left = {kk: vv for kk, vv in k.items() if vv is not None and kk not in (
                    "axis", "inplace", "limit_direction", "downcast")}
                if method == "polynomial" and not a and set(left) <= {"order"} and k.get("axis") in (None, 0, "index"):
                    # a linear operation on the known values: combine the responses to unit vectors
                    def poly(col, index):
                        vals = list(col)
                        known = [i for i, e in enumerate(vals) if V.is_sym(e) or (e is not None and e == e)]
                        if len(known) == len(vals):
                            return vals
                        basis = []
                        for i in known:
                            u = np.full(len(vals), np.nan)
                            u[known] = 0.0
                            u[i] = 1.0
                            basis.append(sorig(pd.Series(u, index=index), method, **kk2).to_numpy())
                        out = list(vals)
                        for j in range(len(vals)):
                            if j in known:
                                continue
                            if any(b[j] != b[j] for b in basis):
                                out[j] = V.NAN
                                continue
                            acc = 0.0
                            for b, i in zip(basis, known):
                                acc = acc + vals[i] * float(b[j])
                            out[j] = acc
                        return out

                    sorig = pd.Series.__sx_interpolate__
                    kk2 = {kk: vv for kk, vv in k.items() if kk != "inplace"}
                    if isinstance(self, pd.DataFrame):
                        res = pd.DataFrame({c: S.to_obj(poly(self[c], self.index)) for c in self.columns}, index=self.index)
                    else:
                        res = pd.Series(S.to_obj(poly(self, self.index)), index=self.index, name=self.name)
                    if k.get("inplace"):
                        self._update_inplace(res)
                        return None
                    return res
                if method == "linear":
                    left.pop("order", None)
                if method != "linear" or a or left or k.get("axis") not in (None, 0, "index"):
                    raise V.Unsupported("interpolate(%r,%r)" % (method, k))
                ld = k.get("limit_direction") or "forward"
                if isinstance(self, pd.DataFrame):
                    cols = [self.iloc[:, i] for i in range(self.shape[1])]
                    res = pd.DataFrame({i: S.to_obj(lin(list(c), ld)) if S.has_sym(c) or c.dtype == object
                                        else pd.Series.__sx_interpolate__(c, method, limit_direction=ld).to_numpy()
                                        for i, c in enumerate(cols)}, index=self.index)
                    res.columns = self.columns
                else:
                    res = pd.Series(S.to_obj(lin(list(self), ld)), index=self.index, name=self.name)
                if k.get("inplace"):
                    self._update_inplace(res)
                    return None
                return res
            return orig(self, method, *a, **k)

        cls.interpolate = interpolate

    pd.Series.__sx_interpolate__ = pd.Series.interpolate
    patch_interp(pd.DataFrame)
    patch_interp(pd.Series)

    # moving statistics
    class Rolling(object):
        def __init__(self, obj, window, minp, closed=None):
            self.obj, self.window, self.closed = obj, window, closed
            self.timed = isinstance(window, pd.Timedelta)
            self.minp = minp if minp is not None else 1 if self.timed else window

        def bounds(self, i):
            """first and last position of the window of row i (the last one excluded)"""
            if not self.timed:
                return max(0, i - self.window + 1), i + 1
            idx = self.obj.index
            left = self.closed in ("both", "left")
            right = self.closed in (None, "both", "right")
            lo, hi = idx[i] - self.window, idx[i]
            pos = [j for j in range(len(idx)) if (idx[j] > lo or (left and idx[j] == lo)) and
                   (idx[j] < hi or (right and idx[j] == hi)) and (right or j < i) and j <= i]
            return (pos[0], pos[-1] + 1) if pos else (i, i)

        def agg(self, func, *a, **k):
            if a or k or not callable(func):
                raise V.Unsupported("rolling().agg")
            return self.apply(func)

        aggregate = agg

        def apply(self, func, raw=False, *a, **k):
            def one(col):
                out = []
                for i in range(len(col)):
                    lo, hi = self.bounds(i)
                    w = col.iloc[lo:hi]
                    n = len(S.notnan(list(w)))
                    v = func(w.values if raw else w) if n >= max(self.minp, 1) else V.NAN
                    out.append(v)
                return S.to_obj(out)
            return self.wrap(one)

        def apply_(self, f):
            def one(col):
                vals = list(col)
                out = []
                for i in range(len(vals)):
                    lo, hi = self.bounds(i)
                    w = S.notnan(vals[lo:hi])
                    out.append(f(w) if len(w) >= max(self.minp, 1) else V.NAN)
                return S.to_obj(out)
            return self.wrap(one)

        def wrap(self, one):
            o = self.obj
            if isinstance(o, pd.DataFrame):
                res = pd.DataFrame({i: one(o.iloc[:, i]) for i in range(o.shape[1])}, index=o.index)
                res.columns = o.columns
                return res
            return pd.Series(one(o), index=o.index, name=o.name)

        def mean(self):
            return self.apply_(S.s_mean)

        def sum(self):
            return self.apply_(S.s_sum)

        def max(self):
            return self.apply_(S.s_max)

        def min(self):
            return self.apply_(S.s_min)

        def median(self):
            return self.apply_(S.s_median)

        def var(self, ddof=1):
            return self.apply_(lambda w: S.s_var(w, ddof=ddof) if len(w) > ddof else V.NAN)

        def std(self, ddof=1):
            return self.apply_(lambda w: S.s_std(w, ddof=ddof) if len(w) > ddof else V.NAN)

        def __getattr__(self, name):
            raise V.Unsupported("rolling().%s" % name)

    def patch_rolling(cls):
        orig = cls.rolling

        @functools.wraps(orig)
        def rolling(self, window, min_periods=None, center=False, *a, **k):
            if S.active() and S.has_sym(self):
                closed = k.pop("closed", None)
                if not isinstance(window, (int, np.integer)) and isinstance(self.index, pd.DatetimeIndex):
                    window = pd.Timedelta(window)
                elif not isinstance(window, (int, np.integer)) or closed is not None:
                    raise V.Unsupported("rolling(%r)" % (window,))
                else:
                    window = int(window)
                if center or a or any(v is not None for v in k.values()):
                    raise V.Unsupported("rolling(%r)" % (window,))
                return Rolling(self, window, min_periods, closed)
            return orig(self, window, min_periods, center, *a, **k)

        cls.rolling = rolling

    patch_rolling(pd.DataFrame)
    patch_rolling(pd.Series)

    # exponentially weighted means
    class Ewm(object):
        def __init__(self, obj, alpha, minp, adjust):
            self.obj, self.alpha, self.minp, self.adjust = obj, alpha, minp, adjust

        def mean(self):
            vals = list(self.obj)
            if not all(V.is_sym(e) or e == e for e in vals):
                start = [i for i, e in enumerate(vals) if V.is_sym(e) or e == e]
                if not start or start != list(range(start[0], len(vals))):
                    raise V.Unsupported("ewm over gaps")
                lead = start[0]
            else:
                lead = 0
            out, num, den = [V.NAN] * lead, None, 0.0
            for i, v in enumerate(vals[lead:]):
                if num is None:
                    num, den = v, 1.0
                elif self.adjust:
                    num, den = v + (1 - self.alpha) * num, 1 + (1 - self.alpha) * den
                else:
                    num = self.alpha * v + (1 - self.alpha) * num
                out.append(num / den if i + 1 >= max(self.minp, 1) else V.NAN)
            return pd.Series(S.to_obj(out), index=self.obj.index, name=self.obj.name)

        def __getattr__(self, name):
            raise V.Unsupported("ewm().%s" % name)

    orig_ewm = pd.Series.ewm

    @functools.wraps(orig_ewm)
    def ewm(self, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, **k):
        if S.active() and S.has_sym(self):
            if com is not None or halflife is not None or k:
                raise V.Unsupported("ewm")
            return Ewm(self, alpha if span is None else 2.0 / (span + 1), min_periods or 0, adjust)
        return orig_ewm(self, com, span, halflife, alpha, min_periods or 0, adjust, **k)

    pd.Series.ewm = ewm
