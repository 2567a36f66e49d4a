"""Environment shims: only where C code cannot carry proxy objects.

 * an import hook compiles the modules of /repo/kats from their current source
   with two mechanical rewrites (float(x) / x.astype(t) / min / max calls go
   through helpers that are the identity on concrete values) and a hit marker
   at the start of every function (for the evidence file);
 * `np` inside kats modules is a thin delegating wrapper;
 * pandas nan-ops / is_numeric_dtype accept object columns holding proxies.
Everything delegates to the original whenever no proxy is involved.
"""
import ast
import builtins
import functools
import importlib.machinery
import os
import math
import sys
import types
import itertools

import numpy as np
import pandas as pd

from . import values as V
from .values import SymReal, SymInt, SymBool, is_sym, ite, mk, mkb, NAN, INF

REPO = os.environ.get("VERIF_REPO", "/repo")
HITS = set()


def active():
    e = V.ENG
    return e is not None and e.active


def has_sym(x):
    t = type(x)
    if issubclass(t, V._Sym):
        return True
    if t is np.ndarray or issubclass(t, np.ndarray):
        if x.dtype != object:
            return False
        return any(issubclass(type(e), V._Sym) for e in x.flat)
    if t is list or t is tuple:
        return any(has_sym(e) for e in x)
    if isinstance(x, pd.Series) or isinstance(x, pd.Index):
        return x.dtype == object and has_sym(x.to_numpy())
    if isinstance(x, pd.DataFrame):
        return any(d == object for d in x.dtypes) and has_sym(x.to_numpy())
    return False


def is_obj(x):
    return getattr(x, "dtype", None) == object


def npfloat_obj(a):
    """object array whose float elements are np.float64 (numpy division semantics)"""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, e in enumerate(a.reshape(-1)):
        if type(e) is float:
            e = np.float64(e)
        of[i] = e
    return out


def like(orig, arr):
    if isinstance(orig, pd.Series):
        return pd.Series(arr, index=orig.index, name=orig.name)
    if isinstance(orig, pd.DataFrame):
        return pd.DataFrame(arr, index=orig.index, columns=orig.columns)
    return arr


def to_obj(x):
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        x = x.to_numpy()
    if type(x) is np.ndarray:
        return x if x.dtype == object else x.astype(object)
    if issubclass(type(x), V._Sym) or np.isscalar(x) or x is None:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    l = list(x)
    try:
        return np.array(l, dtype=object)
    except Exception:
        a = np.empty(len(l), dtype=object)
        for i, e in enumerate(l):
            a[i] = e
        return a


def unwrap0(a):
    if type(a) is np.ndarray and a.ndim == 0:
        return a[()]
    return a


def vmap(f, x, boolean=False):
    a = to_obj(x)
    out = np.empty(a.shape, dtype=object)
    o, s = out.reshape(-1), a.reshape(-1)
    allb = True
    for i in range(s.shape[0]):
        r = f(s[i])
        if is_sym(r):
            allb = False
        o[i] = r
    if boolean and allb:
        out = out.astype(bool)
    if a.ndim == 0:
        return out[()]
    return like(x, out)


# ------------------------------------------------------------ scalar kernels
def k_isnan(e):
    if is_sym(e):
        return False
    if e is None:
        raise TypeError("isnan of None")
    return bool(np.isnan(float(e)))


def k_isinf(e):
    return False if is_sym(e) else bool(np.isinf(float(e)))


def k_isfinite(e):
    return True if is_sym(e) else bool(np.isfinite(float(e)))


def _m1(symname, npf):
    def k(e):
        if is_sym(e):
            return getattr(e, symname)()
        return npf(np.float64(e) if not isinstance(e, (int, np.integer)) else e)

    return k


def k_log(e):
    return V.sym_log(e) if is_sym(e) else np.log(np.float64(e))


def k_abs(e):
    return abs(e)


def k_sqrt(e):
    return V.sym_sqrt(e) if is_sym(e) else np.sqrt(np.float64(e))


def k_max(a, b):
    """np.maximum: propagates nan"""
    if not is_sym(a) and a != a:
        return a
    if not is_sym(b) and b != b:
        return b
    a, b = plain(a), plain(b)
    return ite(a >= b, a, b)


def k_min(a, b):
    if not is_sym(a) and a != a:
        return a
    if not is_sym(b) and b != b:
        return b
    a, b = plain(a), plain(b)
    return ite(a <= b, a, b)


def plain(x):
    """numpy scalars compare through arrays, which would force a case split"""
    return float(x) if isinstance(x, np.floating) and not is_sym(x) else x


def notnan(seq):
    return [e for e in seq if is_sym(e) or e == e]


def s_sum(seq):
    r = 0.0
    first = True
    for e in seq:
        if first:
            r = e
            first = False
        else:
            r = r + e
    return r


def np_div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    with np.errstate(all="ignore"):
        return np.float64(a) / np.float64(b)


def s_mean(seq):
    seq = list(seq)
    if not seq:
        return NAN
    return np_div(s_sum(seq), len(seq))


def s_var(seq, ddof=0):
    seq = list(seq)
    n = len(seq)
    if n - ddof <= 0:
        return NAN if not (n and n - ddof == 0) else NAN
    m = s_mean(seq)
    return np_div(s_sum([(e - m) * (e - m) for e in seq]), n - ddof)


def s_std(seq, ddof=0):
    return k_sqrt(s_var(seq, ddof))


def s_sorted(seq):
    """sorted list of terms by a min/max network (no forking) for small n,
    merge by If-terms."""
    seq = [plain(e) for e in seq]
    if any(not is_sym(e) and e != e for e in seq):
        raise ValueError("nan in sort")
    n = len(seq)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = seq[j], seq[j + 1]
            c = a <= b
            if c is True or c is np.True_:
                continue
            seq[j], seq[j + 1] = ite(c, a, b), ite(c, b, a)
    return seq


def s_sorted_fork(seq):
    return sorted(seq, key=functools.cmp_to_key(lambda a, b: -1 if a < b else (1 if a > b else 0)))


def s_quantile(seq, q, fork=False):
    """numpy 'linear' interpolation."""
    s = s_sorted(seq) if not fork else s_sorted_fork(seq)
    n = len(s)
    if n == 0:
        return NAN
    from fractions import Fraction
    pos = V.frac(q) * (n - 1) if not is_sym(q) else q * (n - 1)
    if is_sym(pos):
        lo = int(math.floor(pos))
        g = pos - lo
    else:
        lo = int(math.floor(pos))
        g = pos - lo
        g = float(g)
    if lo >= n - 1:
        return s[n - 1]
    if not is_sym(g) and g == 0:
        return s[lo]
    return s[lo] + (s[lo + 1] - s[lo]) * g


def s_median(seq):
    seq = list(seq)
    if any(not is_sym(e) and e != e for e in seq):
        return NAN
    n = len(seq)
    if n == 0:
        return NAN
    s = s_sorted(seq)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def s_max(seq):
    seq = list(seq)
    if not seq:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return functools.reduce(k_max, seq)


def s_min(seq):
    seq = list(seq)
    if not seq:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    return functools.reduce(k_min, seq)


def reduce_axis(f, x, axis=None, keepdims=False):
    a = to_obj(x)
    if axis is None:
        r = f(list(a.reshape(-1)))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[(0,) * a.ndim] = r
            return o
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return reduce_axis(f, x, None, keepdims)
        raise V.Unsupported("tuple axis")
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, -1)
    shp = m.shape[:-1]
    out = np.empty(shp, dtype=object)
    for idx in itertools.product(*[range(k) for k in shp]):
        out[idx] = f(list(m[idx]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return unwrap0(out)


# ------------------------------------------------------------ np wrapper
class UfuncProxy(object):
    """Callable that keeps attributes (.reduce, .accumulate, ...) of the ufunc."""

    def __init__(self, orig, fn):
        self._orig = orig
        self._fn = fn

    def __call__(self, *a, **k):
        return self._fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self._orig, n)


def _unary(name, kernel, boolean=False):
    orig = getattr(np, name)

    def fn(x, *a, **k):
        if has_sym(x):
            if a or k:
                where = k.pop("where", None)
                out = k.pop("out", None)
                r = vmap(kernel, x, boolean)
                if out is not None:
                    out[...] = r
                    return out
                return r
            return vmap(kernel, x, boolean)
        if is_obj(x) and active():
            x2 = like(x, to_obj(x).astype(float))
            return orig(x2, *a, **k)
        return orig(x, *a, **k)

    return UfuncProxy(orig, fn)


def _binary(name, kernel):
    orig = getattr(np, name)

    def fn(x, y, *a, **k):
        where, into = k.get("where", True), k.get("out")
        if has_sym(x) or has_sym(y) or has_sym(where):
            xa, ya, wa = np.broadcast_arrays(to_obj(x), to_obj(y), to_obj(where))
            out = np.empty(xa.shape, dtype=object)
            if into is not None:
                out[...] = to_obj(into)
            o = out.reshape(-1)
            for i, (p, q, w) in enumerate(zip(xa.reshape(-1), ya.reshape(-1), wa.reshape(-1))):
                if bool(w):
                    o[i] = kernel(p, q)
            if into is not None and is_obj(into) and into.shape == out.shape:
                into[...] = out
                return into
            if out.ndim == 0:
                return out[()]
            return like(x if isinstance(x, (pd.Series, pd.DataFrame)) else y, out)
        return orig(x, y, *a, **k)

    return UfuncProxy(orig, fn)


def _ffix(fn, name):
    fn.__name__ = name
    return fn


def _reduction(name, scalar, nanskip=False, kwmap=()):
    orig = getattr(np, name)

    def fn(x, *a, **k):
        if not has_sym(x):
            if active() and is_obj(x):
                y = to_obj(x)
                try:
                    x = like(x, y.astype(float))
                except (TypeError, ValueError):
                    pass
            return orig(x, *a, **k)
        axis = k.pop("axis", None)
        a = list(a)
        if a:
            axis = a.pop(0)
        keep = k.pop("keepdims", False)
        k.pop("dtype", None)
        extra = {n: k.pop(n) for n in kwmap if n in k}
        if a or k:
            raise V.Unsupported("np.%s args %r %r" % (name, a, k))
        if isinstance(x, pd.DataFrame) and axis is None and name in ("mean", "sum", "max", "min", "std", "var", "median"):
            axis = 0
        f = (lambda s: scalar(notnan(s), **extra)) if nanskip else (lambda s: scalar(s, **extra))
        r = reduce_axis(f, x, axis, keep)
        if isinstance(x, pd.DataFrame) and axis == 0:
            r = pd.Series(r, index=x.columns)
        return r

    return _ffix(fn, name)


def _nanprop(f):
    def g(seq, **k):
        seq = list(seq)
        if any(not is_sym(e) and e != e for e in seq):
            return NAN
        return f(seq, **k)

    return g


def _quant(name, scale, nanskip):
    orig = getattr(np, name)

    def fn(x, q, axis=None, *a, **k):
        if not has_sym(x) and not has_sym(q):
            if active() and is_obj(x):
                x = to_obj(x).astype(float)
            return orig(x, q, axis, *a, **k)
        qs = np.asarray(q) if not is_sym(q) else None

        def one(qq):
            qv = (V.frac(qq) / scale) if not is_sym(qq) else qq / scale

            def f(s):
                if nanskip:
                    s = notnan(s)
                elif any(not is_sym(e) and e != e for e in s):
                    return NAN
                return s_quantile(s, qv)

            return reduce_axis(f, x, axis)

        if qs is None or qs.ndim == 0:
            return one(q if qs is None else qs.item())
        rs = [one(e) for e in qs.reshape(-1)]
        if all(not isinstance(r, np.ndarray) for r in rs):
            o = np.empty(len(rs), dtype=object)
            for i, r in enumerate(rs):
                o[i] = r
            return o
        return np.stack(rs)

    return _ffix(fn, name)


def _alloc(name):
    orig = getattr(np, name)

    def fn(*a, **k):
        if not active():
            return orig(*a, **k)
        dt = k.get("dtype")
        if dt is None:
            pos = {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "zeros_like": 1, "ones_like": 1,
                   "empty_like": 1, "full_like": 2}[name]
            if len(a) > pos:
                dt = a[pos]
        if name in ("full", "full_like"):
            val = a[1] if len(a) > 1 else k["fill_value"]
            if has_sym(val):
                shp = a[0] if name == "full" else np.shape(a[0])
                o = np.empty(shp, dtype=object)
                o.fill(val) if is_sym(val) else o.__setitem__(Ellipsis, val)
                return o
        if dt is not None:
            try:
                if np.dtype(dt).kind != "f":
                    return orig(*a, **k)
            except TypeError:
                return orig(*a, **k)
        if name.endswith("_like") and is_obj(a[0]):
            base = orig(to_obj(a[0]).astype(object) if name == "empty_like" else np.empty(np.shape(a[0])), *a[1:], **k)
        else:
            base = orig(*a, **k)
        if base.dtype.kind != "f":
            return base
        if name.startswith("empty"):
            base = np.zeros(base.shape)
        return npfloat_obj(base)

    return _ffix(fn, name)


def _arr(name):
    orig = getattr(np, name)

    def fn(x, *a, **k):
        if not active():
            return orig(x, *a, **k)
        dt = k.get("dtype", a[0] if a else None)
        if dt is not None and has_sym(x):
            try:
                kind = np.dtype(dt).kind
            except TypeError:
                kind = "O"
            if kind == "f":
                k = {kk: vv for kk, vv in k.items() if kk != "dtype"}
                return orig(to_obj(x), dtype=object, **k) if name != "asarray" else to_obj(x)
        return orig(x, *a, **k)

    return _ffix(fn, name)


def sx_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if has_sym(a) or has_sym(b):
        def k(p, q):
            if not is_sym(p) and not is_sym(q):
                return bool(np.isclose(p, q, rtol, atol, equal_nan))
            return abs(p - q) <= (atol + rtol * abs(q))
        return _binary_apply(k, a, b)
    return np.isclose(a, b, rtol, atol, equal_nan)


def _binary_apply(kernel, x, y):
    xa, ya = np.broadcast_arrays(to_obj(x), to_obj(y))
    out = np.empty(xa.shape, dtype=object)
    o = out.reshape(-1)
    for i, (p, q) in enumerate(zip(xa.reshape(-1), ya.reshape(-1))):
        o[i] = kernel(p, q)
    return unwrap0(out)


def sx_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if has_sym(x):
        def k(e):
            if is_sym(e):
                return e
            return float(np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf))
        return vmap(k, x)
    if active() and is_obj(x):
        x = to_obj(x).astype(float)
    return np.nan_to_num(x, copy, nan, posinf, neginf)


def sx_clip(a, lo, hi, **k):
    if has_sym(a) or has_sym(lo) or has_sym(hi):
        r = a
        if lo is not None:
            r = _binary_apply(k_max, r, lo)
        if hi is not None:
            r = _binary_apply(k_min, r, hi)
        return like(a, r)
    return np.clip(a, lo, hi, **k)


def sx_where(c, *xy):
    if not xy:
        if has_sym(c):
            return np.where(to_obj(c).astype(bool))
        return np.where(c)
    if has_sym(c):
        ca, xa, ya = np.broadcast_arrays(to_obj(c), to_obj(xy[0]), to_obj(xy[1]))
        out = np.empty(ca.shape, dtype=object)
        o = out.reshape(-1)
        for i, (p, q, r) in enumerate(zip(ca.reshape(-1), xa.reshape(-1), ya.reshape(-1))):
            o[i] = ite(p, q, r)
        return unwrap0(out)
    return np.where(c, *xy)


def sx_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if not has_sym(m) and not has_sym(y):
        return np.cov(m, y, rowvar, bias, ddof, **k)
    X = to_obj(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if y is not None:
        X = np.vstack([X, to_obj(y).reshape(1, -1)])
    if ddof is None:
        ddof = 0 if bias else 1
    p, n = X.shape
    ms = [s_mean(list(X[i])) for i in range(p)]
    out = np.empty((p, p), dtype=object)
    for i in range(p):
        for j in range(p):
            out[i, j] = s_sum([(X[i, t] - ms[i]) * (X[j, t] - ms[j]) for t in range(n)]) / (n - ddof)
    if p == 1:
        return out[0, 0]
    return out


def sx_average(a, axis=None, weights=None, returned=False):
    if not has_sym(a) and not has_sym(weights):
        if active():
            if is_obj(a):
                a = to_obj(a).astype(float)
            if is_obj(weights):
                weights = to_obj(weights).astype(float)
        return np.average(a, axis, weights, returned)
    A = to_obj(a)
    if weights is None:
        return REDUCE["mean"](a, axis=axis)
    W = to_obj(weights)
    if W.ndim == 1 and A.ndim > 1:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if W.shape[0] != A.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        sh = [1] * A.ndim
        sh[axis] = W.shape[0]
        W = W.reshape(sh)
    scl = s_sum(list(W.reshape(-1))) if True else None
    WA, AA = np.broadcast_arrays(W, A)
    num = reduce_axis(s_sum, WA * AA, axis)
    den = reduce_axis(s_sum, WA, axis)
    if any(is_sym(z) and False for z in [den]):
        pass
    dl = [den] if not isinstance(den, np.ndarray) else list(den.reshape(-1))
    for z in dl:
        if z == 0:
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    if isinstance(num, np.ndarray):
        return _binary_apply(np_div, num, den)
    return np_div(num, den)


def sx_polyfit(x, y, deg, *a, **k):
    if not has_sym(x) and not has_sym(y):
        return np.polyfit(np.asarray(x, dtype=float), np.asarray(y, dtype=float), deg, *a, **k)
    # least squares by exact normal equations (x concrete or symbolic)
    xs = list(to_obj(x))
    ys = list(to_obj(y))
    A = [[(xi ** p if p else 1.0) for p in range(deg, -1, -1)] for xi in xs]
    m = deg + 1
    N = [[s_sum([A[i][p] * A[i][q] for i in range(len(xs))]) for q in range(m)] for p in range(m)]
    b = [s_sum([A[i][p] * ys[i] for i in range(len(xs))]) for p in range(m)]
    return np.array(gauss(N, b), dtype=object)


def _fr(v):
    from fractions import Fraction
    if is_sym(v):
        return v
    return V.frac(v)


def gauss(N, b):
    """exact Gaussian elimination (concrete entries as fractions; pivots forked when symbolic)."""
    n = len(N)
    M = [[_fr(N[i][j]) for j in range(n)] + [_fr(b[i])] for i in range(n)]
    for c in range(n):
        piv = None
        for r in range(c, n):
            v = M[r][c]
            if (not is_sym(v) and v != 0) or (is_sym(v) and bool(v != 0)):
                piv = r
                break
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[piv] = M[piv], M[c]
        for r in range(n):
            if r != c and (is_sym(M[r][c]) or M[r][c] != 0):
                f = _fdiv(M[r][c], M[c][c])
                M[r] = [M[r][j] - f * M[c][j] for j in range(n + 1)]
    return [_unfrac(_fdiv(M[i][n], M[i][i])) for i in range(n)]


def _fdiv(a, b):
    return a / b


def _unfrac(v):
    return v if is_sym(v) else float(v)


def sx_inv(a):
    if not has_sym(a):
        return np.linalg.inv(np.asarray(a, dtype=float) if is_obj(a) else a)
    A = to_obj(a)
    n = A.shape[0]
    cols = []
    for j in range(n):
        cols.append(gauss([list(A[i]) for i in range(n)], [1.0 if i == j else 0.0 for i in range(n)]))
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = cols[j][i]
    return out


def sx_det(a):
    if not has_sym(a):
        return np.linalg.det(np.asarray(a, dtype=float) if is_obj(a) else a)
    A = to_obj(a)
    n = A.shape[0]
    tot = 0.0
    for perm in itertools.permutations(range(n)):
        sgn = 1
        for i in range(n):
            for j in range(i):
                if perm[j] > perm[i]:
                    sgn = -sgn
        pr = 1.0
        for i in range(n):
            pr = pr * A[i, perm[i]]
        tot = tot + pr * sgn
    return tot


def sx_solve(a, b):
    if not has_sym(a) and not has_sym(b):
        return np.linalg.solve(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    A, B = to_obj(a), to_obj(b)
    if B.ndim == 1:
        return np.array(gauss([list(r) for r in A], list(B)), dtype=object)
    cols = [gauss([list(r) for r in A], list(B[:, j])) for j in range(B.shape[1])]
    return np.array(cols, dtype=object).T


class LinalgProxy(object):
    inv = staticmethod(sx_inv)
    det = staticmethod(sx_det)
    solve = staticmethod(sx_solve)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


def sx_diag(v, k=0):
    if has_sym(v) and np.ndim(v) == 1 and k == 0:
        n = len(v)
        o = npfloat_obj(np.zeros((n, n)))
        for i in range(n):
            o[i, i] = to_obj(v)[i]
        return o
    r = np.diag(v, k)
    if active() and np.ndim(v) == 1 and r.dtype.kind == "f":
        return npfloat_obj(r)
    return r


def sx_array_equal(a, b, *args, **k):
    return np.array_equal(a, b, *args, **k)


def sx_vectorize(*a, **k):
    return np.vectorize(*a, **k)


def sx_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def sx_convolve(a, v, mode="full"):
    if has_sym(a) or has_sym(v):
        A, W = list(to_obj(a)), list(to_obj(v))
        if len(W) > len(A):
            A, W = W, A
        n, m = len(A), len(W)
        full = []
        for i in range(n + m - 1):
            full.append(s_sum([A[j] * W[i - j] for j in range(max(0, i - m + 1), min(n, i + 1))]))
        if mode == "full":
            r = full
        elif mode == "same":
            s = (m - 1) // 2
            r = full[s:s + n]
        else:
            r = full[m - 1:n]
        return to_obj(r)
    if active():
        a = np.asarray(a, dtype=float) if is_obj(a) else a
        v = np.asarray(v, dtype=float) if is_obj(v) else v
    return np.convolve(a, v, mode)


def sx_round(a, decimals=0, out=None):
    if has_sym(a):
        return vmap(lambda e: round(e, decimals) if is_sym(e) else np.round(e, decimals), a)
    return np.round(a, decimals)


def sx_float64(x=0.0):
    return x if is_sym(x) else np.float64(x)


def sx_sort(a, axis=-1, **k):
    if has_sym(a):
        A = to_obj(a)
        if A.ndim == 1:
            return to_obj(s_sorted_fork(list(A)))
    return np.sort(a, axis, **k)


def sx_sum(x, *a, **k):
    return _orig_sum(x, *a, **k)


REDUCE = {
    "mean": _reduction("mean", _nanprop(s_mean)),
    "sum": _reduction("sum", _nanprop(s_sum)),
    "max": _reduction("max", _nanprop(s_max)),
    "min": _reduction("min", _nanprop(s_min)),
    "amax": _reduction("amax", _nanprop(s_max)),
    "amin": _reduction("amin", _nanprop(s_min)),
    "var": _reduction("var", _nanprop(s_var), kwmap=("ddof",)),
    "std": _reduction("std", _nanprop(s_std), kwmap=("ddof",)),
    "median": _reduction("median", s_median),
    "nanmean": _reduction("nanmean", s_mean, True),
    "nansum": _reduction("nansum", s_sum, True),
    "nanmax": _reduction("nanmax", s_max, True),
    "nanmin": _reduction("nanmin", s_min, True),
    "nanvar": _reduction("nanvar", s_var, True, ("ddof",)),
    "nanstd": _reduction("nanstd", s_std, True, ("ddof",)),
    "nanmedian": _reduction("nanmedian", s_median, True),
}


class SxMasked(object):
    def __init__(self, data, mask):
        self.data, self.mask = to_obj(data), np.broadcast_to(np.asarray(mask), np.shape(data))
        self.shape, self.ndim = self.data.shape, self.data.ndim


class MAProxy(object):
    """np.ma for the masked mean used by the error metrics"""

    @staticmethod
    def MaskedArray(data, mask=False, **k):
        if has_sym(data):
            return SxMasked(data, mask)
        if active() and is_obj(data):
            data = to_obj(data).astype(float)
        return np.ma.MaskedArray(data, mask, **k)

    masked_array = MaskedArray
    array = MaskedArray

    @staticmethod
    def masked_invalid(a, **k):
        if has_sym(a):
            return SxMasked(a, vmap(lambda e: not k_isfinite(e), a, True))
        return np.ma.masked_invalid(a, **k)

    @staticmethod
    def average(a, axis=None, weights=None, **k):
        if not isinstance(a, SxMasked):
            if not has_sym(weights) and not has_sym(a):
                return np.ma.average(a, axis=axis, weights=weights, **k)
            if isinstance(a, np.ma.MaskedArray):
                a = SxMasked(np.asarray(a.data, dtype=object), np.ma.getmaskarray(a))
            else:
                a = SxMasked(a, np.zeros(np.shape(a), dtype=bool))
        D, M = a.data, a.mask
        W = npfloat_obj(np.ones(D.shape)) if weights is None else to_obj(weights)
        if W.ndim == 1 and D.ndim == 2:
            W = np.broadcast_to(W.reshape(-1, 1) if axis == 0 else W, D.shape)

        def wm(i):
            ws = [w for w, m in zip(i[1], i[2]) if not m]
            vs = [v for v, m in zip(i[0], i[2]) if not m]
            if not vs:
                return np.ma.masked
            return np_div(s_sum([v * w for v, w in zip(vs, ws)]), s_sum(ws))

        if D.ndim == 1 or axis is None:
            return wm((list(D.reshape(-1)), list(W.reshape(-1)), list(M.reshape(-1))))
        if axis != 0:
            D, W, M = D.T, W.T, M.T
        out = np.empty(D.shape[1], dtype=object)
        for j in range(D.shape[1]):
            out[j] = wm((list(D[:, j]), list(W[:, j]), list(M[:, j])))
        return out

    def __getattr__(self, n):
        return getattr(np.ma, n)


class NPProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        d = self.__dict__
        d["__name__"] = "numpy"
        d.update(REDUCE)
        d["isnan"] = _unary("isnan", k_isnan, True)
        d["isneginf"] = _unary("isneginf", lambda e: False if is_sym(e) else bool(np.isneginf(float(e))), True)
        d["isposinf"] = _unary("isposinf", lambda e: False if is_sym(e) else bool(np.isposinf(float(e))), True)
        d["ma"] = MAProxy()
        d["isinf"] = _unary("isinf", k_isinf, True)
        d["isfinite"] = _unary("isfinite", k_isfinite, True)
        for nm in ("exp", "sin", "cos", "tanh", "arctan", "floor", "ceil", "rint", "trunc", "sign",
                   "square", "log1p", "log2", "log10", "expm1"):
            d[nm] = _unary(nm, _m1(nm, getattr(np, nm)))
        d["log"] = _unary("log", k_log)
        d["sqrt"] = _unary("sqrt", k_sqrt)
        d["abs"] = d["absolute"] = _unary("abs", k_abs)
        d["fabs"] = _unary("fabs", k_abs)
        d["maximum"] = _binary("maximum", k_max)
        d["minimum"] = _binary("minimum", k_min)
        d["fmax"] = _binary("fmax", lambda a, b: b if (not is_sym(a) and a != a) else (a if (not is_sym(b) and b != b) else k_max(a, b)))
        d["fmin"] = _binary("fmin", lambda a, b: b if (not is_sym(a) and a != a) else (a if (not is_sym(b) and b != b) else k_min(a, b)))
        d["divide"] = d["true_divide"] = _binary("divide", np_div)
        d["power"] = _binary("power", lambda a, b: a ** b)
        for nm in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like"):
            d[nm] = _alloc(nm)
        for nm in ("array", "asarray", "asanyarray", "ascontiguousarray"):
            d[nm] = _arr(nm)
        d["isclose"] = sx_isclose
        d["nan_to_num"] = sx_nan_to_num
        d["clip"] = sx_clip
        d["where"] = sx_where
        d["cov"] = sx_cov
        d["average"] = sx_average
        d["polyfit"] = sx_polyfit
        d["percentile"] = _quant("percentile", 100, False)
        d["quantile"] = _quant("quantile", 1, False)
        d["nanpercentile"] = _quant("nanpercentile", 100, True)
        d["nanquantile"] = _quant("nanquantile", 1, True)
        d["linalg"] = LinalgProxy()
        d["diag"] = sx_diag
        d["isscalar"] = sx_isscalar
        d["convolve"] = sx_convolve
        d["round"] = d["around"] = sx_round
        d["sort"] = sx_sort

    def __getattr__(self, n):
        return getattr(np, n)

    def __dir__(self):
        return dir(np)


NPX = NPProxy()


# ------------------------------------------------------------ math
def _math1(name, kernel):
    orig = getattr(math, name)

    def fn(x, *a):
        if is_sym(x):
            return kernel(x, *a)
        return orig(x, *a)

    return fn


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "math")
        d = self.__dict__

        def msqrt(x):
            r = V.sym_sqrt(x)
            if not is_sym(r) and r != r:
                raise ValueError("math domain error")
            return r

        def mlog(x, *a):
            if a:
                return mlog(x) / mlog(a[0])
            if is_sym(x):
                r = V.sym_log(x)
                if not is_sym(r) and (r != r or r == -INF):
                    raise ValueError("math domain error")
                return r
            return math.log(x)

        d["sqrt"] = _math1("sqrt", msqrt)
        d["log"] = mlog
        d["exp"] = _math1("exp", lambda x: x.exp())
        d["fabs"] = _math1("fabs", abs)
        d["floor"] = _math1("floor", lambda x: x.__floor__())
        d["ceil"] = _math1("ceil", lambda x: x.__ceil__())
        d["isnan"] = _math1("isnan", lambda x: False)
        d["isinf"] = _math1("isinf", lambda x: False)
        d["isfinite"] = _math1("isfinite", lambda x: True)
        d["pow"] = lambda a, b: a ** b if (is_sym(a) or is_sym(b)) else math.pow(a, b)
        for nm in ("sin", "cos", "tanh", "log2", "log10", "log1p", "expm1"):
            d[nm] = _math1(nm, (lambda q: lambda x: getattr(x, q)())(nm))

    def __getattr__(self, n):
        return getattr(math, n)


MATHX = MathProxy()


# ------------------------------------------------------------ builtins used by kats
def sx_float(*a):
    if a and is_sym(a[0]):
        x = a[0]
        return mk(V.z3.ToReal(x.t)) if issubclass(type(x), SymInt) else (
            x if issubclass(type(x), SymReal) else ite(x, 1.0, 0.0))
    if a and isinstance(a[0], (np.ndarray, pd.Series)) and a[0].size == 1 and has_sym(a[0]):
        return sx_float(to_obj(a[0]).reshape(-1)[0])
    return float(*a)


def sx_astype(obj, *a, **k):
    if not active() or not isinstance(obj, (np.ndarray, pd.Series, pd.DataFrame)):
        return obj.astype(*a, **k)
    dt = a[0] if a else k.get("dtype")
    try:
        kind = np.dtype(dt).kind
    except TypeError:
        kind = "?"
    if has_sym(obj):
        if kind == "f":
            return obj.copy()
        if kind in "iu":
            return vmap(lambda e: int(e) if not is_sym(e) else mk(
                V.z3.If(e.t, V.z3.IntVal(1), V.z3.IntVal(0)) if issubclass(type(e), SymBool) else V.trunc_term(e.t)), obj)
    return obj.astype(*a, **k)


def sx_min(*a, **k):
    if not k:
        seq = a if len(a) > 1 else tuple(a[0])
        if any(issubclass(type(e), V._Sym) for e in seq):
            r = seq[0]
            for e in seq[1:]:
                r = ite(e < r, e, r)
            return r
        return min(seq) if len(a) == 1 else min(*a)
    return min(*a, **k)


def sx_max(*a, **k):
    if not k:
        seq = a if len(a) > 1 else tuple(a[0])
        if any(issubclass(type(e), V._Sym) for e in seq):
            r = seq[0]
            for e in seq[1:]:
                r = ite(e > r, e, r)
            return r
        return max(seq) if len(a) == 1 else max(*a)
    return max(*a, **k)


class _Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = []
        self.mod = modname

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = self.mod + ":" + ".".join(self.stack)
        self.stack.pop()
        hit = ast.parse("__sx_hit__(%r)" % q).body[0]
        ast.copy_location(hit, node.body[0])
        ast.fix_missing_locations(hit)
        i = 0
        if (isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)):
            i = 1
        node.body.insert(i, hit)
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("float", "min", "max"):
            node.func = ast.copy_location(ast.Name("__sx_%s__" % f.id, ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == "astype":
            node.args = [f.value] + node.args
            node.func = ast.copy_location(ast.Name("__sx_astype__", ast.Load()), f)
        return node


def _install_builtins():
    builtins.__sx_float__ = sx_float
    builtins.__sx_min__ = sx_min
    builtins.__sx_max__ = sx_max
    builtins.__sx_astype__ = sx_astype
    builtins.__sx_hit__ = HITS.add


def _install_import_hook():
    L = importlib.machinery.SourceFileLoader
    orig = L.source_to_code
    root = REPO + "/kats/"

    def source_to_code(self, data, path, *a, **k):
        p = str(path)
        if p.startswith(root) and "/tests/" not in p:
            tree = ast.parse(data, p)
            mod = p[len(REPO) + 1:-3].replace("/", ".")
            tree = _Rewrite(mod).visit(tree)
            ast.fix_missing_locations(tree)
            return compile(tree, p, "exec", dont_inherit=True)
        return orig(self, data, path, *a, **k)

    L.source_to_code = source_to_code
    # never use cached bytecode for kats
    origc = L.get_code

    def get_code(self, fullname):
        if fullname.split(".")[0] == "kats":
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)
        return origc(self, fullname)

    L.get_code = get_code


REPL = {}  # id(original object) -> replacement, for kats module globals


def register_replacement(orig, new):
    REPL[id(orig)] = (orig, new)


def patch_kats_modules():
    for name, m in list(sys.modules.items()):
        if (name == "kats" or name.startswith("kats.")) and m is not None:
            d = m.__dict__
            for k, v in list(d.items()):
                r = REPL.get(id(v))
                if r is not None and r[0] is v:
                    d[k] = r[1]


def install():
    sys.path.insert(0, REPO) if REPO not in sys.path else None
    _install_builtins()
    _install_import_hook()
    from . import pdshim, spshim, smshim
    pdshim.install()
    register_replacement(np, NPX)
    register_replacement(math, MATHX)
    for nm in ("sqrt", "log", "exp", "floor", "ceil", "fabs", "isnan", "pow"):
        register_replacement(getattr(math, nm), getattr(MATHX, nm))
    register_replacement(np.linalg.inv, sx_inv)
    spshim.install()
    smshim.install()
