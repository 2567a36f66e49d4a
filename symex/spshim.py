"""scipy / statsmodels functions on symbolic values.

Distribution functions with symbolic arguments are uninterpreted functions constrained by their mathematical
contract (range, monotonicity, symmetry); with concrete arguments the real scipy function runs.  When a
counterexample depends on an uninterpreted value, core.Engine refines it with the true value at that point."""
import math
import types
import numpy as np
import z3

from . import values as V
from . import shim as S


def _mono(memo, t, r, up=True):
    out = []
    for e in memo:
        us, q = e[0], e[1]
        a, b = (q < r, q > r) if up else (q > r, q < r)
        out += [z3.Implies(us[0] < t, a), z3.Implies(us[0] > t, b)]
    return out


def _ax_cdf_sym(ts, r, memo):
    """cdf of a distribution symmetric about 0"""
    t = ts[0]
    out = [r > 0, r < 1, z3.Implies(t > 0, 2 * r > 1), z3.Implies(t < 0, 2 * r < 1), z3.Implies(t == 0, 2 * r == 1)]
    for e in memo:
        us, q = e[0], e[1]
        out.append(z3.Implies(us[0] + t == 0, q + r == 1))
    return out + _mono(memo, t, r)


def _ax_ppf_sym(ts, r, memo):
    t = ts[0]
    out = [z3.Implies(2 * t > 1, r > 0), z3.Implies(2 * t < 1, r < 0), z3.Implies(2 * t == 1, r == 0)]
    for e in memo:
        us, q = e[0], e[1]
        out.append(z3.Implies(us[0] + t == 1, q + r == 0))
    return out + _mono(memo, t, r)


def _ax_cdf_pos(ts, r, memo):
    """cdf of a distribution on (0, inf)"""
    t = ts[0]
    out = [r >= 0, r < 1, z3.Implies(t <= 0, r == 0), z3.Implies(t > 0, r > 0)]
    for e in memo:
        us, q = e[0], e[1]
        out += [z3.Implies(z3.And(us[0] < t, t > 0), q < r), z3.Implies(z3.And(us[0] > t, us[0] > 0), q > r)]
    return out


def _ax_ppf_pos(ts, r, memo):
    return [r >= 0] + _mono(memo, ts[0], r)


def _clsym(*xs):
    return any(V.is_sym(x) for x in xs)


class Dist(object):
    """proxy of a scipy.stats distribution object"""

    def __init__(self, orig, kind, symmetric, nshape=0, locscale=True):
        self._o, self._kind, self._sym, self._ns, self._ls = orig, kind, symmetric, nshape, locscale

    def __getattr__(self, k):
        return getattr(self._o, k)

    def __call__(self, *a, **k):
        return self._o(*a, **k)

    def _split(self, a, k):
        a = list(a)
        shapes = a[:self._ns]
        rest = a[self._ns:]
        loc = rest[0] if len(rest) > 0 else 0
        scale = rest[1] if len(rest) > 1 else 1
        k = dict(k)
        if self._ns == 1 and not shapes:
            shapes = [k.pop("df")]
        loc, scale = k.pop("loc", loc), k.pop("scale", scale)
        return shapes, loc, scale

    def _apply(self, fn, name, x, a, k):
        anysym = any(S.has_sym(v) or (isinstance(v, np.ndarray) and v.dtype == object and S.active())
                     for v in [x] + list(a) + list(k.values()))
        if not S.active() or not anysym:
            def cv(v):
                if isinstance(v, np.ndarray) and v.dtype == object:
                    return v.astype(float)
                return v
            return getattr(self._o, name)(cv(x), *[cv(v) for v in a], **{q: cv(v) for q, v in k.items()})
        shapes, loc, scale = self._split(a, k)
        args = [np.asarray(S.unwrap0(v), dtype=object) if not V.is_sym(v) else v for v in [x, loc, scale] + shapes]
        f = np.frompyfunc(lambda *q: fn(*q), len(args), 1)
        r = f(*args)
        return S.unwrap0(r) if isinstance(r, np.ndarray) and r.ndim == 0 else r

    def _key(self, shapes):
        return "%s%s" % (self._kind, "".join(".%g" % float(s) for s in shapes))

    def _cdf1(self, x, loc, scale, *shapes):
        if not _clsym(x, loc, scale):
            return float(self._o.cdf(float(x), *[float(s) for s in shapes], loc=float(loc), scale=float(scale)))
        z = (x - loc) / scale
        if not V.is_sym(z):
            return float(self._o.cdf(float(z), *[float(s) for s in shapes]))
        sh = [float(s) for s in shapes]
        return V.uf(self._key(shapes) + ".cdf", z, axioms=_ax_cdf_sym if self._sym else _ax_cdf_pos,
                    concrete=lambda v: float(self._o.cdf(v, *sh)))

    def cdf(self, x, *a, **k):
        return self._apply(self._cdf1, "cdf", x, a, k)

    def sf(self, x, *a, **k):
        return self._apply(lambda *q: 1.0 - self._cdf1(*q), "sf", x, a, k)

    def _ppf1(self, q, loc, scale, *shapes):
        sh = [float(s) for s in shapes]
        if not _clsym(q):
            z = float(self._o.ppf(float(q), *sh))
        else:
            if bool(q <= 0) or bool(q >= 1):
                if bool(q < 0) or bool(q > 1):
                    return V.NAN
                z = V.INF if bool(q >= 1) else (-V.INF if self._sym else 0.0)
                return z
            z = V.uf(self._key(shapes) + ".ppf", q, axioms=_ax_ppf_sym if self._sym else _ax_ppf_pos,
                     concrete=lambda v: float(self._o.ppf(v, *sh)))
        return z * scale + loc

    def ppf(self, q, *a, **k):
        return self._apply(self._ppf1, "ppf", q, a, k)

    def isf(self, q, *a, **k):
        return self._apply(lambda q1, *r: self._ppf1(1 - q1, *r), "isf", q, a, k)

    def _logpdf_norm(self, x, loc, scale):
        if not _clsym(x, loc, scale):
            return float(self._o.logpdf(float(x), float(loc), float(scale)))
        z = (x - loc) / scale
        ls = V.sym_log(scale) if V.is_sym(scale) else math.log(scale)
        return z * z * (-0.5) - ls - 0.5 * math.log(2 * math.pi)

    def logpdf(self, x, *a, **k):
        if self._kind != "norm":
            return self._o.logpdf(x, *a, **k)
        return self._apply(self._logpdf_norm, "logpdf", x, a, k)

    def _pdf_norm(self, x, loc, scale):
        r = self._logpdf_norm(x, loc, scale)
        return V.uf("exp", r) if V.is_sym(r) else math.exp(r)

    def pdf(self, x, *a, **k):
        if self._kind != "norm":
            return self._o.pdf(x, *a, **k)
        return self._apply(self._pdf_norm, "pdf", x, a, k)


DISTS = {}


def _clean(x):
    return [e for e in np.asarray(x, dtype=object).ravel()]


def _make():
    from scipy import stats
    import scipy.stats
    for nm, kind, sym, ns in (("norm", "norm", True, 0), ("t", "t", True, 1), ("chi2", "chi2", False, 1)):
        o = getattr(stats, nm)
        DISTS[nm] = Dist(o, kind, sym, ns)
        S.register_replacement(o, DISTS[nm])
    tt = stats.ttest_ind

    def ttest_ind(a, b, axis=0, equal_var=True, nan_policy="propagate", **k):
        if not S.active() or not (S.has_sym(a) or S.has_sym(b)):
            if S.active():
                a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            return tt(a, b, axis=axis, equal_var=equal_var, nan_policy=nan_policy, **k)
        a, b = _clean(a), _clean(b)
        if nan_policy == "omit":
            a, b = S.notnan(a), S.notnan(b)
        n1, n2 = len(a), len(b)
        if n1 < 1 or n2 < 1:
            return V.NAN, V.NAN
        m1, m2 = S.s_mean(a), S.s_mean(b)
        v1 = S.s_var(a, 1) if n1 > 1 else V.NAN
        v2 = S.s_var(b, 1) if n2 > 1 else V.NAN
        if equal_var:
            df = n1 + n2 - 2
            if n1 == 1 or n2 == 1:
                return V.NAN, V.NAN
            sp = ((n1 - 1) * v1 + (n2 - 1) * v2) / df
            den = V.sym_sqrt(sp * (1.0 / n1 + 1.0 / n2))
        else:
            raise NotImplementedError("welch t-test")
        tv = S.np_div(m1 - m2, den)
        p = DISTS["t"].sf(abs(tv), df) * 2
        return tv, p

    S.register_replacement(tt, ttest_ind)

    from statsmodels.stats import multitest as MT
    mto = MT.multipletests

    def multipletests(pvals, alpha=0.05, method="hs", **k):
        if not S.active() or not S.has_sym(pvals):
            return mto(np.asarray(pvals, dtype=float), alpha=alpha, method=method, **k)
        if method not in ("fdr_bh", "bonferroni"):
            raise NotImplementedError("multiple test correction %s" % method)
        p = _clean(pvals)
        n = len(p)
        if method == "bonferroni":
            c = [S.k_min(x * n, 1.0) for x in p]
        else:
            idx = list(range(n))
            for i in range(n):
                for j in range(n - 1 - i):
                    if bool(p[idx[j]] > p[idx[j + 1]]):
                        idx[j], idx[j + 1] = idx[j + 1], idx[j]
            c = [None] * n
            cur = 1.0
            for r in range(n - 1, -1, -1):
                v = p[idx[r]] * n / (r + 1)
                cur = S.k_min(v, cur)
                c[idx[r]] = cur
        rej = np.empty(n, dtype=object)
        for i, x in enumerate(c):
            rej[i] = x <= alpha
        return rej, np.array(c, dtype=object), None, None

    class MTProxy(types.ModuleType):
        def __getattr__(self, k):
            if k == "multipletests":
                return multipletests
            return getattr(MT, k)

    S.register_replacement(MT, MTProxy("multitest"))
    S.register_replacement(mto, multipletests)

    zo = stats.zscore

    def zscore(a, axis=0, ddof=0, nan_policy="propagate"):
        if not S.active() or not S.has_sym(a):
            return zo(a, axis=axis, ddof=ddof, nan_policy=nan_policy)
        a = np.asarray(a, dtype=object)
        if a.ndim > 1 and axis == 0:
            cols = [zscore(a[:, i], 0, ddof, nan_policy) for i in range(a.shape[1])]
            out = np.empty(a.shape, dtype=object)
            for i, c in enumerate(cols):
                out[:, i] = c
            return out
        x = list(a)
        use = S.notnan(x) if nan_policy == "omit" else x
        if any(not V.is_sym(e) and e != e for e in use):
            out = np.empty(len(x), dtype=object)
            out[:] = V.NAN
            return out
        m, s = S.s_mean(use), S.s_std(use, ddof)
        out = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            out[i] = V.NAN if (not V.is_sym(e) and e != e) else S.np_div(e - m, s)
        return out

    S.register_replacement(zo, zscore)

    lse = scipy.special.logsumexp

    def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
        if not S.active() or not S.has_sym(a) or b is not None:
            return lse(a, axis=axis, b=b, keepdims=keepdims, return_sign=return_sign)

        def f(seq):
            fin = [e for e in seq if V.is_sym(e) or e != -V.INF]
            if not fin:
                return -V.INF
            if len(fin) == 1:
                return fin[0]
            return V.sym_log(S.s_sum([V.uf("exp", e) if V.is_sym(e) else math.exp(e) for e in fin]))

        return S.reduce_axis(f, a, axis, keepdims)

    S.register_replacement(lse, logsumexp)

    class StatsProxy(types.ModuleType):
        def __getattr__(self, k):
            if k in DISTS:
                return DISTS[k]
            o = getattr(stats, k)
            r = S.REPL.get(id(o))
            return r[1] if r is not None and r[0] is o else o

    S.register_replacement(stats, StatsProxy("stats"))
    import scipy

    class ScipyProxy(types.ModuleType):
        stats = None

        def __getattr__(self, k):
            return getattr(scipy, k)

    sp = ScipyProxy("scipy")
    sp.stats = StatsProxy("stats")
    S.register_replacement(scipy, sp)


def install():
    import scipy.special
    _make()
