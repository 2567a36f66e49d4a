"""statsmodels least squares on symbolic observations: exact solution of the normal equations (concrete design)."""
import types
from fractions import Fraction

import numpy as np

from . import shim as S
from . import values as V
from .core import frac


def _finv(X):
    """(X'X)^-1 as fractions"""
    n, k = len(X), len(X[0])
    A = [[sum(X[r][i] * X[r][j] for r in range(n)) for j in range(k)] + [Fraction(int(i == j)) for j in range(k)] for i in range(k)]
    for c in range(k):
        p = next((r for r in range(c, k) if A[r][c] != 0), None)
        if p is None:
            raise V.Unsupported("rank deficient design")
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(k):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [row[k:] for row in A]


def _mat(X):
    X = np.asarray(X)
    if S.has_sym(X):
        raise V.Unsupported("symbolic design matrix")
    X = X.astype(float)
    if X.ndim == 1:
        X = X[:, None]
    return [[frac(float(e)) for e in row] for row in X]


def lsq(X, y):
    """coefficients, inverse Gram matrix, residuals"""
    X = _mat(X)
    y = [e for e in np.asarray(y, dtype=object).reshape(-1)]
    G = _finv(X)
    k = len(G)
    W = [[sum(G[i][j] * X[r][j] for j in range(k)) for r in range(len(X))] for i in range(k)]
    b = [S.s_sum([float(W[i][r]) * y[r] if not V.is_sym(y[r]) else y[r] * W[i][r] for r in range(len(X))]) for i in range(k)]
    res = [y[r] - S.s_sum([b[i] * X[r][i] if V.is_sym(b[i]) else b[i] * float(X[r][i]) for i in range(k)]) for r in range(len(X))]
    return b, G, res, X


def _arr(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


class OLSResults(object):
    def __init__(self, y, X):
        b, G, res, Xf = lsq(X, y)
        self.params = _arr(b)
        self._G, self._X = G, Xf
        self.resid = _arr(res)
        self.nobs = float(len(res))
        self.df_resid = float(len(res) - len(b))
        self.ssr = S.s_sum([r * r for r in res])
        self.mse_resid = self.scale = self.ssr / self.df_resid if self.df_resid else V.NAN
        self.fittedvalues = _arr([self._at(x) for x in Xf])
        self.model = types.SimpleNamespace(exog=X, weights=1.0)

    def _at(self, row):
        return S.s_sum([p * x if V.is_sym(p) else p * float(x) for p, x in zip(self.params, row)])

    def predict(self, exog=None, *a, **k):
        return _arr([self._at(x) for x in (self._X if exog is None else _mat(exog))])

    def lever(self, row):
        k = len(row)
        return sum(row[i] * self._G[i][j] * row[j] for i in range(k) for j in range(k))


def install():
    import statsmodels.api as sm
    from statsmodels.sandbox.regression.predstd import wls_prediction_std as wo
    from scipy import stats, optimize

    class OLS(object):
        def __init__(self, endog, exog=None, *a, **k):
            self.y, self.X = endog, exog

        def fit(self, *a, **k):
            return OLSResults(self.y, self.X)

    def ols(endog, exog=None, *a, **k):
        if S.active() and S.has_sym(endog):
            return OLS(endog, exog)
        return sm.OLS(endog, exog, *a, **k)

    class SMProxy(types.ModuleType):
        def __getattr__(self, k):
            return ols if k == "OLS" else getattr(sm, k)

    S.register_replacement(sm, SMProxy("statsmodels.api"))
    S.register_replacement(sm.OLS, ols)

    def wls_prediction_std(res, exog=None, weights=None, alpha=0.05):
        if not isinstance(res, OLSResults):
            return wo(res, exog, weights, alpha)
        rows = res._X if exog is None else _mat(exog)
        if len(rows[0]) != len(res.params):
            raise ValueError("wrong shape of exog")
        sd = [V.sym_sqrt(res.mse_resid * (1 + res.lever(r))) if V.is_sym(res.mse_resid)
              else (res.mse_resid * float(1 + res.lever(r))) ** 0.5 for r in rows]
        q = float(stats.t.isf(alpha / 2.0, res.df_resid))
        fc = res.predict(exog)
        return _arr(sd), _arr([f - q * s for f, s in zip(fc, sd)]), _arr([f + q * s for f, s in zip(fc, sd)])

    S.register_replacement(wo, wls_prediction_std)

    lo = np.linalg.lstsq

    def lstsq(a, b, rcond="warn"):
        if not S.active() or not S.has_sym(b):
            return lo(a, b, rcond=rcond)
        p, _, res, _ = lsq(a, b)
        return _arr(p), _arr([S.s_sum([r * r for r in res])]), len(p), None

    S.LinalgProxy.lstsq = staticmethod(lstsq)

    co = optimize.curve_fit

    def curve_fit(f, xdata, ydata, p0=None, *a, **k):
        """model functions linear in their parameters only (checked at a second point)"""
        if not S.active() or not S.has_sym(ydata):
            return co(f, xdata, ydata, p0, *a, **k)
        n = len(p0)
        base = np.asarray(f(xdata, *([0.0] * n)), dtype=float)
        cols = [np.asarray(f(xdata, *[1.0 if j == i else 0.0 for j in range(n)]), dtype=float) - base for i in range(n)]
        probe = np.asarray(f(xdata, *[2.0 + i for i in range(n)]), dtype=float)
        if not np.allclose(probe, base + sum((2.0 + i) * c for i, c in enumerate(cols))):
            raise V.Unsupported("curve_fit of a nonlinear function")
        X = np.column_stack(cols)
        p, _, _, _ = lsq(X, [y - float(b0) for y, b0 in zip(ydata, base)])
        return _arr(p), None

    class OptProxy(types.ModuleType):
        def __getattr__(self, k):
            return curve_fit if k == "curve_fit" else getattr(optimize, k)

    S.register_replacement(optimize, OptProxy("optimize"))
    S.register_replacement(co, curve_fit)
