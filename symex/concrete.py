"""Concrete counterpart of SymCtx: runs a harness on one assignment, on the
unpatched code.  Used for replaying counterexamples and validating paths."""
import os
import traceback

from .values import conc_eq, eval_in, _NUM
import math


class ReplayStop(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class ConcCtx(object):
    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.fresh = 0
        self.failures = []
        self.obs = []
        self.nchecks = 0
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def real(self, name, lo=-1000, hi=1000):
        d = 0.0
        if lo is not None and lo > 0:
            d = float(lo)
        v = float(self.vals.get(name, d))
        # model values are exact rationals; rounding to float may leave the range by an ulp
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def reals(self, prefix, n, lo=-1000, hi=1000):
        return [self.real("%s%d" % (prefix, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        return int(self.vals.get(name, lo))

    cint = int

    def bool(self, name):
        return bool(self.vals.get(name, False))

    cbool = bool

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def unknown_real(self, hint, lo=None, hi=None):
        self.fresh += 1
        return self.real("%s#%d" % (hint, self.fresh), lo, hi)

    def array(self, lst):
        import numpy as np
        return np.array(lst, dtype=float)

    def series(self, lst, **kw):
        import pandas as pd
        return pd.Series(self.array(lst), dtype=float, **kw)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label):
        self.nchecks += 1
        if not bool(cond):
            self.failures.append(label)

    def eq(self, got, want, label, tol=None):
        self.nchecks += 1
        self.observe(label, got)
        if not conc_eq(_u(got), _u(want)) and not (tol is not None and abs(float(got) - float(want)) <= tol):
            self.failures.append("%s: got %r want %r" % (label, got, want))

    def eq_list(self, got, want, label):
        got, want = list(got), list(want)
        self.check(len(got) == len(want), label + ": length")
        if len(got) == len(want):
            for i, (a, b) in enumerate(zip(got, want)):
                self.eq(a, b, "%s[%d]" % (label, i))

    def le(self, a, b, label):
        self.nchecks += 1
        a, b = float(a), float(b)
        if not a <= b + 1e-6 * (1 + abs(a) + abs(b)):
            self.failures.append("%s: %r <= %r" % (label, a, b))

    def observe(self, label, v):
        try:
            self.obs.append([label, eval_in(None, v)])
        except Exception:
            self.obs.append([label, None])

    def reach(self, label):
        pass

    def raises(self, exc, fn, label):
        self.nchecks += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.failures.append("%s (raised %s instead: %s)" % (label, type(e).__name__, str(e)[:200]))
            return False
        self.failures.append(label + " (did not raise)")
        return False

    def stop(self):
        raise ReplayStop()

    def ite(self, c, a, b):
        return a if c else b


def _u(x):
    import numpy as np
    if type(x) is np.ndarray and x.ndim == 0:
        return x.item()
    return x


def run(harness, vals):
    ctx = ConcCtx(vals)
    status = "ok"
    tb = ""
    try:
        harness(ctx)
    except ReplayStop:
        pass
    except AssumeFailed:
        status = "assume"
    except Exception as e:
        ctx.failures.append("unexpected %s: %s" % (type(e).__name__, str(e)[:300]))
        tb = traceback.format_exc()[-2500:]
    if status != "assume":
        status = "fail" if ctx.failures else "ok"
    return {"status": status, "failures": ctx.failures[:10], "obs": ctx.obs[-40:], "tb": tb,
            "checks": ctx.nchecks}
