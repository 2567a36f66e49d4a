"""Path-exploring symbolic execution engine.

Symbolic values are proxy objects (SymReal / SymInt / SymBool) that wrap z3
terms and travel through the *real* Kats / pandas / numpy code.  Whenever the
code needs a concrete truth value the engine asks the solver which sides are
feasible and explores every feasible side (depth first, by re-execution).
"""
import os
import sys
import time
import fractions
import math

_Z3PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vendor")
if _Z3PATH not in sys.path:
    sys.path.append(_Z3PATH)
import z3  # noqa

Fraction = fractions.Fraction
_CTX = z3.main_ctx().ref()
from . import fastz3  # noqa
if not os.environ.get("VERIF_SLOW_Z3"):
    fastz3.install(z3)
    fastz3.cache_refs(z3)
from z3 import z3core as _zc  # noqa
_assert = _zc.Z3_solver_assert
SLOW = os.environ.get("VERIF_SLOW")
FORKS = {} if os.environ.get("VERIF_FORKS") else None  # development aid: where paths split


class Abort(BaseException):
    """Path steering: never caught by code under test (BaseException)."""


class PathInfeasible(Abort):
    pass


class PathStop(Abort):
    pass


class BudgetExceeded(Abort):
    pass


class Unsupported(Abort):
    pass


# --------------------------------------------------------------- constants
_SNAP = {}


def frac(x):
    """Exact rational for a python number; floats are snapped to the simplest
    rational within 4 ulp (so 0.95 is 19/20), see DESIGN 'arithmetic'."""
    if isinstance(x, Fraction):
        return x
    if type(x) is bool:
        return fractions.Fraction(int(x))
    if isinstance(x, int):
        return fractions.Fraction(x)
    x = float(x)
    r = _SNAP.get(x)
    if r is None:
        ex = fractions.Fraction(x)
        r = ex
        tol = abs(ex) * fractions.Fraction(1, 2 ** 49)
        for d in (1, 1000, 10 ** 6, 10 ** 9):
            c = ex.limit_denominator(d)
            if abs(c - ex) <= tol:
                r = c
                break
        if len(_SNAP) < 100000:
            _SNAP[x] = r
    return r


_RV = {}


def rv(x):
    f = frac(x)
    r = _RV.get(f)
    if r is None:
        if f.denominator == 1:
            r = z3.RealVal(f.numerator)
        else:
            r = z3.Q(f.numerator, f.denominator)
        if len(_RV) < 100000:
            _RV[f] = r
    return r


def numval(v):
    """z3 numeral -> Fraction (algebraic numbers approximated), or None."""
    if z3.is_int_value(v):
        return fractions.Fraction(v.as_long())
    if z3.is_rational_value(v):
        return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return fractions.Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


class Watchdog(object):
    """interrupts solver calls that ignore their time limit (pre-processing steps do not always poll it)"""

    def __init__(self):
        self.until = None
        self.started = False
        self.fired = 0

    def arm(self, seconds):
        if not self.started:
            self.started = True
            import threading
            t = threading.Thread(target=self._run)
            t.daemon = True
            t.start()
        self.until = time.time() + seconds

    def disarm(self):
        self.until = None

    def _run(self):
        while True:
            time.sleep(0.5)
            u = self.until
            if u is not None and time.time() > u:
                self.fired += 1
                self.until = time.time() + 2
                try:
                    z3.main_ctx().interrupt()
                except Exception:
                    pass


DOG = Watchdog()


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.rewriter = 0
        self.solver_time = 0.0
        self.branches = 0
        self.paths = 0
        self.infeasible_paths = 0
        self.checks = 0
        self.concretizations = 0
        self.unsupported = 0
        self.conc_sites = {}

    def as_dict(self):
        return dict(self.__dict__)


class Engine(object):
    """Explores one harness."""

    def __init__(self, timeout_ms=8000, max_paths=20000, time_budget=300.0, seed=1):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.seed = seed
        self.st = Stats()
        self.cexs = []           # list of dicts {label, values}
        self.inconclusive = []   # strings
        self.samples = []        # per-path models for validation
        self.labels = {}         # check label -> times evaluated
        self.active = False
        self.functions = set()
        self.stop_after_cex = 3
        self.max_samples = 6
        self.unsupported_models = []
        self.tmo_checks = 0
        from . import witness
        self.comp = witness.Compiler(self)
        self.pool = witness.Pool(self)
        self.NumModel = witness.NumModel
        self.Sample = witness.Sample
        self.nodes = {}
        self.input_info = {}

    # ---- solver plumbing
    def _solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.set("random_seed", self.seed)
        return s

    def _check(self, extra, want_model=True, timeout=None, search=False):
        """sat/unsat/unknown of path & extra."""
        t0 = time.time()
        if t0 - self.t_start > self.time_budget * 1.35:
            raise BudgetExceeded("time budget (%.0fs) exhausted" % self.time_budget)
        self.st.queries += 1
        res = None
        self.found = []
        cons = self.pc + list(extra)
        total = timeout or self.timeout_ms
        model = None
        r = z3.unknown
        # portfolio: products as opaque terms, a short default run, a search for a concrete witness, the non-linear
        # tactic, then a long default run
        for kind, tmo in (("lin", min(200, total)), ("wit", total), ("smt", min(300, total)), ("nl", total),
                          ("smt", total)):
            if kind == "wit":
                if search and time.time() - self.t_start < self.time_budget:
                    found = self.pool.search(self.live, self.pc, extra)
                    if found:
                        r = z3.sat
                        model = self.NumModel(self, found[0])
                        self.found = found
                        break
                continue
            if kind == "smt":
                s = self._solver()
            elif kind == "lin":
                s = self._solver()
                s.set("arith.nl", False)
            else:
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
            s.set("timeout", tmo)
            DOG.arm(tmo / 1000.0 * 1.3 + 2)
            try:
                for c in cons:
                    _assert(_CTX, s.solver, c.ast)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            finally:
                DOG.disarm()
            if r != z3.unknown or (kind == "smt" and tmo == total):
                break
        self.st.solver_time += time.time() - t0
        if SLOW and time.time() - t0 > 2:
            import traceback
            fr = [f for f in traceback.extract_stack() if "/symex/core.py" not in f.filename][-6:]
            sys.stderr.write("SLOW %.1fs %s extra=%s\n   at %s\n" % (
                time.time() - t0, r, str(extra)[:300], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fr))))
        if r == z3.sat:
            self.st.sat += 1
            res = "sat"
            if want_model:
                if model is None:
                    model = s.model()
                if search and not self.found:
                    w = self._sample_of(model)
                    if w is not None and self.pool.satisfies(w, self.pc + list(extra)):
                        self.found = [w]
        elif r == z3.unsat:
            self.st.unsat += 1
            res = "unsat"
        else:
            self.st.unknown += 1
            res = "unknown"
        return res, model

    def _sample_of(self, m):
        """the inputs of a solver model as a witness"""
        fixed = {}
        try:
            for (name, kind, term) in self.inputs:
                v = m.eval(term, model_completion=True)
                if kind == "bool":
                    fixed[name] = bool(z3.is_true(v))
                elif kind == "int":
                    fixed[name] = int(numval(v))
                else:
                    fixed[name] = float(numval(v))
        except Exception:
            return None
        return self.Sample(self, self.seed * 77 + self.st.branches, fixed)

    # ---- exploration
    def explore(self, harness, name):
        self.name = name
        self.t_start = time.time()
        stack = [([], None, None)]
        self.st.paths = 0
        while stack:
            if self.st.paths >= self.max_paths:
                self.inconclusive.append("path budget (%d) exhausted" % self.max_paths)
                break
            if time.time() - self.t_start > self.time_budget:
                self.inconclusive.append("time budget (%.0fs) exhausted" % self.time_budget)
                break
            if len(self.cexs) >= self.stop_after_cex:
                break
            prefix, pm, wit = stack.pop()
            try:
                self._run_path(harness, prefix, stack, pm, wit)
            except BudgetExceeded as e:
                self.inconclusive.append(str(e))
                break
        self.wall = time.time() - self.t_start
        if FORKS:
            import sys
            for k, v in sorted(FORKS.items(), key=lambda kv: -kv[1])[:8]:
                sys.stderr.write("FORKS %5d %s\n" % (v, k))
            FORKS.clear()
        return self

    def _run_path(self, harness, prefix, stack, pmodel=None, wit=None):
        from . import values
        self.prefix = prefix
        self.pmodel = pmodel
        self.trace = []
        self.pc = []
        self.stack = stack
        self.model = None
        self.old_model = None
        self.inputs = []       # (name, kind, term)
        self.fresh = 0
        self.pending = []      # pending checks (cond, label, margin)
        self.live = self.pool.initial() if wit is None else [w.copy() for w in wit]
        self.input_now = set()
        self.atom_defs = {}
        self.fast = not prefix  # past the replayed prefix
        if isinstance(pmodel, self.NumModel):
            self.pmodel = None
        self.memo = {}
        self.eqmemo = {}
        self.choices = []
        self.path_lossy = False
        self.st.paths += 1
        ctx = SymCtx(self)
        values.ENG = self
        self.active = True
        err = None
        try:
            harness(ctx)
        except PathInfeasible:
            self.st.infeasible_paths += 1
            return
        except BudgetExceeded as e:
            self.inconclusive.append(str(e))
            return
        except PathStop:
            pass
        except Unsupported as e:
            err = e
        except (KeyboardInterrupt, SystemExit, GeneratorExit):
            raise
        except Exception as e:  # an exception escaped from the harness
            import traceback
            err = e
            self.last_tb = traceback.format_exc()
        finally:
            self.active = False
        if err is not None:
            self._flush()
            # Candidate: the real code raised where the harness expected none,
            # or the engine could not follow it.  The concrete replay decides.
            m = self._get_model([])
            if m is None:
                return
            self.st.unsupported += 1
            vals = self._values(m)
            if len(self.unsupported_models) < 12:
                self.unsupported_models.append(
                    {"label": "exception:%s" % type(err).__name__,
                     "detail": (str(err)[:300]),
                     "tb": getattr(self, "last_tb", "")[-2500:],
                     "values": vals})
            return
        self._flush()
        if self.path_lossy and self.lossy_room():
            m = self.model
            if m is not None and len(self.unsupported_models) < 12:
                self.unsupported_models.append(
                    {"label": "lossy path", "detail": "concretised at a C boundary", "tb": "",
                     "values": self._values(m)})
        elif self.max_samples and self.model is not None and (
                len(self.samples) < self.max_samples) and (
                self.st.paths <= 3 or self.st.paths % 17 == 0):
            if self.live:
                m = self.NumModel(self, self.live[self.st.paths % len(self.live)])
            else:
                m = self._diverse_model()
            self.samples.append({"values": self._values(m), "obs": [] if any(
                k.startswith("uf:") for k in self.memo) and not isinstance(m, self.NumModel) else self._observed(m)})

    def _diverse_model(self):
        """a non-trivial model of the finished path (random values where feasible)"""
        import random
        rnd = random.Random(self.seed * 7919 + self.st.paths)
        if any(k.startswith("uf:") for k in self.memo):
            return self.model
        best = self.model
        ins = [(t, k) for (_, k, t) in self.inputs if k in ("real", "int")]
        fixed = []

        def attempt(group, depth):
            nonlocal best, fixed
            if not group or depth > 3:
                return
            ex = []
            for t, k in group:
                v = rnd.randint(-80, 80) if k == "real" else rnd.randint(-3, 9)
                ex.append(t == (z3.Q(v, 8) if k == "real" else v))
            r, m = self._check(fixed + ex, timeout=1500)
            if r == "sat":
                fixed, best = fixed + ex, m
            elif len(group) > 1:
                h = len(group) // 2
                attempt(group[:h], depth + 1)
                attempt(group[h:], depth + 1)

        attempt(ins, 0)
        return best

    def lossy_room(self):
        return len(self.unsupported_models) < 12

    def _observed(self, m):
        from . import values
        out = []
        for (label, v) in self.observations[-40:] if hasattr(self, "observations") else []:
            try:
                out.append([label, values.eval_in(m, v)])
            except Exception:
                pass
        return out

    # ---- branching
    def choose(self, cond):
        """cond: z3 Bool term -> python bool, forking the exploration."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        idx = len(self.trace)
        self.st.branches += 1
        if idx < len(self.prefix):
            d = self.prefix[idx]
            self.trace.append(d)
            self.pc.append(c if d else z3.Not(c))
            self._prefix_step(idx)
            return d
        if time.time() - self.t_start > self.time_budget:
            raise BudgetExceeded("time budget (%.0fs) exhausted" % self.time_budget)
        # key: already decided syntactically?
        nc = z3.Not(c)
        known = None
        m = self.model
        if m is None:
            m = self._get_model([])
            if m is None and not self._last_unknown:
                raise PathInfeasible()
        if m is not None:
            ev = m.eval(c, model_completion=True)
            if z3.is_true(ev):
                known = True
            elif z3.is_false(ev):
                known = False
        w1, w0 = [], []
        cn = self.comp.node(c)
        for s in self.live:
            v = self.comp.truth(cn, s)
            if v is not None:
                (w1 if v else w0).append(s)
        if known is True:
            r1, m1 = "sat", m
        elif w1:
            r1, m1 = "sat", self.NumModel(self, w1[0])
        else:
            r1, m1 = self._check([c], search=True)
            w1 = list(self.found)
        if known is False:
            r0, m0 = "sat", m
        elif w0:
            r0, m0 = "sat", self.NumModel(self, w0[0])
        else:
            r0, m0 = self._check([nc], search=True)
            w0 = list(self.found)
        if self.atom_defs:
            for w, cc, rr in ((w1, c, r1), (w0, nc, r0)):
                if rr == "sat" and not w:
                    w += self.pool.search(w or self.live, self.pc, [cc], 24)
        t_ok, f_ok = r1 != "unsat", r0 != "unsat"
        if t_ok and f_ok:
            if FORKS is not None:
                import traceback
                k = " < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in traceback.extract_stack()[-14:-1][::-1]
                               if os.environ["VERIF_FORKS"] == "2" or "symex" not in f.filename)
                FORKS[k] = FORKS.get(k, 0) + 1
            self.stack.append((self.trace + [False], m0, w0))
            self.trace.append(True)
            self.pc.append(c)
            self.model = m1
            self.live = w1
            return True
        if t_ok:
            self.trace.append(True)
            self.pc.append(c)
            self.model = m1
            self.live = w1
            return True
        if f_ok:
            self.trace.append(False)
            self.pc.append(nc)
            self.model = m0
            self.live = w0
            return False
        raise PathInfeasible()

    def _prefix_step(self, idx):
        if idx == len(self.prefix) - 1:
            self.model = self.pmodel
            self.fast = True
            if self.live and self.model is None:
                self.model = self.NumModel(self, self.live[0])
        else:
            self.model = None

    def assume(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathInfeasible()
        self.pc.append(c)
        if self.fast:
            self.live = self.pool.filter(self.live, c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def add_def(self, *cs):
        """definitional constraints on fresh variables (cannot make the path infeasible)."""
        self.pc.extend(cs)
        if isinstance(self.model, self.NumModel):
            return
        if self.model is not None:
            self.old_model = self.model
        self.model = None

    _last_unknown = False

    def _get_model(self, extra):
        self._last_unknown = False
        if self.live and not extra and self.fast:
            self.model = self.NumModel(self, self.live[0])
            return self.model
        om, self.old_model = self.old_model, None
        r = None
        if om is not None and not extra:
            # extend the previous model to the new definitions
            r, m = self._check(self._fix_inputs(om), timeout=1500)
        if r != "sat":
            r, m = self._check(extra)
        if r == "sat":
            if not extra:
                self.model = m
            return m
        self._last_unknown = r == "unknown"
        return None

    def split_int(self, term, what="int"):
        """Complete case split of an integer-sorted term; returns a python int."""
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        n = 0
        while True:
            n += 1
            if n > 4000:
                raise Unsupported("integer case split of %s does not end" % what)
            idx = len(self.trace)
            # deterministic candidate: remembered in the prefix
            if idx < len(self.prefix):
                d = self.prefix[idx]
                # stored as ("v", value, taken)
                v, taken = d[1], d[2]
                self.trace.append(d)
                self.pc.append(t == v if taken else t != v)
                self._prefix_step(idx)
                if taken:
                    return v
                continue
            m = self.model or self._get_model([])
            if m is None:
                raise PathInfeasible()
            v = numval(m.eval(t, model_completion=True))
            v = int(v)
            self.st.branches += 1
            eq, ne = [], []
            for s in self.live:
                try:
                    (eq if self.comp.ev(self.comp.node(t), s) == v else ne).append(s)
                except witness_unknown():
                    pass
            if ne:
                r, m0 = "sat", self.NumModel(self, ne[0])
            else:
                r, m0 = self._check([t != v], search=True)
                ne = list(self.found)
            if r != "unsat":
                self.stack.append((self.trace + [("v", v, False)], m0, ne))
            self.trace.append(("v", v, True))
            self.pc.append(t == v)
            self.live = eq
            return v

    def concretize(self, term, where):
        """Lossy: used at C boundaries only; recorded."""
        self._flush()
        m = self.model or self._get_model([])
        if m is None:
            raise PathInfeasible()
        val = numval(m.eval(term, model_completion=True))
        self.st.concretizations += 1
        self.path_lossy = True
        self.st.conc_sites[where] = self.st.conc_sites.get(where, 0) + 1
        f = float(val)
        self.assume(term == rv(f))
        return f

    # ---- inputs
    def _values(self, m):
        out = {}
        for (name, kind, term) in self.inputs:
            if kind == "choice":
                out[name] = term
                continue
            v = m.eval(term, model_completion=True)
            if kind == "bool":
                out[name] = bool(z3.is_true(v))
            elif kind == "int":
                out[name] = int(numval(v))
            else:
                out[name] = float(numval(v))
        return out

    # ---- checks
    def check(self, cond, label, margin=None):
        self.st.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.st.rewriter += 1
            return
        self.pending.append((c, label, margin))
        if len(self.pending) >= 24:
            self._flush()

    def _flush(self):
        pend, self.pending = self.pending, []
        if not pend:
            return
        if len(pend) > 1:
            r, m = self._check([z3.Or([z3.Not(c) for c, _, _ in pend])])
            if r == "unsat":
                return
        for c, label, margin in pend:
            r, m = self._check([z3.Not(c)])
            if r == "unsat":
                continue
            # prefer well separated, small, dyadic counterexamples
            found = None
            self.fail_tries = getattr(self, "fail_tries", 0) + 1
            grid = self._grid()
            tries = []
            if margin is not None:
                tries += [[margin] + grid, [margin]]
            tries += [[z3.Not(c)] + grid] if margin is None else []
            verdicts = []
            for extra in tries:
                r2, m2 = self._check(extra, timeout=self.timeout_ms)
                verdicts.append(r2)
                if r2 == "sat":
                    found = m2
                    break
            if found is None and margin is not None and verdicts and verdicts[-1] == "unsat":
                # differs only below the rounding margin: equal up to tolerance
                self.st.unsat += 0
                self.labels["(within tolerance) " + label] = 1
                continue
            if found is None and r == "sat":
                found = m
            if found is not None and any(k.startswith("uf:") for k in self.memo):
                verdict, found2 = self._refine_uf([margin if margin is not None else z3.Not(c)], grid, found)
                if verdict == "unsat":
                    self.labels["(after refining function values) " + label] = 1
                    continue
                found = found2 or found
            if found is None:
                # the solver gave up: a concrete vector that clearly violates the assertion is still a candidate
                w = self.pool.search(self.live, self.pc, [margin if margin is not None else z3.Not(c)], 200)
                if w:
                    found = self.NumModel(self, w[0])
            if found is None:
                self.inconclusive.append("unknown: %s" % label)
                continue
            self.cexs.append({"label": label, "values": self._values(found)})
            if len(self.cexs) >= self.stop_after_cex:
                return

    def _uf_lemmas(self, m):
        """true values of the uninterpreted functions at the points the model uses"""
        out, ok = [], True
        for k, memo in self.memo.items():
            if not k.startswith("uf:"):
                continue
            for (ts, r, conc) in memo:
                if conc is None:
                    continue
                try:
                    vals = [numval(m.eval(t, model_completion=True)) for t in ts]
                    v = float(conc(*[float(x) for x in vals]))
                except Exception:
                    continue
                if v != v or v in (float("inf"), float("-inf")):
                    continue
                eps = fractions.Fraction(1, 10 ** 7) * (1 + abs(fractions.Fraction(v)))
                got = numval(m.eval(r, model_completion=True))
                if got is None or abs(fractions.Fraction(float(got)) - fractions.Fraction(v)) > eps:
                    ok = False
                at = z3.And([t == rv(float(x)) for t, x in zip(ts, vals)])
                out.append(z3.Implies(at, z3.And(r >= rv(fractions.Fraction(v) - eps), r <= rv(fractions.Fraction(v) + eps))))
        return out, ok

    def _fix_inputs(self, m):
        out = []
        for (name, kind, term) in self.inputs:
            if kind == "choice":
                continue
            out.append(term == m.eval(term, model_completion=True))
        return out

    def _refine_uf(self, bad, grid, m):
        """counterexamples that survive the true values of the functions they use"""
        lemmas = []
        cand = m
        t0 = time.time()
        for it in range(12):
            ls, ok = self._uf_lemmas(cand)
            if ok:
                return "sat", cand
            lemmas += ls
            fixed = self._fix_inputs(cand)
            cur = cand
            for inner in range(4):
                # inputs fixed: replace function values by true ones, layer by layer
                r, m2 = self._check(bad + lemmas + fixed, timeout=3000)
                if r != "sat":
                    break
                ls, ok = self._uf_lemmas(m2)
                if ok:
                    return "sat", m2
                lemmas += ls
            if time.time() - t0 > 40:
                return "unknown", m
            r, m2 = self._check(bad + lemmas + grid, timeout=5000)
            if r != "sat":
                r, m2 = self._check(bad + lemmas, timeout=5000)
            if r == "unsat":
                return "unsat", None
            if r != "sat":
                return "unknown", m
            cand = m2
        return "unknown", m

    def _grid(self):
        out = []
        for i, (name, kind, term) in enumerate(self.inputs):
            if kind == "real":
                k = z3.Int("grid!%d" % i)
                out.append(term * 8 == z3.ToReal(k))
        return out


def witness_unknown():
    from . import witness
    return witness.Unknown


class SymCtx(object):
    """API given to harnesses; mirrored by concrete.ConcCtx for replays."""
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        eng.observations = []
        self.tier = os.environ.get("VERIF_TIER", "quick")

    # inputs ---------------------------------------------------------
    def real(self, name, lo=-1000, hi=1000):
        from .values import SymReal
        t = z3.Real(name)
        self.eng.inputs.append((name, "real", t))
        self.eng.input_info[name] = ("real", lo, hi)
        self.eng.input_now.add(name)
        if lo is not None:
            self.eng.assume(t >= rv(lo))
        if hi is not None:
            self.eng.assume(t <= rv(hi))
        return SymReal(t)

    def reals(self, prefix, n, lo=-1000, hi=1000):
        return [self.real("%s%d" % (prefix, i), lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        from .values import SymInt
        t = z3.Int(name)
        self.eng.inputs.append((name, "int", t))
        self.eng.input_info[name] = ("int", lo, hi)
        self.eng.input_now.add(name)
        self.eng.assume(t >= lo)
        self.eng.assume(t <= hi)
        return SymInt(t)

    def cint(self, name, lo, hi):
        """symbolic int, immediately case-split to a python int."""
        v = self.int(name, lo, hi)
        return self.eng.split_int(v.t, name)

    def bool(self, name):
        from .values import SymBool
        t = z3.Bool(name)
        self.eng.inputs.append((name, "bool", t))
        self.eng.input_info[name] = ("bool", None, None)
        self.eng.input_now.add(name)
        return SymBool(t)

    def cbool(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        """case split over a finite option list."""
        i = self.cint(name, 0, len(options) - 1)
        return options[i]

    def unknown_real(self, hint, lo=None, hi=None):
        """environment stub: fresh arbitrary value (also an input of the replay)."""
        self.eng.fresh += 1
        return self.real("%s#%d" % (hint, self.eng.fresh), lo, hi)

    # containers -----------------------------------------------------
    def array(self, lst):
        import numpy as np
        if lst and isinstance(lst[0], (list, tuple)):
            a = np.empty((len(lst), len(lst[0])), dtype=object)
            for i, row in enumerate(lst):
                for j, x in enumerate(row):
                    a[i, j] = x
            return a
        a = np.empty(len(lst), dtype=object)
        for i, x in enumerate(lst):
            a[i] = x
        return a

    def series(self, lst, **kw):
        import pandas as pd
        return pd.Series(self.array(lst), dtype=object, **kw)

    def assume(self, cond):
        from .values import bterm
        self.eng.assume(bterm(cond))

    # checks ---------------------------------------------------------
    def check(self, cond, label):
        from .values import bterm
        self.eng.check(bterm(cond), label)

    def eq(self, got, want, label, tol=None):
        from . import values
        self.eng.observations.append((label, got))
        if tol is not None and (values.is_sym(got) or values.is_sym(want)):
            # equal up to an iterative solver's accuracy (absolute)
            d = got - want
            self.check((d <= tol) & (-d <= tol), label)
            return
        values.check_eq(self.eng, got, want, label)

    def eq_list(self, got, want, label):
        got, want = list(got), list(want)
        self.check(len(got) == len(want), label + ": length")
        if len(got) == len(want):
            for i, (a, b) in enumerate(zip(got, want)):
                self.eq(a, b, "%s[%d]" % (label, i))

    def le(self, a, b, label):
        """a <= b up to rounding tolerance in the replay."""
        from . import values
        values.check_le(self.eng, a, b, label)

    def observe(self, label, v):
        self.eng.observations.append((label, v))

    def reach(self, label):
        """vacuity witness: this point was reached on a feasible path."""
        key = "reach:" + label
        e = self.eng
        if key not in e.labels:
            m = e.model or e._get_model([])
            if m is None:
                return
            e.labels[key] = 0
        e.labels[key] += 1

    def raises(self, exc, fn, label):
        """the call must raise exc on every feasible path reaching here."""
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        except Exception as e:
            self.observe_exc(e)
            self.check(False, label + " (raised %s instead)" % type(e).__name__)
            return False
        self.check(False, label + " (did not raise)")
        return False

    def observe_exc(self, e):
        pass

    def stop(self):
        raise PathStop()

    def ite(self, c, a, b):
        from .values import ite
        return ite(c, a, b)
