"""Concrete witnesses for path feasibility.

A few numeric input vectors travel along every path.  A branch side that one of them clearly takes (outside a rounding
margin, with the true values of roots and special functions) is feasible, so no solver query is spent on it.  Witnesses
only ever show that a side is *reachable*; that a side is unreachable, and that an assertion holds, is always the
solver's verdict."""
import math
import random
import zlib
from fractions import Fraction

from .core import z3, rv, numval

MARGIN = 1e-7


class Unknown(Exception):
    pass


def _num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def unk(c, s):
    raise Unknown()


class Sample(object):
    """one input vector; values of inputs appear on demand, deterministically"""

    def __init__(self, eng, key, fixed=None):
        self.eng, self.key, self.fixed = eng, key, dict(fixed or {})
        self.cache = {}

    def copy(self):
        s = Sample(self.eng, self.key, self.fixed)
        return s

    def inp(self, name, kind, lo, hi):
        v = self.fixed.get(name)
        if v is not None:
            return v
        r = random.Random(zlib.crc32(("%s|%s" % (self.key, name)).encode()))
        if kind == "bool":
            v = r.random() < 0.5
        elif kind == "int":
            v = r.randint(int(lo) if lo is not None else -5, int(hi) if hi is not None else 9)
        else:
            lo = -1000.0 if lo is None else float(lo)
            hi = 1000.0 if hi is None else float(hi)
            mode = self.key % 4
            if mode == 0:
                v = r.uniform(lo, hi)
            elif mode == 1:
                c = min(max(0.0, lo), hi)
                v = min(max(c + r.gauss(0, 1) * 0.02 * (hi - lo), lo), hi)
            elif mode == 2:
                v = min(max(float(r.randint(-4, 4)), lo), hi)
            else:
                c = min(max(0.0, lo), hi)
                v = min(max(c + r.uniform(-3, 3), lo), hi)
            v = math.floor(v * 64) / 64.0
            if v < lo:
                v = lo
        self.fixed[name] = v
        return v


class Node(object):
    __slots__ = ("t", "fn")

    def __init__(self, t):
        self.t = t


class Compiler(object):
    """z3 term -> value on a Sample (python floats; booleans three-valued through Unknown)"""

    def __init__(self, eng):
        self.eng = eng

    def node(self, t):
        i = t.get_id()
        n = self.eng.nodes.get(i)
        if n is None:
            n = Node(t)
            self.eng.nodes[i] = n
            n.fn = self._node(t)
        return n

    def ev(self, n, s):
        c = s.cache
        r = c.get(n)
        if r is not None:
            if r is Unknown:
                raise Unknown()
            return r[0]
        i = n
        try:
            r = n.fn(self, s)
            if type(r) is float and (r != r or r in (math.inf, -math.inf)):
                raise Unknown()
        except (Unknown, ZeroDivisionError, OverflowError, ValueError):
            c[i] = Unknown
            raise Unknown()
        c[i] = (r,)
        return r

    def _node(self, t):
        if z3.is_true(t):
            return lambda c, s: True
        if z3.is_false(t):
            return lambda c, s: False
        if _num(t):
            v = float(Fraction(numval(t)))
            return lambda c, s: v
        k = t.decl().kind()
        zch = t.children()
        ch = [self.node(x) for x in zch]
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch:
                return unk
            name = t.decl().name()
            return lambda c, s: c.leaf(name, s)
        if k == z3.Z3_OP_ADD:
            return lambda c, s: sum([c.ev(x, s) for x in ch])
        if k == z3.Z3_OP_SUB:
            def sub(c, s):
                r = c.ev(ch[0], s)
                for x in ch[1:]:
                    r = r - c.ev(x, s)
                return r
            return sub
        if k == z3.Z3_OP_UMINUS:
            return lambda c, s: -c.ev(ch[0], s)
        if k == z3.Z3_OP_MUL:
            def mul(c, s):
                r = 1.0
                for x in ch:
                    r = r * c.ev(x, s)
                return r
            return mul
        if k == z3.Z3_OP_DIV:
            return lambda c, s: c.ev(ch[0], s) / c.ev(ch[1], s)
        if k == z3.Z3_OP_IDIV:
            def idiv(c, s):
                a, b = c.ev(ch[0], s), c.ev(ch[1], s)
                return float(math.floor(a / b)) if b > 0 else float(-math.floor(a / -b))
            return idiv
        if k == z3.Z3_OP_MOD:
            def mod(c, s):
                a, b = c.ev(ch[0], s), c.ev(ch[1], s)
                return a - abs(b) * math.floor(a / abs(b))
            return mod
        if k == z3.Z3_OP_POWER:
            return lambda c, s: c.ev(ch[0], s) ** c.ev(ch[1], s)
        if k == z3.Z3_OP_TO_REAL:
            return lambda c, s: c.ev(ch[0], s)
        if k == z3.Z3_OP_TO_INT:
            def toint(c, s):
                v = c.ev(ch[0], s)
                f = math.floor(v)
                if v != f and (abs(v - f) < 1e-9 or abs(v - f - 1) < 1e-9):
                    raise Unknown()
                return float(f)
            return toint
        if k == z3.Z3_OP_ITE:
            bo = z3.is_bool(zch[1])

            def ite(c, s):
                try:
                    b = c.ev(ch[0], s)
                except Unknown:
                    if bo:
                        x, y = c.ev(ch[1], s), c.ev(ch[2], s)
                        if x == y:
                            return x
                        raise
                    x, y = c.ev(ch[1], s), c.ev(ch[2], s)
                    if abs(x - y) <= 1e-9 * (1 + abs(x)):
                        return x
                    raise
                return c.ev(ch[1] if b else ch[2], s)
            return ite
        if k == z3.Z3_OP_NOT:
            return lambda c, s: not c.ev(ch[0], s)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR

            def conn(c, s):
                unk = False
                for x in ch:
                    try:
                        if bool(c.ev(x, s)) == stop:
                            return stop
                    except Unknown:
                        unk = True
                if unk:
                    raise Unknown()
                return not stop
            return conn
        if k == z3.Z3_OP_IMPLIES:
            def imp(c, s):
                try:
                    if not c.ev(ch[0], s):
                        return True
                except Unknown:
                    if c.ev(ch[1], s):
                        return True
                    raise
                return c.ev(ch[1], s)
            return imp
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            neg = k == z3.Z3_OP_DISTINCT
            if z3.is_bool(zch[0]):
                return lambda c, s: (bool(c.ev(ch[0], s)) == bool(c.ev(ch[1], s))) != neg
            exact = zch[0].is_int()

            def eq(c, s):
                a, b = c.ev(ch[0], s), c.ev(ch[1], s)
                if exact:
                    return (a == b) != neg
                if abs(a - b) > MARGIN * (1 + abs(a) + abs(b)):
                    return neg
                raise Unknown()
            return eq
        if k == z3.Z3_OP_XOR:
            return lambda c, s: bool(c.ev(ch[0], s)) != bool(c.ev(ch[1], s))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            up = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            exact = zch[0].is_int()

            def cmp(c, s):
                a, b = c.ev(ch[0], s), c.ev(ch[1], s)
                if not up:
                    a, b = b, a
                if exact:
                    return a > b if strict else a >= b
                if abs(a - b) <= MARGIN * (1 + abs(a) + abs(b)):
                    raise Unknown()
                return a > b
            return cmp
        return unk

    def leaf(self, name, s):
        e = self.eng
        inp = e.input_info.get(name)
        if inp is not None:
            v = s.inp(name, *inp)
            return v if inp[0] == "bool" else float(v)
        d = e.atom_defs.get(name)
        if d is None:
            raise Unknown()
        kind, args, fn = d
        if kind == "sqrt":
            v = self.ev(self.node(args[0]), s)
            if v < 0:
                if v > -1e-9:
                    return 0.0
                raise Unknown()
            return math.sqrt(v)
        if fn is None:
            raise Unknown()
        return float(fn(*[self.ev(self.node(a), s) for a in args]))

    def truth(self, t, s):
        """True / False / None"""
        try:
            return bool(self.ev(t if type(t) is Node else self.node(t), s))
        except Unknown:
            return None


class NumModel(object):
    """a Sample dressed as a z3 model"""

    def __init__(self, eng, s):
        self.eng, self.s = eng, s

    def eval(self, t, model_completion=True):
        if z3.is_bool(t):
            r = self.eng.comp.truth(t, self.s)
            return t if r is None else z3.BoolVal(r)
        try:
            v = self.eng.comp.ev(self.eng.comp.node(t), self.s)
        except Unknown:
            return t
        if t.is_int():
            return z3.IntVal(int(v))
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)


class Pool(object):
    def __init__(self, eng, size=48):
        self.eng = eng
        self.size = size

    def initial(self):
        e = self.eng
        return [Sample(e, e.seed * 1000 + i) for i in range(self.size)]

    def filter(self, samples, c):
        comp = self.eng.comp
        c = comp.node(c)
        return [s for s in samples if comp.truth(c, s) is True]

    def satisfies(self, s, pc):
        comp = self.eng.comp
        for c in pc:
            if comp.truth(c, s) is not True:
                return False
        return True

    def mutate(self, base, rnd):
        e = self.eng
        fixed = dict(base.fixed)
        names = [n for n, inf in e.input_info.items() if inf[0] != "bool" and n in e.input_now]
        if not names:
            return None
        for n in rnd.sample(names, min(len(names), rnd.choice((1, 1, 2, len(names))))):
            kind, lo, hi = e.input_info[n]
            v = base.inp(n, kind, lo, hi)
            if kind == "int":
                nv = v + rnd.choice((-1, 1))
            else:
                m = rnd.random()
                if m < 0.35:
                    nv = v + rnd.gauss(0, 1) * rnd.choice((0.1, 1.0, 10.0, 100.0))
                elif m < 0.5:
                    nv = -v
                elif m < 0.7:
                    nv = v * rnd.choice((0.1, 0.5, 2.0, 5.0))
                elif m < 0.85:
                    o = rnd.choice(names)
                    nv = float(base.inp(o, *e.input_info[o])) + rnd.choice((0.0, 0.0, 0.5, -0.5))
                else:
                    nv = float(rnd.randint(-5, 5))
                nv = math.floor(nv * 64) / 64.0
            if lo is not None and nv < lo:
                nv = lo if kind == "int" else float(lo)
            if hi is not None and nv > hi:
                nv = hi if kind == "int" else float(hi)
            fixed[n] = nv
        return Sample(e, base.key, fixed)

    def search(self, samples, pc, extra, tries=120):
        """new samples satisfying pc and extra, by mutating survivors and fresh ones"""
        e = self.eng
        rnd = random.Random(e.seed * 31 + e.st.branches)
        out = []
        cand = [Sample(e, e.seed * 100000 + e.st.branches * 64 + i) for i in range(16)]
        base = list(samples) or cand
        tgt = [e.comp.node(c) for c in list(extra) + pc]
        for i in range(tries):
            if i < len(cand):
                s = cand[i]
            else:
                s = self.mutate(base[i % len(base)], rnd)
                if s is None:
                    break
            if self.satisfies(s, tgt):
                out.append(s)
                if len(out) >= 6:
                    break
        return out
