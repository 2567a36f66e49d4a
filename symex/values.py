"""Symbolic proxies."""
import math
import sys
import operator
from fractions import Fraction

from .core import z3, rv, frac, numval, Unsupported

ENG = None

_NUM = (int, float)
try:
    import numpy as np
    _NUM = (int, float, np.integer, np.floating, np.bool_)
except ImportError:  # pragma: no cover
    np = None

INF = float("inf")
NAN = float("nan")


def is_sym(x):
    return isinstance_raw(x, _Sym)


def isinstance_raw(x, cls):
    return issubclass(type(x), cls)


def _isnum(x):
    return issubclass(type(x), _NUM)


def _finite(x):
    return type(x) is int or not (math.isnan(x) or math.isinf(x))


class _Sym(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mk(t):
    """z3 arith term -> proxy or python number."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return np.float64(float(f)) if frac(float(f)) == f else SymReal(t)
    if t.is_int():
        return SymInt(t)
    return SymReal(t)


def mkb(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def term(x):
    """proxy or finite python number -> z3 arith term."""
    if issubclass(type(x), SymReal):
        return x.t
    if issubclass(type(x), SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if issubclass(type(x), (bool, np.bool_)):
        return z3.IntVal(int(x))
    if issubclass(type(x), (int, np.integer)):
        return z3.IntVal(int(x))
    if issubclass(type(x), Fraction):
        return z3.Q(x.numerator, x.denominator)
    return rv(float(x))


def rterm(x):
    t = term(x)
    return to_real(t)


def bterm(x):
    if issubclass(type(x), SymBool):
        return x.t
    if issubclass(type(x), (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    if issubclass(type(x), SymReal):
        return x.t != 0
    if isinstance(x, np.ndarray) and x.size == 1:
        return bterm(x.reshape(-1)[0])
    return z3.BoolVal(bool(x))


def _coerce(a, b):
    if a.is_int() and not b.is_int():
        return to_real(a), b
    if b.is_int() and not a.is_int():
        return a, to_real(b)
    return a, b


def to_real(t):
    if not t.is_int():
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def _nonfinite(x):
    """x python number: returns True when nan/inf."""
    return not issubclass(type(x), (int, np.integer, bool, np.bool_)) and not math.isfinite(float(x))


def _operand(o):
    """-> ('s', term) | ('x', float nonfinite) | None"""
    if issubclass(type(o), SymReal) or issubclass(type(o), SymBool):
        return ("s", term(o))
    if issubclass(type(o), _NUM):
        if _nonfinite(o):
            return ("x", float(o))
        return ("s", term(o))
    if issubclass(type(o), Fraction):
        return ("s", term(o))
    if type(o) is np.ndarray and o.ndim == 0:
        return _operand(o.item())
    return None


def sign(t):
    """fork on the sign of a term -> -1, 0, 1"""
    if ENG.choose(t > 0):
        return 1
    if ENG.choose(t == 0):
        return 0
    return -1


def _add(a, b):
    if z3.is_rational_value(a) or z3.is_int_value(a):
        if numval(a) == 0 and a.is_int() == b.is_int():
            return b
    if z3.is_rational_value(b) or z3.is_int_value(b):
        if numval(b) == 0 and a.is_int() == b.is_int():
            return a
    return a + b


def _isnumt(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def do_add(x, y):
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" or b[0] == "x":
        if a[0] == b[0]:
            return a[1] + b[1]
        return a[1] if a[0] == "x" else b[1]
    p, q = _coerce(a[1], b[1])
    if _isnumt(p) and _isnumt(q):
        return mk(z3.simplify(p + q))
    return mk(_add(p, q))


def do_sub(x, y):
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" or b[0] == "x":
        if a[0] == b[0]:
            return a[1] - b[1]
        return a[1] if a[0] == "x" else -b[1]
    p, q = _coerce(a[1], b[1])
    if p.eq(q):
        return 0 if p.is_int() else 0.0
    if _isnumt(p) and _isnumt(q):
        return mk(z3.simplify(p - q))
    if _isnumt(q) and numval(q) == 0:
        return mk(p)
    return mk(p - q)


def do_mul(x, y):
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" or b[0] == "x":
        if a[0] == b[0]:
            return a[1] * b[1]
        n, s = (a[1], b[1]) if a[0] == "x" else (b[1], a[1])
        if math.isnan(n):
            return NAN
        sg = sign(s)
        return NAN if sg == 0 else n * sg
    p, q = _coerce(a[1], b[1])
    for u, v in ((p, q), (q, p)):
        if _isnumt(u):
            n = numval(u)
            if n == 0:
                return 0 if u.is_int() else 0.0
            if n == 1:
                return mk(v)
            if _isnumt(v):
                return mk(z3.simplify(u * v))
    return mk(p * q)


def do_div(x, y):
    """numpy float64 semantics: x/0 is nan or +-inf."""
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" and b[0] == "x":
        return NAN
    if a[0] == "x":
        if math.isnan(a[1]):
            return NAN
        sg = sign(b[1])
        return a[1] * (1 if sg >= 0 else -1)
    if b[0] == "x":
        return NAN if math.isnan(b[1]) else 0.0
    p = to_real(a[1])
    q = to_real(b[1])
    qs = z3.simplify(q)
    if z3.is_rational_value(qs):
        n = numval(qs)
        if n != 0:
            if n == 1:
                return mk(p)
            if z3.is_rational_value(z3.simplify(p)):
                return mk(z3.simplify(p / qs))
            return mk(p * z3.Q(n.denominator, n.numerator))
        zero = True
    else:
        zero = ENG.choose(q == 0)
    if zero:
        sg = sign(p)
        return NAN if sg == 0 else (INF if sg > 0 else -INF)
    if p.eq(q):
        return 1.0
    return mk(p / q)


def do_floordiv(x, y):
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" or b[0] == "x":
        return NAN
    p, q = a[1], b[1]
    if p.is_int() and q.is_int():
        if ENG.choose(q > 0):
            return mk(z3.simplify(p / q) if _isnumt(p) and _isnumt(q) else p / q)
        if ENG.choose(q == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mk((-p) / (-q))
    r = do_div(mk(p), mk(q))
    if not is_sym(r):
        return math.floor(r) if math.isfinite(r) else r
    return mk(z3.ToReal(z3.ToInt(r.t)))


def do_mod(x, y):
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" or b[0] == "x":
        return NAN
    p, q = a[1], b[1]
    if p.is_int() and q.is_int():
        if ENG.choose(q > 0):
            return mk(p % q)
        if ENG.choose(q == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mk(-((-p) % (-q)))
    fd = do_floordiv(mk(p), mk(q))
    if not is_sym(fd) and not math.isfinite(fd):
        return NAN
    return do_sub(mk(p), do_mul(fd, mk(q)))


def do_pow(x, y):
    if issubclass(type(y), SymReal):
        ys = z3.simplify(y.t)
        n = numval(ys) if _isnumt(ys) else None
        if n is None:
            if issubclass(type(y), SymInt):
                y = ENG.split_int(y.t, "exponent")
            else:
                return uf("pow", x, y)
        else:
            y = n
    if _isnum(y) or isinstance_raw(y, Fraction):
        if _isnum(y) and _nonfinite(y):
            return NAN
        f = Fraction(y) if not isinstance_raw(y, np.floating) else Fraction(float(y))
        if f.denominator == 1:
            n = int(f)
            if n == 0:
                return 1.0
            r = x
            for _ in range(abs(n) - 1):
                r = do_mul(r, x)
            return r if n > 0 else do_div(1.0, r)
        if f == Fraction(1, 2):
            return sym_sqrt(x)
        if f == Fraction(-1, 2):
            return do_div(1.0, sym_sqrt(x))
        return uf("pow", x, float(y))
    return NotImplemented


def _positive(t):
    """root of a positive number (a zero root was excluded when the division ran) or positive constant"""
    if _isnumt(t):
        return numval(t) > 0
    if t.decl().kind() == z3.Z3_OP_MUL:
        return all(_positive(c) for c in t.children())
    return t.num_args() == 0 and t.decl().name().startswith("sqrt!")


def _cmp(x, y, op, swapped=False):
    a, b = _operand(x), _operand(y)
    if a is None or b is None:
        return NotImplemented
    if a[0] == "x" or b[0] == "x":
        u = a[1] if a[0] == "x" else 0.0
        v = b[1] if b[0] == "x" else 0.0
        return op(u, v)
    p, q = _coerce(a[1], b[1])
    if p.eq(q):
        return op(0, 0)
    if not p.is_int() and (has_div(p) or has_div(q)):
        u = undivide(p - q)
        if u is not None:
            p, q = u, z3.RealVal(0)
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_DIV and _isnumt(q) and numval(q) == 0 and _positive(p.children()[1]):
        p = p.children()[0]
        q = z3.RealVal(0)
    t = op(p, q)
    if not z3.is_expr(t):
        return bool(t)
    if _isnumt(p) and _isnumt(q):
        t = z3.simplify(t)
    return mkb(t)


class SymBool(_Sym):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENG.choose(self.t)

    def __and__(self, o):
        if issubclass(type(o), SymBool):
            return mkb(z3.And(self.t, o.t))
        if issubclass(type(o), (bool, np.bool_)):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if issubclass(type(o), SymBool):
            return mkb(z3.Or(self.t, o.t))
        if issubclass(type(o), (bool, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if issubclass(type(o), (SymBool, bool, np.bool_)):
            return mkb(z3.Xor(self.t, bterm(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.t))

    def logical_not(self):
        return mkb(z3.Not(self.t))

    def __eq__(self, o):
        if issubclass(type(o), (SymBool, bool, np.bool_)):
            return mkb(self.t == bterm(o))
        return _cmp(self, o, operator.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if is_sym(r) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return do_add(self, o)

    def __radd__(self, o):
        return do_add(o, self)

    def __sub__(self, o):
        return do_sub(self, o)

    def __rsub__(self, o):
        return do_sub(o, self)

    def __mul__(self, o):
        return do_mul(self, o)

    def __rmul__(self, o):
        return do_mul(o, self)

    def __truediv__(self, o):
        return do_div(self, o)

    def __rtruediv__(self, o):
        return do_div(o, self)

    def __lt__(self, o):
        return _cmp(self, o, operator.lt)

    def __le__(self, o):
        return _cmp(self, o, operator.le)

    def __gt__(self, o):
        return _cmp(self, o, operator.gt)

    def __ge__(self, o):
        return _cmp(self, o, operator.ge)

    def __repr__(self):
        return "<B %s>" % (str(self.t)[:60])


class SymReal(_Sym):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    # arithmetic
    def __add__(self, o):
        return do_add(self, o)

    def __radd__(self, o):
        return do_add(o, self)

    def __sub__(self, o):
        return do_sub(self, o)

    def __rsub__(self, o):
        return do_sub(o, self)

    def __mul__(self, o):
        return do_mul(self, o)

    def __rmul__(self, o):
        return do_mul(o, self)

    def __truediv__(self, o):
        return do_div(self, o)

    def __rtruediv__(self, o):
        return do_div(o, self)

    def __floordiv__(self, o):
        return do_floordiv(self, o)

    def __rfloordiv__(self, o):
        return do_floordiv(o, self)

    def __mod__(self, o):
        return do_mod(self, o)

    def __rmod__(self, o):
        return do_mod(o, self)

    def __divmod__(self, o):
        return do_floordiv(self, o), do_mod(self, o)

    def __pow__(self, o, m=None):
        return do_pow(self, o)

    def __rpow__(self, o):
        return do_pow(o, self)

    def __neg__(self):
        return mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        t = self.t
        return mk(z3.If(t >= 0, t, -t))

    # comparisons
    def __lt__(self, o):
        return _cmp(self, o, operator.lt)

    def __le__(self, o):
        return _cmp(self, o, operator.le)

    def __gt__(self, o):
        return _cmp(self, o, operator.gt)

    def __ge__(self, o):
        return _cmp(self, o, operator.ge)

    def __eq__(self, o):
        r = _cmp(self, o, operator.eq)
        return False if r is NotImplemented and not hasattr(o, "shape") else r

    def __ne__(self, o):
        r = _cmp(self, o, operator.ne)
        return True if r is NotImplemented and not hasattr(o, "shape") else r

    def __bool__(self):
        return ENG.choose(self.t != 0)

    def __hash__(self):
        return hash(float(self))

    # conversions
    def __float__(self):
        ts = z3.simplify(self.t)
        if _isnumt(ts):
            return float(numval(ts))
        return ENG.concretize(self.t, _site())

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        return ENG.split_int(trunc_term(self.t), "int()")

    def __trunc__(self):
        return mk(trunc_term(self.t))

    def __floor__(self):
        return mk(floor_term(self.t))

    def __ceil__(self):
        return mk(-floor_term(-self.t))

    def __round__(self, nd=None):
        if nd is None:
            return mk(round_term(self.t))
        sc = 10 ** int(nd) if nd >= 0 else Fraction(1, 10 ** int(-nd))
        r = round_term(z3.simplify(rterm(self) * rv(Fraction(sc))))
        return mk(z3.ToReal(r) / rv(Fraction(sc)))

    def is_integer(self):
        return mkb(z3.IsInt(rterm(self)))

    def item(self):
        return self

    # numpy object-ufunc hooks
    def sqrt(self):
        return sym_sqrt(self)

    def square(self):
        return do_mul(self, self)

    def conjugate(self):
        return self

    def floor(self):
        return mk(z3.ToReal(floor_term(self.t)))

    def ceil(self):
        return mk(z3.ToReal(-floor_term(-self.t)))

    def rint(self):
        return mk(z3.ToReal(round_term(self.t)))

    def trunc(self):
        return mk(z3.ToReal(trunc_term(self.t)))

    def sign(self):
        return mk(z3.If(self.t > 0, z3.RealVal(1), z3.If(self.t == 0, z3.RealVal(0), z3.RealVal(-1))))

    def absolute(self):
        return abs(self)

    fabs = absolute

    def log(self):
        return sym_log(self)

    def exp(self):
        return uf("exp", self)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def logical_not(self):
        return mkb(self.t == 0)

    def sin(self):
        return uf("sin", self)

    def cos(self):
        return uf("cos", self)

    def tanh(self):
        return uf("tanh", self)

    def arctan(self):
        return uf("arctan", self)

    def log1p(self):
        return sym_log(do_add(self, 1.0))

    def log2(self):
        return do_div(sym_log(self), math.log(2))

    def log10(self):
        return do_div(sym_log(self), math.log(10))

    def expm1(self):
        return do_sub(uf("exp", self), 1.0)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __repr__(self):
        return "<S %s>" % (str(self.t)[:60].replace("\n", " "))

    def __format__(self, spec):
        return repr(self)


class SymInt(SymReal):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return ENG.split_int(self.t, "index")

    def __int__(self):
        return ENG.split_int(self.t, "int()")

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, -self.t))

    def is_integer(self):
        return True

    def bit_length(self):
        return int(self).bit_length()

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __hash__(self):
        return hash(int(self))

    def __and__(self, o):
        return int(self) & int(o)

    def __or__(self, o):
        return int(self) | int(o)


def _site():
    f = sys._getframe(2)
    n = 0
    while f is not None and n < 40:
        fn = f.f_code.co_filename
        if "/kats/" in fn or fn.startswith("/repo"):
            return "%s:%d" % (fn.split("/repo/")[-1], f.f_lineno)
        f = f.f_back
        n += 1
    return "?"


def floor_term(t):
    if t.is_int():
        return t
    return z3.ToInt(t)


def trunc_term(t):
    if t.is_int():
        return t
    ts = z3.simplify(t)
    if _isnumt(ts):
        return z3.IntVal(int(numval(ts)))
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def round_term(t):
    if t.is_int():
        return t
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    h = z3.RealVal("1/2")
    return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def ite(c, a, b):
    c = c.t if issubclass(type(c), SymBool) else c
    if not z3.is_expr(c):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if (not is_sym(a) and _isnum(a) and _nonfinite(a)) or (
        not is_sym(b) and _isnum(b) and _nonfinite(b)
    ):
        return a if ENG.choose(c) else b
    p, q = _coerce(term(a), term(b))
    if p.eq(q):
        return a
    return mk(z3.If(c, p, q))


# ------------------------------------------------ canonical rational forms
_ARITH = None


def ratnorm(t):
    """z3 arith term -> (num, den) terms without division, opaque atoms kept."""
    memo = ENG.memo.setdefault("ratnorm", {})
    key = t.get_id()
    r = memo.get(key)
    if r is not None:
        return r[0], r[1]
    one = z3.RealVal(1)
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        n, d = None, one
        for c in t.children():
            cn, cd = ratnorm(c)
            if n is None:
                n, d = cn, cd
            elif d.eq(cd):
                n = n + cn
            elif cd.eq(one):
                n = n + cn * d
            elif d.eq(one):
                n, d = n * cd + cn, cd
            else:
                n, d = n * cd + cn * d, d * cd
        res = (n, d)
    elif k == z3.Z3_OP_SUB:
        cs = t.children()
        n, d = ratnorm(cs[0])
        for c in cs[1:]:
            cn, cd = ratnorm(c)
            if d.eq(cd):
                n = n - cn
            elif cd.eq(one):
                n = n - cn * d
            elif d.eq(one):
                n, d = n * cd - cn, cd
            else:
                n, d = n * cd - cn * d, d * cd
        res = (n, d)
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratnorm(t.children()[0])
        res = (-n, d)
    elif k == z3.Z3_OP_MUL:
        n, d = one, one
        for c in t.children():
            cn, cd = ratnorm(c)
            n = cn if n.eq(one) else n * cn
            if not cd.eq(one):
                d = cd if d.eq(one) else d * cd
        res = (n, d)
    elif k == z3.Z3_OP_DIV:
        a, b = t.children()
        an, ad = ratnorm(a)
        bn, bd = ratnorm(b)
        n = an if bd.eq(one) else an * bd
        d = bn if ad.eq(one) else ad * bn
        res = (n, d)
    elif k == z3.Z3_OP_TO_REAL and not z3.is_int_value(t.children()[0]):
        res = (t, one)
    else:
        res = (t, one)
    memo[key] = (res[0], res[1], t)
    return res


def _som(t):
    return z3.simplify(t, som=True, som_blowup=4000, hoist_mul=False, arith_lhs=True)


def poly_equal(a, b):
    """True when the two terms are equal as rational functions of their atoms
    (denominators were asserted non-zero when the divisions were executed)."""
    if a.eq(b):
        return True
    a = to_real(a)
    b = to_real(b)
    memo = ENG.memo.setdefault("polyeq", {})
    key = (a.get_id(), b.get_id())
    r = memo.get(key)
    if r is not None:
        return r[0]
    an, ad = ratnorm(a)
    bn, bd = ratnorm(b)
    if ad.eq(bd):
        d = _som(an - bn)
    else:
        d = _som(an * bd - bn * ad)
    d = z3.simplify(d)
    ok = z3.is_rational_value(d) and numval(d) == 0
    if not ok and ENG.memo.get("sqrt") and not z3.is_rational_value(d):
        ok = _zero_mod_roots(d) or rat_zero(a - b)
    memo[key] = (ok, a, b)
    return ok


class _Blowup(Exception):
    pass


def _pmul(p, q):
    if len(p) * len(q) > 20000:
        raise _Blowup()
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            e = dict(m1)
            for a, k in m2:
                e[a] = e.get(a, 0) + k
            m = tuple(sorted(e.items()))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c != 0}


def _padd(p, q):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + c
        if out[m] == 0:
            del out[m]
    return out


def _poly(t):
    """z3 polynomial term -> {((atom id, power), ...): coefficient}"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        c = Fraction(numval(t))
        return {(): c} if c != 0 else {}
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        out = {}
        for c in t.children():
            out = _padd(out, _poly(c))
        return out
    if k == z3.Z3_OP_SUB:
        cs = t.children()
        out = _poly(cs[0])
        for c in cs[1:]:
            out = _padd(out, {m: -v for m, v in _poly(c).items()})
        return out
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in _poly(t.children()[0]).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for c in t.children():
            out = _pmul(out, _poly(c))
        return out
    if k == z3.Z3_OP_POWER:
        b, e = t.children()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            n = Fraction(numval(e))
            if n.denominator == 1 and 0 <= n <= 12:
                out, pb = {(): Fraction(1)}, _poly(b)
                for _ in range(int(n)):
                    out = _pmul(out, pb)
                return out
    ENG.memo.setdefault("atoms", {})[t.get_id()] = t
    return {((t.get_id(), 1),): Fraction(1)}


def _zero_mod_roots(d):
    """is the polynomial zero once every sqrt atom s is reduced by s*s = its radicand?"""
    try:
        p = _poly(d)
        for (u, s) in reversed(ENG.memo["sqrt"]):
            sid = s.get_id()
            top = max([dict(m).get(sid, 0) for m in p] or [0])
            if top == 0:
                continue
            un, ud = ratnorm(u)
            pn, pd_ = _poly(un), _poly(ud)
            k = top // 2
            pows_n, pows_d = [{(): Fraction(1)}], [{(): Fraction(1)}]
            for _ in range(k):
                pows_n.append(_pmul(pows_n[-1], pn))
                pows_d.append(_pmul(pows_d[-1], pd_))
            out = {}
            for m, c in p.items():
                e = dict(m)
                j = e.pop(sid, 0)
                if j % 2:
                    e[sid] = 1
                base = {tuple(sorted(e.items())): c}
                out = _padd(out, _pmul(base, _pmul(pows_n[j // 2], pows_d[k - j // 2])))
            p = out
        return not p
    except _Blowup:
        return False


# ------------------------------------------------ rational normal form
def _lead(p):
    return max(p, key=lambda m: (sum(k for _, k in m), m))


def _mdiv(a, b):
    """monomial a / b (exponents may become negative)"""
    e = dict(a)
    for v, k in b:
        e[v] = e.get(v, 0) - k
        if e[v] == 0:
            del e[v]
    return tuple(sorted(e.items()))


def _lexkey(m, order):
    d = dict(m)
    return tuple(d.get(v, 0) for v in order)


def _exact_div(p, d):
    """p / d when d divides p (ordinary polynomials), else None"""
    vs = sorted(set(v for m in p for v, _ in m) | set(v for m in d for v, _ in m))
    ld = max(d, key=lambda m: _lexkey(m, vs))
    q, rest = {}, dict(p)
    n = 0
    while rest:
        n += 1
        if n > 400:
            return None
        lm = max(rest, key=lambda m: _lexkey(m, vs))
        m = _mdiv(lm, ld)
        if any(k < 0 for _, k in m):
            return None
        c = rest[lm] / d[ld]
        q[m] = q.get(m, 0) + c
        for dm, dc in d.items():
            e = dict(m)
            for v, k in dm:
                e[v] = e.get(v, 0) + k
            t = tuple(sorted(e.items()))
            nv = rest.get(t, 0) - c * dc
            if nv == 0:
                rest.pop(t, None)
            else:
                rest[t] = nv
    return q


def _lpmul(p, q):
    if len(p) * len(q) > 6000:
        raise _Blowup()
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            e = dict(m1)
            for a, k in m2:
                e[a] = e.get(a, 0) + k
            m = tuple(sorted((a, k) for a, k in e.items() if k))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c != 0}


def near_equal(a, b):
    """equal up to the rounding of irrational constants"""
    try:
        dr = _ratctx().rat(a - b)
        return all(m == () and abs(c) < Fraction(1, 10 ** 9) for m, c in dr.items())
    except _Blowup:
        return False


class _Rat(object):
    """Laurent polynomials over atoms; polynomial denominators are atoms of their own"""

    def __init__(self):
        self.memo = {}
        self.dens = {}      # key -> den atom id (negative int)
        self.denpoly = {}
        self.atoms = {}
        self.rootof = {}

    def den(self, p):
        """-> (coefficient, monomial) with p = coefficient * monomial * (den atom)"""
        mins = {}
        vs = set(v for m in p for v, _ in m)
        for v in vs:
            mins[v] = min(dict(m).get(v, 0) for m in p)
        mono = tuple(sorted((v, k) for v, k in mins.items() if k))
        p = {_mdiv(m, mono): c for m, c in p.items()}
        if len(p) == 1:
            (m, c), = p.items()
            return c, _madd(mono, m)
        lm = _lead(p)
        c = p[lm]
        p = {m: v / c for m, v in p.items()}
        key = frozenset(p.items())
        i = self.dens.get(key)
        if i is None:
            i = -(len(self.dens) + 1)
            self.dens[key] = i
            self.denpoly[i] = p
        return c, _madd(mono, ((i, 1),))

    def inv(self, p):
        c, m = self.den(p)
        return {tuple((v, -k) for v, k in m): 1 / c}

    def power(self, p, n):
        if n < 0:
            return self.power(self.inv(p), -n)
        out = {(): Fraction(1)}
        for _ in range(n):
            out = _lpmul(out, p)
        return out

    def rat(self, t):
        r = self.memo.get(t.get_id())
        if r is not None:
            return r[0]
        r = self.cancel(self.roots(self._rat(t)))
        if len(r) > 1500:
            raise _Blowup()
        self.memo[t.get_id()] = (r, t)
        return r

    def _rat(self, t):
        if _isnumt(t):
            c = Fraction(numval(t))
            return {(): c} if c else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            c = Fraction(ch[0].as_long())
            return {(): c} if c else {}
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in ch:
                out = _padd(out, self.rat(c))
            return out
        if k == z3.Z3_OP_SUB:
            out = self.rat(ch[0])
            for c in ch[1:]:
                out = _padd(out, {m: -v for m, v in self.rat(c).items()})
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.rat(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in ch:
                out = self.cancel(self.roots(_lpmul(out, self.rat(c))))
            return out
        if k == z3.Z3_OP_DIV:
            b = self.rat(ch[1])
            if not b:
                raise _Blowup()
            return _lpmul(self.rat(ch[0]), self.inv(b))
        if k == z3.Z3_OP_POWER and _isnumt(ch[1]):
            n = Fraction(numval(ch[1]))
            if n.denominator == 1 and 0 <= n <= 12:
                return self.power(self.rat(ch[0]), int(n))
        self.atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}

    def roots(self, p):
        for (u, s) in reversed(ENG.memo.get("sqrt", [])):
            sid = s.get_id()
            if not any(v == sid and k not in (0, 1) for m in p for v, k in m):
                continue
            up = self.rat(u)
            if not up:
                raise _Blowup()
            out = {}
            for m, c in p.items():
                e = dict(m)
                j = e.pop(sid, 0)
                if j % 2:
                    e[sid] = 1
                base = {tuple(sorted(e.items())): c}
                h = j // 2
                out = _padd(out, _lpmul(base, self.power(up, h)) if h else base)
            p = out
        return p

    def cancel(self, p):
        ds = set(v for m in p for v, k in m if v < 0 and k < 0)
        for d in sorted(ds):
            changed = True
            while changed:
                changed = False
                groups = {}
                for m, c in p.items():
                    groups.setdefault(dict(m).get(d, 0), {})[tuple(x for x in m if x[0] != d)] = c
                lo = min(groups)
                if lo >= 0:
                    break
                g = groups[lo]
                # exponents of the rest made non-negative for the division
                vs = set(v for m in g for v, _ in m)
                sh = tuple(sorted((v, min(0, min(dict(m).get(v, 0) for m in g))) for v in vs))
                sh = tuple((v, k) for v, k in sh if k)
                q = _exact_div({_mdiv(m, sh): c for m, c in g.items()}, self.denpoly[d])
                if q is None:
                    break
                out = {}
                for k, gg in groups.items():
                    if k == lo:
                        gg, k = {_madd(m, sh): c for m, c in q.items()}, k + 1
                    dd = ((d, k),) if k else ()
                    out = _padd(out, {_madd(m, dd): c for m, c in gg.items()})
                p = out
                changed = True
        # positive powers of denominator atoms are expanded again
        for d in sorted(set(v for m in p for v, k in m if v < 0 and k > 0)):
            out = {}
            for m, c in p.items():
                e = dict(m)
                k = e.pop(d, 0)
                if k > 0:
                    out = _padd(out, _lpmul({tuple(sorted(e.items())): c}, self.power(self.denpoly[d], k)))
                else:
                    out = _padd(out, {m: c})
            p = out
        return p

    def term(self, p):
        """z3 term of a normal form without denominators, else None"""
        if any(k < 0 for m in p for _, k in m) or len(p) > 80:
            return None
        ts = []
        for m, c in sorted(p.items()):
            fs = [self.atoms[v] for v, k in m for _ in range(k)]
            cz = z3.Q(c.numerator, c.denominator)
            if not fs:
                ts.append(cz)
            elif c == 1:
                ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            else:
                ts.append(cz * (z3.Product(*fs) if len(fs) > 1 else fs[0]))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]


def _madd(a, b):
    e = dict(a)
    for v, k in b:
        e[v] = e.get(v, 0) + k
    return tuple(sorted((v, k) for v, k in e.items() if k))


def _ratctx():
    r = ENG.memo.get("rat")
    if r is None:
        r = ENG.memo["rat"] = _Rat()
    return r


def has_div(t):
    memo = ENG.memo.setdefault("hasdiv", {})
    r = memo.get(t.get_id())
    if r is None:
        k = t.decl().kind()
        r = k == z3.Z3_OP_DIV or (k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER,
                                        ) and any(has_div(c) for c in t.children()))
        memo[t.get_id()] = (r, t)
        return r
    return r[0]


def undivide(t):
    """an equal term without divisions, when the normal form has none; else None.  The denominators were asserted
    non-zero when the divisions were executed."""
    if t.is_int() or not has_div(t):
        return None
    memo = ENG.memo.setdefault("undiv", {})
    r = memo.get(t.get_id())
    if r is None:
        try:
            rc = _ratctx()
            v = rc.term(rc.rat(t))
        except _Blowup:
            v = None
        r = memo[t.get_id()] = (v, t)
    return r[0]


def rat_zero(t):
    try:
        return not _ratctx().rat(t)
    except _Blowup:
        return False


# ------------------------------------------------ uninterpreted functions
def sym_sqrt(x):
    if not is_sym(x):
        x = float(x)
        return math.sqrt(x) if x >= 0 else NAN
    t = z3.simplify(rterm(x))
    if has_div(t):
        u = undivide(t)
        t = t if u is None else z3.simplify(u)
    if _isnumt(t):
        n = numval(t)
        return math.sqrt(n) if n >= 0 else NAN
    memo = ENG.memo.setdefault("sqrt", [])
    for (u, s) in memo:
        if u.eq(t) or poly_equal(u, t):
            return SymReal(s)
    if ENG.choose(t < 0):
        return NAN
    s = z3.Real("sqrt!%d" % len(memo))
    ENG.atom_defs["sqrt!%d" % len(memo)] = ("sqrt", [t], None)
    ENG.add_def(s >= 0, s * s == t)
    memo.append((t, s))
    return SymReal(s)


def sym_log(x):
    if not is_sym(x):
        x = float(x)
        return math.log(x) if x > 0 else (-INF if x == 0 else NAN)
    sg = sign(rterm(x))
    if sg < 0:
        return NAN
    if sg == 0:
        return -INF
    u = undo("exp", x)
    return u if u is not None else uf("log", x)


def undo(name, x):
    """the argument, if x is literally an application of the named (injective) function"""
    t = z3.simplify(rterm(x))
    d = ENG.atom_defs.get(t.decl().name()) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    if d is not None and d[0] == "uf" and t.decl().name().startswith("uf_%s!" % name):
        return SymReal(d[1][0])
    return None


_PYUF = {
    "exp": lambda v: math.exp(v) if v < 700 else INF,
    "log": math.log,
    "sin": math.sin,
    "cos": math.cos,
    "tanh": math.tanh,
    "arctan": math.atan,
    "pow": lambda a, b: a ** b,
}


def uf(name, *args, **kw):
    """application of an uninterpreted function with optional contract axioms.
    kw: axioms = callable(args_terms, result_term, earlier) -> list of z3 Bool"""
    if not any(is_sym(a) for a in args):
        f = kw.get("concrete") or _PYUF.get(name)
        if f is not None:
            try:
                return f(*[float(a) for a in args])
            except (ValueError, OverflowError):
                return NAN
    for a in args:
        if not is_sym(a) and _nonfinite(a):
            f = kw.get("concrete") or _PYUF.get(name)
            if f is not None and len(args) == 1:
                try:
                    return f(float(a))
                except Exception:
                    return NAN
            return NAN
    ts = [z3.simplify(rterm(a)) for a in args]
    ts = [undivide(t) if has_div(t) and undivide(t) is not None else t for t in ts]
    memo = ENG.memo.setdefault("uf:" + name, [])
    for (us, r, _) in memo:
        if all(u.eq(t) or poly_equal(u, t) or near_equal(u, t) for u, t in zip(us, ts)):
            return SymReal(r)
    # Ackermann style: a fresh value per distinct argument plus congruence
    r = z3.Real("uf_%s!%d" % (name, len(memo)))
    ENG.atom_defs["uf_%s!%d" % (name, len(memo))] = ("uf", ts, kw.get("concrete") or _PYUF.get(name))
    if memo:
        ENG.add_def(*[z3.Implies(z3.And([u == t for u, t in zip(us, ts)]), q == r) for (us, q, _) in memo])
    ax = kw.get("axioms") or _AXIOMS.get(name)
    if ax is not None:
        ENG.add_def(*ax(ts, r, memo))
    memo.append((ts, r, kw.get("concrete") or _PYUF.get(name)))
    return SymReal(r)


def _ax_exp(ts, r, memo):
    t = ts[0]
    out = [r > 0, r >= t + 1, z3.Implies(t <= 0, r <= 1)]
    for (us, q, _) in memo:
        out += [z3.Implies(us[0] < t, q < r), z3.Implies(us[0] > t, q > r)]
    return out


def _ax_log(ts, r, memo):
    t = ts[0]
    out = [r <= t - 1, z3.Implies(t >= 1, r >= 0), z3.Implies(t < 1, r < 0)]
    for (us, q, _) in memo:
        out += [z3.Implies(us[0] < t, q < r), z3.Implies(us[0] > t, q > r)]
    return out


def _ax_trig(ts, r, memo):
    return [r <= 1, r >= -1]


_AXIOMS = {"exp": _ax_exp, "log": _ax_log, "sin": _ax_trig, "cos": _ax_trig, "tanh": _ax_trig}


# ------------------------------------------------ check helpers
def _abst(t):
    return z3.If(t >= 0, t, -t)


def check_eq(eng, got, want, label):
    if isinstance_raw(got, np.ndarray) and got.ndim == 0:
        got = got.item()
    if isinstance_raw(want, np.ndarray) and want.ndim == 0:
        want = want.item()
    if issubclass(type(got), SymBool) or issubclass(type(want), SymBool):
        if issubclass(type(got), (SymBool, bool, np.bool_)) and issubclass(type(want), (SymBool, bool, np.bool_)):
            eng.check(bterm(got) == bterm(want), label)
            return
    gs, ws = is_sym(got), is_sym(want)
    if not gs and not ws:
        eng.check(z3.BoolVal(conc_eq(got, want)), label)
        return
    for v in (got, want):
        if not is_sym(v) and not _isnum(v) and not isinstance_raw(v, Fraction):
            eng.check(z3.BoolVal(False), label)
            return
    for v in (got, want):
        if not is_sym(v) and _isnum(v) and _nonfinite(v):
            eng.check(z3.BoolVal(False), label)
            return
    a, b = _coerce(term(got), term(want))
    if a.eq(b) or poly_equal(a, b):
        eng.st.checks += 1
        eng.st.rewriter += 1
        eng.labels[label] = eng.labels.get(label, 0) + 1
        return
    d = a - b
    if near_equal(a, b):
        eng.st.checks += 1
        eng.st.rewriter += 1
        eng.labels[label] = eng.labels.get(label, 0) + 1
        return
    an, ad = ratnorm(to_real(a))
    bn, bd = ratnorm(to_real(b))
    one = z3.RealVal(1)
    if ad.eq(one) and bd.eq(one):
        c = a == b
    else:
        # cross-multiplied (denominators non-zero on this path)
        c = z3.simplify(an * bd == bn * ad)
    margin = _abst(d) > rv(Fraction(1, 5000)) * (1 + _abst(a) + _abst(b))
    eng.check(c, label, margin)


def check_le(eng, a, b, label):
    r = _cmp(a, b, operator.le)
    if not is_sym(a) and not is_sym(b):
        eng.check(z3.BoolVal(bool(float(a) <= float(b) + 1e-6 * (1 + abs(float(a)) + abs(float(b))))), label)
        return
    c = bterm(r)
    if z3.is_true(c) or z3.is_false(c):
        eng.check(c, label)
        return
    x, y = _coerce(term(a), term(b))
    margin = (x - y) > rv(Fraction(1, 5000)) * (1 + _abst(x) + _abst(y))
    eng.check(c, label, margin)


def conc_eq(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if issubclass(type(a), _NUM + (Fraction,)) and issubclass(type(b), _NUM + (Fraction,)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(conc_eq(x, y, tol) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def eval_in(m, v):
    """value of v under a z3 model, as a JSON-able python value."""
    if issubclass(type(v), SymBool):
        return bool(z3.is_true(m.eval(v.t, model_completion=True)))
    if is_sym(v):
        x = m.eval(v.t, model_completion=True)
        n = numval(z3.simplify(x))
        return None if n is None else float(n)
    if isinstance_raw(v, np.ndarray) and v.ndim == 0:
        return eval_in(m, v.item())
    if issubclass(type(v), (bool, np.bool_)):
        return bool(v)
    if _isnum(v):
        return float(v)
    if isinstance(v, (list, tuple)):
        return [eval_in(m, x) for x in v]
    return str(v)
