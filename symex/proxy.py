"""Proxy values that the real code computes with; branches on them ask the engine."""
import math
from fractions import Fraction

import numpy as np

from . import terms as T

CTX = [None]  # the current engine context


class Unsupported(Exception):
    """An operation the encoding does not cover."""


class SymBase(object):
    __slots__ = ()


_float_cache = {}


def rational(f):
    """The simplest rational that rounds to the float f."""
    r = _float_cache.get(f)
    if r is None:
        r = Fraction(f)
        if r.denominator > 1:
            for lim in (1000, 10 ** 6, 10 ** 9, 10 ** 12):
                s = r.limit_denominator(lim)
                if float(s) == f:
                    r = s
                    break
        if len(_float_cache) < 100000:
            _float_cache[f] = r
    return r


def lift(x):
    """Term of a number (or None when x is not a number; inf/nan give None too)."""
    if isinstance(x, SymNum):
        return x.term
    if isinstance(x, SymBool):
        return T.ite(x.term, T.const(1), T.const(0))
    if isinstance(x, (bool, np.bool_)):
        return T.const(1 if x else 0)
    if isinstance(x, (int, np.integer)):
        return T.const(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (math.inf, -math.inf):
            return None
        return T.real_const(rational(f))
    if isinstance(x, Fraction):
        return T.real_const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def lift_bool(x):
    if isinstance(x, SymBool):
        return x.term
    if isinstance(x, SymNum):
        return T.not_(T.eq(x.term, T.const(0)))
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return lift_bool(x.item())
        raise Unsupported("truth value of an array")
    return T.boolean(bool(x))


def wrap(t):
    """A python value for a term: plain numbers when constant."""
    if t.sort == "B":
        return t.val if T.is_const(t) else SymBool(t)
    if T.is_const(t):
        if t.sort == "I":
            return t.val
        return unrational(t.val)
    return SymNum(t)


def unrational(v):
    """Keep exact values exact: a real constant stays symbolic-typed if no float holds it."""
    f = float(v)
    if rational(f) == v:
        return f
    return SymNum(T.real_const(v))


def is_sym(x):
    if isinstance(x, SymBase):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any([is_sym(v) for v in x.ravel()])
    if isinstance(x, (list, tuple, set, frozenset)):
        return any([is_sym(v) for v in x])
    if isinstance(x, dict):
        return any([is_sym(v) for v in x.values()]) or any([is_sym(v) for v in x.keys()])
    return False


def _is_inf(x):
    return isinstance(x, (float, np.floating)) and float(x) in (math.inf, -math.inf)


def _is_nan(x):
    return isinstance(x, (float, np.floating)) and float(x) != float(x)


def _nonfinite(op, a, b):
    """Result of an arithmetic operation when one operand is inf/nan (floats)."""
    x, y = (b, a) if isinstance(a, SymBase) else (a, b)
    inf = float(x)
    if inf != inf:
        return math.nan
    if op == "add":
        return inf
    if op == "sub":
        return inf if not isinstance(a, SymBase) else -inf
    if op == "mul":
        s = SymNum(lift(y))
        if s > 0:
            return inf
        if s < 0:
            return -inf
        return math.nan
    if op == "div":
        if isinstance(a, SymBase):
            return 0.0
        s = SymNum(lift(y))
        if s < 0:
            return -inf
        return inf
    raise Unsupported("arithmetic with inf")


def _spread(f, op, a, b):
    """A numpy scalar against a sequence works element by element."""
    xs = b if isinstance(b, (list, tuple)) else a
    out = np.empty(len(xs), dtype=object)
    for i, v in enumerate(xs):
        out[i] = f(op, a, v) if xs is b else f(op, v, b)
    return out


def _arith(op, a, b):
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return _spread(_arith, op, a, b)
        o = b if ta is not None else a
        if _is_inf(o) or _is_nan(o):
            return _nonfinite(op, a, b)
        return NotImplemented
    if op == "add":
        return wrap(T.add(ta, tb))
    if op == "sub":
        return wrap(T.sub(ta, tb))
    if op == "mul":
        return wrap(T.mul(ta, tb))
    if op == "div":
        npstyle = isinstance(a, np.floating) or isinstance(b, np.floating)
        if not T.is_const(tb) or tb.val == 0:
            z = wrap(T.eq(tb, T.const(0)))
            if z:
                if npstyle:
                    n = wrap(T.eq(ta, T.const(0)))
                    if n:
                        return math.nan
                    return math.inf if wrap(T.lt(T.const(0), ta)) else -math.inf
                raise ZeroDivisionError("division by zero")
        return wrap(T.div(ta, tb))
    if op in ("floordiv", "mod"):
        if not T.is_const(tb) or tb.val == 0:
            if wrap(T.eq(tb, T.const(0))):
                raise ZeroDivisionError("integer division or modulo by zero")
        if ta.sort == "I" and tb.sort == "I":
            if T.is_const(tb):
                k = tb.val
                if k > 0:
                    q = T.intdiv(ta, tb)
                else:
                    q = T.intdiv(T.neg(ta), T.const(-k))
            else:
                if wrap(T.lt(T.const(0), tb)):
                    q = T.intdiv(ta, tb)
                else:
                    q = T.intdiv(T.neg(ta), T.neg(tb))
        else:
            q = T.floor(T.div(ta, tb))
        if op == "floordiv":
            if ta.sort == "I" and tb.sort == "I":
                return wrap(q)
            return wrap(T.to_real(q))
        return wrap(T.sub(ta, T.mul(tb, q)))
    raise AssertionError(op)


def _compare(op, a, b):
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        o = b if ta is not None else a
        if _is_nan(o):
            return op == "ne"
        if _is_inf(o):
            av = float(a) if ta is None else 0.0
            bv = float(b) if tb is None else 0.0
            return {"eq": av == bv, "ne": av != bv, "lt": av < bv, "le": av <= bv}[op]
        if op in ("lt", "le") and (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))):
            return _spread(_compare, op, a, b)
        return NotImplemented
    if op == "eq":
        return wrap(T.eq(ta, tb))
    if op == "ne":
        return wrap(T.not_(T.eq(ta, tb)))
    if op == "lt":
        return wrap(T.lt(ta, tb))
    return wrap(T.le(ta, tb))


def sym_trunc(t):
    if t.sort == "I":
        return t
    return T.ite(T.le(T.const(0), t), T.floor(t), T.neg(T.floor(T.neg(t))))


def sym_round(t):
    """Round half to even, as an Int term."""
    if t.sort == "I":
        return t
    h = T.add(t, T.real_const(Fraction(1, 2)))
    f = T.floor(h)
    odd = T.eq(T.sub(f, T.mul(T.const(2), T.intdiv(f, T.const(2)))), T.const(1))
    tie = T.eq(T.to_real(f), h)
    return T.ite(T.and_(tie, odd), T.sub(f, T.const(1)), f)


class SymNum(SymBase):
    __slots__ = ("term",)
    __array_priority__ = -1

    def __init__(self, term):
        self.term = term

    # arithmetic
    def __add__(self, o):
        return _arith("add", self, o)

    def __radd__(self, o):
        return _arith("add", o, self)

    def __sub__(self, o):
        return _arith("sub", self, o)

    def __rsub__(self, o):
        return _arith("sub", o, self)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return _arith("mul", self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return _arith("mul", o, self)

    def __truediv__(self, o):
        return _arith("div", self, o)

    def __rtruediv__(self, o):
        return _arith("div", o, self)

    def __floordiv__(self, o):
        return _arith("floordiv", self, o)

    def __rfloordiv__(self, o):
        return _arith("floordiv", o, self)

    def __mod__(self, o):
        return _arith("mod", self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _arith("mod", o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return wrap(T.neg(self.term))

    def __pos__(self):
        return self

    def __abs__(self):
        t = self.term
        return wrap(T.ite(T.le(T.const(0), t), t, T.neg(t)))

    absolute = fabs = __abs__

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymNum):
            return CTX[0].power(self, o)
        if isinstance(o, (float, np.floating)) and float(o) != int(o):
            return CTX[0].root(self, rational(float(o)))
        k = int(o)
        if k < 0:
            return 1 / (self ** (-k))
        r = T.const(1) if self.term.sort == "I" and isinstance(o, (int, np.integer)) else T.real_const(1)
        for _ in range(k):
            r = T.mul(r, self.term)
        return wrap(r)

    def __rpow__(self, o):
        return CTX[0].power(o, self)

    # comparison
    def __eq__(self, o):
        return _compare("eq", self, o)

    def __ne__(self, o):
        return _compare("ne", self, o)

    def __lt__(self, o):
        return _compare("lt", self, o)

    def __le__(self, o):
        return _compare("le", self, o)

    def __gt__(self, o):
        return _compare("lt", o, self)

    def __ge__(self, o):
        return _compare("le", o, self)

    def __bool__(self):
        return CTX[0].branch(T.not_(T.eq(self.term, T.const(0))))

    def __hash__(self):
        return CTX[0].hash_of(self.term)

    # conversions
    def __index__(self):
        if self.term.sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX[0].concretize_int(self.term)

    def __int__(self):
        return CTX[0].concretize_int(sym_trunc(self.term))

    def __float__(self):
        return CTX[0].concretize_real(self.term)

    def __complex__(self):
        return complex(float(self))

    def __trunc__(self):
        return wrap(sym_trunc(self.term))

    def __floor__(self):
        return wrap(T.floor(self.term))

    def __ceil__(self):
        return wrap(T.neg(T.floor(T.neg(self.term))))

    def floor(self):
        return wrap(T.to_real(T.floor(self.term)))

    def ceil(self):
        return wrap(T.to_real(T.neg(T.floor(T.neg(self.term)))))

    def trunc(self):
        return wrap(T.to_real(sym_trunc(self.term)))

    def __round__(self, nd=None):
        if nd is None:
            return wrap(sym_round(self.term))
        if self.term.sort == "I" and nd >= 0:
            return self
        k = 10 ** nd if nd >= 0 else Fraction(1, 10 ** -nd)
        return wrap(T.div(T.to_real(sym_round(T.scale(T.to_real(self.term), Fraction(k)))), T.real_const(k)))

    def rint(self):
        return wrap(T.to_real(sym_round(self.term)))

    # float / int / numpy scalar interface
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return wrap(T.eq(T.to_real(T.floor(self.term)), T.to_real(self.term)))

    def item(self):
        return self

    def astype(self, ty):
        if ty in (int, "int", "int32", "int64", np.int32, np.int64):
            return wrap(sym_trunc(self.term))
        return self

    def sqrt(self):
        if self < 0:
            return math.nan
        return CTX[0].root(self, Fraction(1, 2))

    def square(self):
        return self * self

    def exp(self):
        return CTX[0].fn("exp", self)

    def log(self):
        if self <= 0:
            if self == 0:
                return -math.inf
            return math.nan
        return CTX[0].fn("log", self)

    def log1p(self):
        return (self + 1).log() if isinstance(self + 1, SymNum) else math.log1p(self + 1 - 1)

    def expm1(self):
        return self.exp() - 1

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def logical_not(self):
        return wrap(T.eq(self.term, T.const(0)))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return CTX[0].token(self.term)

    def __repr__(self):
        return CTX[0].token(self.term)

    def __format__(self, spec):
        return CTX[0].format(self.term, spec)


class SymBool(SymBase):
    __slots__ = ("term",)
    __array_priority__ = -1

    def __init__(self, term):
        self.term = term

    def __bool__(self):
        return CTX[0].branch(self.term)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return wrap(T.and_(self.term, lift_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return wrap(T.or_(self.term, lift_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return wrap(T.not_(T.eq(self.term, lift_bool(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(T.not_(self.term))

    def logical_not(self):
        return wrap(T.not_(self.term))

    def _num(self):
        return SymNum(T.ite(self.term, T.const(1), T.const(0)))

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    def __rmul__(self, o):
        return o * self._num()

    def __truediv__(self, o):
        return self._num() / o

    def __rtruediv__(self, o):
        return o / self._num()

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return wrap(T.eq(self.term, lift_bool(o)))
        return self._num() == o

    def __ne__(self, o):
        r = self == o
        return r.logical_not() if isinstance(r, SymBool) else (r if r is NotImplemented else not r)

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__


# ---------------------------------------------------------- harness helpers
def ite(c, a, b):
    if isinstance(c, SymBool):
        ta, tb = lift(a), lift(b)
        if ta is not None and tb is not None:
            return wrap(T.ite(c.term, ta, tb))
        return a if c else b
    return a if c else b


def land(*xs):
    if any([isinstance(x, SymBool) for x in xs]):
        return wrap(T.and_(*[lift_bool(x) for x in xs]))
    return all([bool(x) for x in xs])


def lor(*xs):
    if any([isinstance(x, SymBool) for x in xs]):
        return wrap(T.or_(*[lift_bool(x) for x in xs]))
    return any([bool(x) for x in xs])


def lnot(x):
    if isinstance(x, SymBool):
        return wrap(T.not_(x.term))
    return not x


def imp(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    return land(imp(a, b), imp(b, a))


def smax(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = ite(x > out, x, out)
    return out


def smin(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = ite(x < out, x, out)
    return out


def ssum(xs):
    out = 0
    for x in xs:
        out = out + x
    return out


def count(conds):
    return ssum([ite(c, 1, 0) for c in conds])
