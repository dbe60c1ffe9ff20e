"""Distributions of scipy on symbolic arguments (exact formulas; plain arguments go to scipy)."""
import math
from fractions import Fraction

import numpy as np
import scipy.special
import scipy.stats

from . import proxy as P
from . import terms as T
from .proxy import CTX, SymBase, SymNum, is_sym, lift, wrap
from .shims import _map, active


class LogNum(object):
    """The logarithm of a non-negative symbolic value."""

    __array_ufunc__ = None
    _sx_log = True

    def __init__(self, value):
        self.value = value

    def __add__(self, o):
        if isinstance(o, LogNum):
            return LogNum(self.value * o.value)
        if isinstance(o, SymBase):
            return LogNum(self.value * o.exp())
        return LogNum(self.value * math.exp(float(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, LogNum):
            return LogNum(self.value / o.value)
        if isinstance(o, SymBase):
            return LogNum(self.value / o.exp())
        return LogNum(self.value * math.exp(-float(o)))

    def exp(self):
        return self.value


def _sym(*a):
    return active() and any([is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object and is_sym(x)) for x in a])


def binom_pmf(k, n, p):
    k, n = int(k), int(n)
    if k < 0 or k > n:
        return 0
    return math.comb(n, k) * p ** k * (1 - p) ** (n - k)


def nbinom_pmf(k, r, p):
    k = int(k)
    if k < 0:
        return 0
    if isinstance(r, SymBase):
        c = 1
        for i in range(k):
            c = c * (r + i) / (i + 1)
        return c * (p ** r) * (1 - p) ** k
    r = P.rational(float(r))
    c = Fraction(1)
    for i in range(k):
        c = c * (r + i) / (i + 1)
    pr = p ** int(r) if r.denominator == 1 else p ** float(r)
    return c * pr * (1 - p) ** k


def poisson_sf(k, m):
    """P(X > k) as a function symbol with the facts every Poisson tail satisfies."""
    ctx = CTX[0]
    k = int(k)
    if k < 0:
        return 1.0
    if not isinstance(m, SymBase):
        return float(scipy.stats.poisson.sf(k, float(m)))
    t = T.to_real(lift(m))
    key = ("psf", k, t.id)
    v = ctx.fns.get(key)
    if v is not None:
        return SymNum(v)
    v = T.var("psf%d#%d" % (k, t.id), "R")
    ctx.fns[key] = v
    ctx.fnargs[key] = t
    if v.val not in ctx.model:
        tv = ctx._eval(t)
        ctx.model[v.val] = P.rational(float(_REAL_SF(k, float(tv)))) if tv is not None else Fraction(1, 2)
        ctx.evalcache = {}
    zero, one = T.real_const(0), T.real_const(1)
    facts = [T.le(zero, v), T.le(v, one), T.eq(T.eq(t, zero), T.eq(v, zero)), T.le(T.mul(T.real_const(k + 1), v), t), T.lt(v, one)]
    for k2, other in list(ctx.fns.items()):
        if k2[0] != "psf" or k2 == key:
            continue
        t2 = ctx.fnargs[k2]
        if k2[1] == k:
            facts += [T.eq(T.lt(t, t2), T.lt(v, other)), T.eq(T.lt(t2, t), T.lt(other, v))]
        elif t2 is t:
            facts.append(T.le(other, v) if k2[1] > k else T.le(v, other))
    for f in facts:
        ctx.assume_term(f)
    return SymNum(v)


_REAL_SF = scipy.stats.poisson.sf


def _poisson_pmf(k, m):
    return poisson_sf(int(k) - 1, m) - poisson_sf(int(k), m)


def _wrapper(orig, one, log=False):
    def f(*a, **kw):
        if kw:
            names = getattr(f, "names", ())
            a = list(a) + [kw[n] for n in names[len(a):] if n in kw]
        if not _sym(*a):
            return orig(*a)
        g = (lambda *x: LogNum(one(*x))) if log else one
        a = [list(x) if isinstance(x, range) else x for x in a]
        return _map(g, *a)

    return f


class stand_ins(object):
    """While active, the distributions accept symbolic arguments."""

    def __init__(self, ctx):
        self.on = ctx.sym

    def __enter__(self):
        self.saved = []
        if not self.on:
            return self
        st = scipy.stats

        def put(obj, name, value):
            d = obj.__dict__
            self.saved.append((obj, name, name in d, d.get(name)))
            setattr(obj, name, value)

        for dist, one, names in ((st.nbinom, nbinom_pmf, ("k", "n", "p")), (st.binom, binom_pmf, ("k", "n", "p")), (st.poisson, _poisson_pmf, ("k", "mu"))):
            for meth, log in (("pmf", False), ("logpmf", True)):
                w = _wrapper(getattr(dist, meth), one, log)
                w.names = names
                put(dist, meth, w)
        w = _wrapper(st.poisson.sf, poisson_sf)
        put(st.poisson, "sf", w)
        w = _wrapper(st.poisson.cdf, lambda k, m: 1 - poisson_sf(k, m))
        put(st.poisson, "cdf", w)
        w = _wrapper(st.nbinom.mean, lambda r, p: r * (1 - p) / p)
        put(st.nbinom, "mean", w)
        gen = st._discrete_distns.binom_gen
        for meth, log in (("pmf", False), ("logpmf", True)):
            orig = getattr(gen, meth)

            def method(self, *a, _o=orig, _l=log, **kw):
                return _wrapper(lambda *x: _o(self, *x, **kw), binom_pmf, _l)(*a)

            put(gen, meth, method)
        return self

    def __exit__(self, *exc):
        for obj, name, had, old in reversed(self.saved):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        return False
