"""Replacements injected into the modules of /repo while they run symbolically.

Each behaves as the original on plain values and carries proxies through
operations whose C implementation would otherwise force a float.
"""
import ast
import importlib.abc
import importlib.machinery
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import proxy as P
from . import terms as T
from .proxy import CTX, SymBase, SymBool, SymNum, is_sym, lift, wrap


def active():
    return CTX[0] is not None


def _map(f, *arrs):
    arrs = [np.asarray(a, dtype=object) for a in arrs]
    bs = np.broadcast(*arrs)
    out = np.empty(bs.shape, dtype=object)
    flat = out.ravel() if out.ndim else None
    vals = [f(*xs) for xs in bs]
    if out.ndim == 0:
        return vals[0]
    for i, v in enumerate(vals):
        flat[i] = v
    return flat.reshape(bs.shape)


def _obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def _unary(name):
    orig = getattr(np, name)

    def one(x):
        if isinstance(x, SymBase) or hasattr(x, "_sx_log"):
            return getattr(x, name)()
        return orig(float(x)) if not isinstance(x, (int, float)) or name not in ("floor", "ceil", "abs") else orig(x)

    def f(a, *args, **kw):
        if not active():
            return orig(a, *args, **kw)
        if isinstance(a, SymBase):
            return getattr(a, name)()
        if _obj(a) or is_sym(a):
            return _map(one, np.asarray(a, dtype=object))
        return orig(a, *args, **kw)

    f.__name__ = name
    return f


def _abs(a, *args, **kw):
    if active() and (_obj(a) or is_sym(a)):
        if isinstance(a, SymBase):
            return abs(a)
        return _map(abs, np.asarray(a, dtype=object))
    return np.abs(a, *args, **kw)


def _is_float_dtype(dt):
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind in "fiu"
    except TypeError:
        return False


def _zeros(shape, dtype=None, **kw):
    if active() and _is_float_dtype(dtype):
        out = np.empty(shape, dtype=object)
        out.fill(0.0 if dtype is None or np.dtype(dtype).kind == "f" else 0)
        return out
    return np.zeros(shape, dtype or float, **kw)


def _ones(shape, dtype=None, **kw):
    if active() and _is_float_dtype(dtype):
        out = np.empty(shape, dtype=object)
        out.fill(1.0 if dtype is None or np.dtype(dtype).kind == "f" else 1)
        return out
    return np.ones(shape, dtype or float, **kw)


def _full(shape, v, dtype=None, **kw):
    if active():
        out = np.empty(shape, dtype=object)
        out.fill(v)
        return out
    return np.full(shape, v, dtype, **kw)


def _empty(shape, dtype=None, **kw):
    if active() and _is_float_dtype(dtype):
        return _zeros(shape, dtype)
    return np.empty(shape, dtype or float, **kw)


def _convert(a, dtype):
    if dtype is None:
        return a
    k = np.dtype(dtype).kind
    if k in "iu":
        return _map(lambda x: wrap(P.sym_trunc(lift(x))) if isinstance(x, SymBase) else int(x), a)
    return a


def _array(a, dtype=None, **kw):
    if active() and is_sym(list(a) if isinstance(a, (list, tuple)) else a):
        return _convert(np.array(a, dtype=object, **kw), dtype if dtype is not object else None)
    if active() and isinstance(a, np.ndarray) and a.dtype == object and dtype is None:
        return np.array(a, **kw)
    if dtype is None:
        return np.array(a, **kw)
    return np.array(a, dtype, **kw)


def _asarray(a, dtype=None, **kw):
    if active() and is_sym(a):
        if isinstance(a, np.ndarray) and dtype is None:
            return a
        return _convert(np.asarray(a, dtype=object), dtype if dtype is not object else None)
    return np.asarray(a, dtype, **kw) if dtype is not None else np.asarray(a, **kw)


def _isnan(a):
    def one(x):
        return False if isinstance(x, SymBase) else bool(x != x)

    if active() and (_obj(a) or is_sym(a)):
        if isinstance(a, SymBase):
            return False
        return np.array([one(x) for x in np.asarray(a, dtype=object).ravel()], dtype=bool).reshape(np.shape(a))
    return np.isnan(a)


def _isfinite(a):
    def one(x):
        return True if isinstance(x, SymBase) else math.isfinite(x)

    if active() and (_obj(a) or is_sym(a)):
        if isinstance(a, SymBase):
            return True
        return np.array([one(x) for x in np.asarray(a, dtype=object).ravel()], dtype=bool).reshape(np.shape(a))
    return np.isfinite(a)


def _isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if active() and (is_sym(a) or is_sym(b)):
        return _map(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)
    return np.isclose(a, b, rtol=rtol, atol=atol, **kw)


def _allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if active() and (is_sym(a) or is_sym(b)):
        r = _isclose(a, b, rtol, atol)
        return all([bool(x) for x in np.asarray(r, dtype=object).ravel()])
    return np.allclose(a, b, rtol=rtol, atol=atol, **kw)


def _array_equal(a, b, **kw):
    if active() and (is_sym(a) or is_sym(b)):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return False
        return all([bool(x == y) for x, y in zip(a.ravel(), b.ravel())])
    return np.array_equal(a, b, **kw)


def _array_equiv(a, b):
    if active() and (is_sym(a) or is_sym(b)):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            return False
        return all([bool(x == y) for x, y in zip(a.ravel(), b.ravel())])
    return np.array_equiv(a, b)


def _where(c, *xs):
    if active() and (is_sym(c) or any([is_sym(x) for x in xs])):
        if not xs:
            return np.nonzero(np.array([bool(x) for x in np.asarray(c, dtype=object).ravel()]).reshape(np.shape(c)))
        return _map(P.ite, np.asarray(c, dtype=object), *xs)
    return np.where(c, *xs)


def _minmax(name, pick):
    orig = getattr(np, name)

    def f(a, b, *args, **kw):
        if active() and (is_sym(a) or is_sym(b) or _obj(a) or _obj(b)):
            return _map(pick, a, b)
        return orig(a, b, *args, **kw)

    f.accumulate = lambda a, *k, **kw: _accumulate(pick, a) if active() and (_obj(np.asarray(a)) or is_sym(a)) else orig.accumulate(a, *k, **kw)
    f.outer = lambda a, b, **kw: _map(pick, np.asarray(a, dtype=object).reshape(-1, 1), np.asarray(b, dtype=object).reshape(1, -1)) if active() and (is_sym(a) or is_sym(b) or _obj(a) or _obj(b)) else orig.outer(a, b, **kw)
    f.reduce = lambda a, *k, **kw: _reduce(pick, a) if active() and (_obj(np.asarray(a)) or is_sym(a)) else orig.reduce(a, *k, **kw)
    return f


def _accumulate(pick, a):
    out = np.array(a, dtype=object)
    for i in range(1, len(out)):
        out[i] = pick(out[i - 1], out[i])
    return out


def _reduce(pick, a):
    xs = list(np.asarray(a, dtype=object).ravel())
    out = xs[0]
    for x in xs[1:]:
        out = pick(out, x)
    return out


def _clip(a, lo, hi, *args, **kw):
    if active() and (is_sym(a) or is_sym(lo) or is_sym(hi) or _obj(a)):
        r = a
        if lo is not None:
            r = _map(P.smax, r, lo)
        if hi is not None:
            r = _map(P.smin, r, hi)
        return r
    return np.clip(a, lo, hi, *args, **kw)


def _round(a, decimals=0, *args, **kw):
    if active() and (_obj(a) or is_sym(a)):
        def one(x):
            if isinstance(x, SymBase):
                y = round(x, decimals)
                return wrap(T.to_real(lift(y)))
            return np.round(x, decimals)
        return _map(one, np.asarray(a, dtype=object))
    return np.round(a, decimals, *args, **kw)


def _amax(pick, name):
    orig = getattr(np, name)

    def f(a, *args, **kw):
        if active() and not args and not kw and (is_sym(a) or _obj(a)):
            return _reduce(pick, a)
        return orig(a, *args, **kw)

    return f


def _anyall(name):
    orig = getattr(np, name)

    def f(a, *args, **kw):
        if active() and not args and not kw and (is_sym(a) or _obj(a)):
            xs = [x for x in np.asarray(a, dtype=object).ravel()]
            return (P.lor if name == "any" else P.land)(*xs) if xs else name == "all"
        return orig(a, *args, **kw)

    return f


def _cumsum(a, *args, **kw):
    if active() and is_sym(a):
        return np.cumsum(np.asarray(a, dtype=object), *args)
    return np.cumsum(a, *args, **kw)


def _linspace(a, b, num=50, endpoint=True, **kw):
    if active() and (is_sym(a) or is_sym(b)):
        d = num - 1 if endpoint else num
        return np.array([a + (b - a) * Fraction(i, d) if d else a for i in range(num)], dtype=object)
    return np.linspace(a, b, num, endpoint, **kw)


def _flat(a):
    return list(np.asarray(a, dtype=object).ravel())


def _issym(a):
    return active() and (is_sym(a if isinstance(a, (list, tuple, np.ndarray, SymBase)) else 0) or _obj(a))


def _mean(a, *args, **kw):
    if _issym(a) and not args and not kw:
        xs = _flat(a)
        return P.ssum(xs) / len(xs) if xs else float("nan")
    return np.mean(a, *args, **kw)


def _var(a, *args, ddof=0, **kw):
    if _issym(a) and not args and not kw:
        xs = _flat(a)
        m = P.ssum(xs) / len(xs)
        return P.ssum([(x - m) * (x - m) for x in xs]) / (len(xs) - ddof)
    return np.var(a, *args, ddof=ddof, **kw)


def _sorted_terms(xs):
    """A sorting network of minima and maxima: no branching."""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            xs[j], xs[j + 1] = P.smin(xs[j], xs[j + 1]), P.smax(xs[j], xs[j + 1])
    return xs


def _quantile(a, q, *args, **kw):
    if _issym(a) and not args and not kw:
        if isinstance(q, (list, tuple, np.ndarray)):
            return np.array([_quantile(a, x) for x in q], dtype=object)
        if not 0 <= q <= 1:
            raise ValueError("Quantiles must be in the range [0, 1]")
        xs = _sorted_terms(_flat(a))
        h = (len(xs) - 1) * q
        lo = int(math.floor(h))
        hi = min(lo + 1, len(xs) - 1)
        return xs[lo] * (1 - (h - lo)) + xs[hi] * (h - lo)
    return np.quantile(a, q, *args, **kw)


def _percentile(a, q, *args, **kw):
    if _issym(a) and not args and not kw:
        return _quantile(a, np.asarray(q) / 100.0 if isinstance(q, (list, tuple, np.ndarray)) else q / 100.0)
    return np.percentile(a, q, *args, **kw)


def _median(a, *args, **kw):
    if _issym(a) and not args and not kw:
        return _quantile(a, 0.5)
    return np.median(a, *args, **kw)


def _sort(a, *args, **kw):
    if _issym(a) and not args and not kw and np.ndim(a) == 1:
        return np.array(_sorted_terms(_flat(a)), dtype=object)
    return np.sort(a, *args, **kw)


def _norm(name):
    """numpy's results have numeric types where nothing in them is symbolic."""
    orig = getattr(np, name)

    def f(*args, **kw):
        r = orig(*args, **kw)
        if active():
            if _obj(r) and not is_sym(r):
                n = np.array(r.tolist())
                return n if n.dtype.kind in "ifb" and n.shape == r.shape else r
            if type(r) is float:
                return np.float64(r)
        return r

    f.__name__ = name
    return f


def _bincount(x, weights=None, minlength=0):
    if not _issym(x) and not _issym(weights):
        return np.bincount(x, weights, minlength)
    xs = _flat(x)
    size = minlength
    for v in xs:
        while size <= v:
            size += 1
    ws = [1] * len(xs) if weights is None else _flat(weights)
    out = np.empty(size, dtype=object)
    for i in range(size):
        out[i] = P.ssum([P.ite(v == i, w, 0) for v, w in zip(xs, ws)])
    return out


def _unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    if not _issym(a) or return_index or return_inverse or kw:
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, **kw)
    vals, counts = [], []
    for v in sorted(_flat(a)):
        if vals and vals[-1] == v:
            counts[-1] += 1
        else:
            vals.append(v)
            counts.append(1)
    v = np.empty(len(vals), dtype=object)
    for i, x in enumerate(vals):
        v[i] = x
    return (v, np.array(counts, dtype=int)) if return_counts else v


def _searchsorted(a, v, side="left", sorter=None):
    if not (_issym(a) or _issym(v)) or sorter is not None:
        return np.searchsorted(a, v, side, sorter)
    one = lambda x: P.ssum([P.ite((y < x) if side == "left" else (y <= x), 1, 0) for y in _flat(a)]) if len(a) else 0
    return _map(one, v) if isinstance(v, (list, tuple, np.ndarray)) else one(v)


def _einsum(spec, *ops, **kw):
    if not any([_issym(o) for o in ops]) or not isinstance(spec, str):
        return np.einsum(spec, *ops, **kw)
    import itertools

    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    arrs = [np.asarray(o, dtype=object) for o in ops]
    dim = {}
    for names, a in zip(ins, arrs):
        dim.update(zip(names, a.shape))
    rest = [c for c in dim if c not in out]
    res = np.empty([dim[c] for c in out], dtype=object)
    for idx in itertools.product(*[range(dim[c]) for c in out]):
        at = dict(zip(out, idx))
        terms = []
        for more in itertools.product(*[range(dim[c]) for c in rest]):
            at.update(zip(rest, more))
            t = 1
            for names, a in zip(ins, arrs):
                t = t * a[tuple(at[c] for c in names)]
            terms.append(t)
        res[idx] = P.ssum(terms)
    return res if out else res[()]


def _average(a, axis=None, weights=None, **kw):
    if (_issym(a) or _issym(weights)) and axis is None and not kw:
        xs = _flat(a)
        ws = [1] * len(xs) if weights is None else _flat(weights)
        return P.ssum([x * w for x, w in zip(xs, ws)]) / P.ssum(ws)
    return np.average(a, axis, weights, **kw)


def _std(a, *args, **kw):
    if _issym(a) and not args and not (set(kw) - {"ddof"}):
        return _unary("sqrt")(_var(a, **kw))
    return np.std(a, *args, **kw)


class NPShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        d = self.__dict__
        for n in ("exp", "log", "log1p", "expm1", "sqrt", "floor", "ceil", "rint", "square", "trunc"):
            d[n] = _unary(n)
        for n in ("concatenate", "append", "hstack", "vstack", "stack", "dot", "matmul", "sum", "insert", "flip", "prod", "inner", "outer", "cumsum", "diff", "triu", "tril", "add", "subtract", "multiply", "divide", "true_divide", "square", "power", "tensordot"):
            if not isinstance(getattr(np, n), np.ufunc):
                d[n] = _norm(n)
        d.update(
            bincount=_bincount, unique=_unique, searchsorted=_searchsorted, einsum=_einsum, average=_average, std=_std,
            abs=_abs, absolute=_abs, fabs=_abs, zeros=_zeros, ones=_ones, full=_full, empty=_empty, array=_array,
            asarray=_asarray, isnan=_isnan, isfinite=_isfinite, isclose=_isclose, allclose=_allclose,
            array_equal=_array_equal, array_equiv=_array_equiv, where=_where, clip=_clip, round=_round, around=_round,
            maximum=_minmax("maximum", P.smax), minimum=_minmax("minimum", P.smin),
            max=_amax(P.smax, "max"), min=_amax(P.smin, "min"), amax=_amax(P.smax, "amax"), amin=_amax(P.smin, "amin"),
            mean=_mean, var=_var, quantile=_quantile, percentile=_percentile, median=_median, sort=_sort,
            any=_anyall("any"), all=_anyall("all"), cumsum=_cumsum, linspace=_linspace,
        )

    def __getattr__(self, name):
        return getattr(np, name)


def _math_unary(name):
    orig = getattr(math, name)

    def f(x):
        if isinstance(x, SymBase):
            r = getattr(x, name)()
            if isinstance(r, float) and (r != r or r == -math.inf):
                raise ValueError("math domain error")
            return r
        return orig(x)

    return f


class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "math")
        d = self.__dict__
        for n in ("exp", "log1p", "expm1", "sqrt", "fabs"):
            d[n] = _math_unary(n)

        def log(x, base=None):
            if base is None:
                return _math_unary("log")(x)
            return log(x) / log(base)

        def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
            if is_sym(a) or is_sym(b):
                return abs(a - b) <= P.smax(rel_tol * P.smax(abs(a), abs(b)), abs_tol)
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

        def prod(xs, start=1):
            for x in xs:
                start = start * x
            return start

        def fsum(xs):
            xs = list(xs)
            return P.ssum(xs) if is_sym(xs) else math.fsum(xs)

        d.update(
            log=log, isclose=isclose, prod=prod, fsum=fsum,
            isnan=lambda x: False if isinstance(x, SymBase) else math.isnan(x),
            isinf=lambda x: False if isinstance(x, SymBase) else math.isinf(x),
            isfinite=lambda x: True if isinstance(x, SymBase) else math.isfinite(x),
            pow=lambda a, b: a ** b if is_sym(a) or is_sym(b) else math.pow(a, b),
        )

    def __getattr__(self, name):
        return getattr(math, name)


MERGE = [False]


def sx_int(*a, **kw):
    if a and isinstance(a[0], SymBool):
        return wrap(lift(a[0]))
    if a and isinstance(a[0], SymNum):
        return wrap(P.sym_trunc(a[0].term))
    if a and isinstance(a[0], str) and active():
        s = a[0].strip()
        if s in CTX[0].tokens:
            t = CTX[0].tokens[s]
            if t.sort != "I":
                raise ValueError("invalid literal for int()")
            return wrap(t)
    return int(*a, **kw)


def sx_float(*a, **kw):
    if a and isinstance(a[0], SymBase):
        return wrap(T.to_real(lift(a[0])))
    if a and isinstance(a[0], str) and active():
        s = a[0].strip()
        if s in CTX[0].tokens:
            return wrap(T.to_real(CTX[0].tokens[s]))
    return float(*a, **kw)


def _merging(pick, orig):
    def f(*a, **kw):
        if MERGE[0] and not kw and active():
            a = (list(a[0]),) if len(a) == 1 else a
            xs = a[0] if len(a) == 1 else a
            if len(xs) and is_sym(list(xs)) and all([lift(x) is not None for x in xs]):
                return pick(*xs)
        return orig(*a, **kw)

    return f


sx_max = _merging(P.smax, max)
sx_min = _merging(P.smin, min)


def _to_width(t, ty):
    """An integer stored in fewer bits: out of range becomes the lowest value."""
    dt = np.dtype(ty)
    if dt.itemsize >= 8:
        return wrap(t)
    lo, hi = (-(1 << (8 * dt.itemsize - 1)), (1 << (8 * dt.itemsize - 1)) - 1) if dt.kind == "i" else (0, (1 << (8 * dt.itemsize)) - 1)
    return wrap(T.ite(T.and_(T.le(T.const(lo), t), T.le(t, T.const(hi))), t, T.const(lo)))


def sx_astype(x, ty, *a, **kw):
    if active() and isinstance(x, SymBase):
        return x.astype(ty)
    if active() and isinstance(x, np.ndarray) and x.dtype == object:
        k = np.dtype(ty).kind
        if k in "iu":
            return _map(lambda v: _to_width(P.sym_trunc(lift(v)), ty) if isinstance(v, SymBase) else int(v), x)
        if k == "f":
            return _map(lambda v: wrap(T.to_real(lift(v))) if isinstance(v, SymBase) else v, x)
        if k == "b":
            return _map(lambda v: v != 0, x)
    return x.astype(ty, *a, **kw)


def sx_m_round(x, *a, **kw):
    if active() and isinstance(x, (SymBase, np.ndarray)) and (isinstance(x, SymBase) or x.dtype == object):
        return _round(x, *a, **kw)
    return x.round(*a, **kw)


def sx_m_clip(x, *a, **kw):
    if active() and isinstance(x, np.ndarray) and x.dtype == object and not kw and len(a) == 2:
        return _clip(x, *a)
    return x.clip(*a, **kw)


NP = NPShim()
MATH = MathShim()
_saved = {}


def _np_equiv(v):
    """The shim of a numpy / math function imported by name, or None."""
    n = getattr(v, "__name__", None)
    if n and isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)):
        if n in NP.__dict__ and getattr(np, n, None) is v:
            return NP.__dict__[n]
        if n in MATH.__dict__ and getattr(math, n, None) is v:
            return MATH.__dict__[n]
    return None


def install(module, merge=False):
    """Inject the shims into a module of /repo."""
    d = module.__dict__
    for k, v in list(d.items()):
        if v is np:
            new = NP
        elif v is math:
            new = MATH
        else:
            new = _np_equiv(v)
        if new is not None:
            _saved.setdefault(module.__name__, {})[k] = v
            d[k] = new


PKG = "wfa_planning_evaluation_framework"


def install_all():
    for name, m in list(sys.modules.items()):
        if name.startswith(PKG + ".") and getattr(m, "__file__", None):
            install(m)


# ------------------------------------------------------------------ importer
def sx_isinstance(x, cls):
    """A proxy counts as an instance of the type of the value it stands for."""
    if isinstance(x, cls):
        return True
    if isinstance(x, SymBool):
        return isinstance(True, cls)
    if isinstance(x, SymNum):
        return isinstance(1 if x.term.sort == "I" else 1.0, cls)
    return False


_CALLS = {"isinstance": "__sx_isinstance__", "int": "__sx_int__", "float": "__sx_float__", "max": "__sx_max__", "min": "__sx_min__"}


class _Rewrite(ast.NodeTransformer):
    """int(x), float(x), max(...), min(...), x.astype(t): calls that carry proxies."""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in _CALLS:
            node.func = ast.copy_location(ast.Name(id=_CALLS[f.id], ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr == "astype" and node.args:
            node.args.insert(0, f.value)
            node.func = ast.copy_location(ast.Name(id="__sx_astype__", ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in ("round", "clip") and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "math")):
            node.args.insert(0, f.value)
            node.func = ast.copy_location(ast.Name(id="__sx_m_%s__" % f.attr, ctx=ast.Load()), f)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update(
            __sx_isinstance__=sx_isinstance, __sx_m_round__=sx_m_round, __sx_m_clip__=sx_m_clip, __sx_int__=sx_int, __sx_float__=sx_float, __sx_max__=sx_max, __sx_min__=sx_min, __sx_astype__=sx_astype
        )
        importlib.machinery.SourceFileLoader.exec_module(self, module)
        install(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not fullname.startswith(PKG + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return None
        if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(fullname, spec.origin)
        return spec


def install_importer():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
