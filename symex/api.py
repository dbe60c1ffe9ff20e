"""What the harnesses in /verif/checks use."""
from .proxy import (  # noqa: F401
    count, iff, imp, is_sym, ite, land, lift, lnot, lor, smax, smin, ssum, SymBase, SymNum, SymBool,
)
from .engine import Concrete, PathEnd  # noqa: F401
from . import shims  # noqa: F401
from .state import fresh  # noqa: F401


class Scenario(object):
    """One harness at one bound: fn(ctx, cfg) runs the real code and checks it."""

    def __init__(self, name, fn, cfg=None, bounds="", budget=None, merge=False, qtimeout=None, max_paths=20000):
        self.name, self.fn, self.cfg, self.bounds = name, fn, cfg or {}, bounds
        self.budget, self.merge, self.qtimeout, self.max_paths = budget, merge, qtimeout, max_paths


def reals(ctx, name, n, lo, hi, **kw):
    return [ctx.real("%s%d" % (name, i), lo, hi, **kw) for i in range(n)]


def ints(ctx, name, n, lo, hi):
    return [ctx.int("%s%d" % (name, i), lo, hi) for i in range(n)]


class patched(object):
    """Temporarily set attributes: patched((obj, 'attr', value), ...)."""

    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.saved = []
        for obj, attr, value in self.items:
            d = obj.__dict__ if hasattr(obj, "__dict__") else {}
            self.saved.append((obj, attr, attr in d, d.get(attr)))
            setattr(obj, attr, value)
        return self

    def __exit__(self, *exc):
        for obj, attr, had, old in reversed(self.saved):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        return False


def const(ctx, v):
    """A known value that hashes like an arbitrary one (when both meet in one set or dictionary)."""
    return SymNum(lift(v)) if ctx.sym else v


def array(xs):
    """What numpy would hold: numbers of a numeric type, or objects if some are symbolic."""
    import numpy as np

    xs = list(xs)
    if is_sym(xs):
        return np.array(xs, dtype=object)
    return np.array([x if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else float(x) for x in xs])
