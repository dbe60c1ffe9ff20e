"""Path exploration: the harness (and with it the real code) is re-executed once per path."""
import math
import os
import re
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import proxy as P
from . import state
from . import terms as T
from .proxy import CTX, SymBool, SymNum, Unsupported, is_sym, lift, lift_bool, wrap
from .solver import Solver, SolverError


class PathEnd(BaseException):
    """Ends the current path (infeasible assumption)."""


class Stop(BaseException):
    """Ends the scenario: a violation candidate was found."""


class Budget(BaseException):
    pass


class Hang(BaseException):
    """The code has been running for long without a decision, a check or an end."""


class CheckFailed(BaseException):
    """Concrete mode: a check failed."""

    def __init__(self, label, detail):
        BaseException.__init__(self, label, detail)
        self.label, self.detail = label, detail


TOL = 1e-6
MARGINS = (Fraction(1), Fraction(1, 1000), Fraction(1, 10 ** 6))


def _f(v):
    return float(v)


class Concrete(object):
    """Concrete mode: the same harness on plain values (replay, witnesses)."""

    sym = False

    def __init__(self, values, cfg=None):
        self.values = values
        self.used = {}
        self.labels = {}
        self.observed = []
        self.hash_mode = "enum"

    def _get(self, name, default):
        v = self.values.get(name)
        if v is None:
            v = default
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        v = self._get(name, lo if lo is not None else 0)
        return float(Fraction(v)) if not isinstance(v, float) else v

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not c:
            raise PathEnd("assumption")

    def cut(self):
        raise PathEnd("cut")

    def known(self, c):
        return bool(c)

    def possible(self, c):
        return bool(c)

    def _fail(self, label, detail):
        raise CheckFailed(label, detail)

    def check(self, c, label, detail=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            self._fail(label, str(detail))

    def _close(self, a, b):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return a == b
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
            return a == b
        return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))

    def check_eq(self, a, b, label, detail=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.observed.append((label, a))
        if not self._close(a, b):
            self._fail(label, "%s: got %r, expected %r" % (detail, a, b))

    def check_le(self, a, b, label, detail=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.observed.append((label, a))
        if a <= b:
            return
        if not self._close(a, b) or isinstance(a, int) and isinstance(b, int):
            self._fail(label, "%s: %r > %r" % (detail, a, b))

    def check_lt(self, a, b, label, detail=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not a < b:
            self._fail(label, "%s: %r >= %r" % (detail, a, b))

    def fail(self, label, detail=""):
        self.check(False, label, detail)


class Engine(object):
    """Symbolic mode context."""

    sym = True

    def __init__(self, fn, cfg, name, solver=None, deadline=None, max_paths=20000, qtimeout=20.0, cross_check=False):
        self.fn, self.cfg, self.name = fn, cfg, name
        self.solver = solver or Solver(qtimeout)
        self.solver.cross_check = cross_check
        self.deadline = deadline
        self.max_paths = max_paths
        self.hash_mode = "enum"
        self.work = [([], {})]
        self.stats = {
            "paths": 0,
            "infeasible": 0,
            "branches": 0,
            "checks": 0,
            "checks_trivial": 0,
            "checks_solver": 0,
            "within_tolerance": 0,
            "concretized_reals": 0,
            "unknown_branches": 0,
            "reduced_checks": 0,
            "degraded_paths": 0,
            "validated": 0,
        }
        self.labels = {}
        self.candidates = []
        self.errors = []
        self.notes = []
        self.mismatches = []
        self.complete = True
        self.functions = set()
        self.max_validate = 4
        self.path_models = []
        self.max_candidates = 6

    # ------------------------------------------------------------- one path
    def _reset_path(self, prefix, model):
        self.prefix = prefix
        self.trace = []
        self.model = dict(model)
        self.evalcache = {}
        self.pc = []
        self.pcset = set()
        self.inputs = {}
        self.fresh = 0
        self.hash_mode = "enum"
        self.fns = {}
        self.fnargs = {}
        self.tokens = {}
        self.observed = []
        self.pending = []

    def _setmodel(self, m):
        self.model = m
        self.evalcache = {}

    def _eval(self, t):
        """Value under the current model, or None if the model is not exact for it."""
        if self.model.get("#inexact"):
            return None
        try:
            return T.evaluate(t, self.model, self.evalcache)
        except T.NotExact:
            return None

    def _slice(self, extra):
        """Constraints of the path that (transitively) share variables with extra."""
        need = set()
        for e in extra:
            need |= T.variables(e)
        out = []
        rest = [(c, T.variables(c)) for c in self.pc]
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for c, vs in rest:
                if not vs.isdisjoint(need):
                    out.append(c)
                    need |= vs
                    changed = True
                else:
                    keep.append((c, vs))
            rest = keep
        return out

    def _query(self, extra, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        extra = [e for e in extra if e is not T.TRUE]
        if any([e is T.FALSE for e in extra]):
            return "unsat", None
        neg = set([T.not_(e).id for e in extra])
        if neg & self.pcset:
            return "unsat", None
        extra = [e for e in extra if e.id not in self.pcset]
        if not extra:
            return "sat", dict(self.model)
        r, m = self.solver.check(self._slice(extra) + extra, timeout)
        if r == "sat":
            mm = dict(self.model)
            mm.update(m)
            return r, mm
        return r, None

    def _add(self, t):
        if t is T.TRUE:
            return
        for c in t.args if t.op == "and" else (t,):
            if c.id not in self.pcset:
                self.pcset.add(c.id)
                self.pc.append(c)

    def branch(self, cond):
        if T.is_const(cond):
            return cond.val
        if cond.id in self.pcset:
            return True
        if T.not_(cond).id in self.pcset:
            return False
        self.stats["branches"] += 1
        if self._replaying():
            kind, tid, b = self.prefix[len(self.trace)]
            if kind != "b" or tid != cond.id:
                raise SolverError("non-deterministic re-execution in %s" % self.name)
        else:
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget()
            b = self._eval(cond)
            if b is None:
                r, m = self._query([cond])
                if r == "sat":
                    b = True
                    self._setmodel(m)
                elif r == "unsat":
                    b = False
                else:
                    r, m = self._query([T.not_(cond)])
                    if r != "sat":
                        self.stats["unknown_branches"] += 1
                        self.complete = False
                        raise PathEnd("unknown branch")
                    b = False
                    self._setmodel(m)
                    self.stats["unknown_branches"] += 1
                    self.complete = False
            flip = T.not_(cond) if b else cond
            r, m = self._query([flip])
            if r == "sat":
                self.work.append((self.trace + [("b", cond.id, not b)], m))
            elif r == "unknown":
                self.stats["unknown_branches"] += 1
                self.complete = False
        self.trace.append(("b", cond.id, b))
        self._add(cond if b else T.not_(cond))
        return b

    def _replaying(self):
        return len(self.trace) < len(self.prefix)

    def concretize_int(self, t):
        if T.is_const(t):
            return t.val
        excl = ()
        if self._replaying():
            kind, tid, v = self.prefix[len(self.trace)]
            if kind not in ("v", "x") or tid != t.id:
                raise SolverError("non-deterministic re-execution in %s" % self.name)
            if kind == "v":
                self.trace.append(("v", t.id, v))
                self._add(T.eq(t, T.const(v)))
                return v
            excl = v
        v = self._eval(t)
        if v is None:
            r, m = self._query([T.le(T.const(-(10 ** 12)), t)])
            if r != "sat":
                self.complete = False
                raise PathEnd("unknown value")
            raise Unsupported("integer value under an inexact model")
        if len(excl) > 200:
            self.complete = False
            self.notes.append("more than 200 values for one integer")
        else:
            r, m = self._query([T.not_(T.eq(t, T.const(x))) for x in tuple(excl) + (v,)])
            if r == "sat":
                self.work.append((self.trace + [("x", t.id, tuple(excl) + (v,))], m))
            elif r == "unknown":
                self.stats["unknown_branches"] += 1
                self.complete = False
        self.trace.append(("v", t.id, v))
        self._add(T.eq(t, T.const(v)))
        return v

    def concretize_real(self, t):
        """A C-level consumer wants a float: pin the value (recorded as a reduction)."""
        if T.is_const(t):
            return float(t.val)
        if t.sort == "I":
            return float(self.concretize_int(t))
        self.stats["concretized_reals"] += 1
        if os.environ.get("SYMEX_TRACE_CONC"):
            traceback.print_stack(limit=12)
        v = self._eval(t)
        if v is None:
            raise Unsupported("float() under an inexact model")
        self._add(T.eq(t, T.real_const(v)))
        return float(v)

    # --------------------------------------------------------------- inputs
    def _default(self, name, sort, lo, hi, strict=False):
        if sort == "B":
            return False
        if lo is None and hi is None:
            return 0 if sort == "I" else Fraction(1)
        if lo is None:
            return hi - 1 if sort == "R" else hi
        if hi is None:
            return lo + 1 if sort == "R" else lo
        if sort == "I":
            return lo
        return (Fraction(lo) + Fraction(hi)) / 2

    def _var(self, name, sort, lo, hi, lo_strict=False, hi_strict=False):
        v = T.var(name, sort)
        if name in self.inputs:
            return v
        self.inputs[name] = v
        if name not in self.model:
            self.model[name] = self._default(name, sort, lo, hi)
            self.evalcache = {}
        if sort == "B":
            return v
        c = T.const if sort == "I" else T.real_const
        if lo is not None:
            self._add(T.lt(c(lo), v) if lo_strict else T.le(c(lo), v))
        if hi is not None:
            self._add(T.lt(v, c(hi)) if hi_strict else T.le(v, c(hi)))
        if not self._model_ok_for(name, v, lo, hi, lo_strict, hi_strict):
            r, m = self.solver.check(self._bounds(v, lo, hi, lo_strict, hi_strict))
            if r != "sat":
                raise PathEnd("empty domain")
            mm = dict(self.model)
            mm.update(m)
            self._setmodel(mm)
        return v

    def _bounds(self, v, lo, hi, ls, hs):
        c = T.const if v.sort == "I" else T.real_const
        out = []
        if lo is not None:
            out.append(T.lt(c(lo), v) if ls else T.le(c(lo), v))
        if hi is not None:
            out.append(T.lt(v, c(hi)) if hs else T.le(v, c(hi)))
        return out

    def _model_ok_for(self, name, v, lo, hi, ls, hs):
        x = self.model[name]
        if lo is not None and (x < lo or (ls and x <= lo)):
            return False
        if hi is not None and (x > hi or (hs and x >= hi)):
            return False
        return True

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self.inputs[name] = T.const(lo)
            return lo
        return SymNum(self._var(name, "I", lo, hi))

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        lo = None if lo is None else (P.rational(lo) if isinstance(lo, float) else Fraction(lo))
        hi = None if hi is None else (P.rational(hi) if isinstance(hi, float) else Fraction(hi))
        return SymNum(self._var(name, "R", lo, hi, lo_strict, hi_strict))

    def bool(self, name):
        return SymBool(self._var(name, "B", None, None))

    def choose(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i if isinstance(i, int) else i.__index__()]

    def assume(self, c):
        t = lift_bool(c)
        self.assume_term(t)

    def assume_term(self, t):
        if t is T.TRUE or t.id in self.pcset:
            return
        if t is T.FALSE:
            raise PathEnd("assumption")
        if self._replaying():
            self._add(t)
            return
        self._flush()
        v = self._eval(t)
        if v is True:
            self._add(t)
            return
        r, m = self._query([t])
        if r == "sat":
            self._setmodel(m)
            self._add(t)
            return
        if r == "unknown":
            self.stats["unknown_branches"] += 1
            self.complete = False
        raise PathEnd("assumption")

    def cut(self):
        raise PathEnd("cut")

    def known(self, c):
        """Does c hold on the whole path? (no branching)"""
        t = lift_bool(c)
        return self._query([T.not_(t)])[0] == "unsat"

    # ------------------------------------------------- functions of a real
    def root(self, x, p):
        """x ** p for a non-negative x and p = a/b."""
        p = Fraction(p)
        if p < 0:
            return 1 / self.root(x, -p)
        t = lift(x)
        if T.is_const(t):
            f = float(t.val) ** float(p)
            r = P.rational(f)
            if r ** p.denominator == Fraction(t.val) ** p.numerator:
                return f
        key = ("root", t.id, p)
        v = self.fns.get(key)
        if v is None:
            if p.denominator > 6 or p.numerator > 6:
                return self.fn("pow:%s" % p, x)
            name = "root#%d#%s" % (t.id, p)
            v = T.var(name, "R")
            self.fns[key] = v
            pw = T.real_const(1)
            for _ in range(p.denominator):
                pw = T.mul(pw, v)
            base = T.real_const(1)
            for _ in range(p.numerator):
                base = T.mul(base, T.to_real(t))
            if name not in self.model:
                tv = self._eval(T.to_real(t))
                if tv is not None and tv >= 0:
                    g = P.rational(float(tv) ** float(p))
                    self.model[name] = g
                else:
                    self.model[name] = Fraction(1)
                self.evalcache = {}
            self.assume_term(T.le(T.const(0), v))
            self.assume_term(T.eq(pw, base))
        return SymNum(v)

    def power(self, base, e):
        tb, te = lift(base), lift(e)
        if te.sort == "I":
            k = self.concretize_int(te)
            if isinstance(base, SymNum):
                return base ** k
            return base ** k
        key = ("pow", tb.id, te.id)
        v = self.fns.get(key)
        if v is None:
            v = T.var("pow#%d#%d" % (tb.id, te.id), "R")
            self.fns[key] = v
            if v.val not in self.model:
                self.model[v.val] = Fraction(1)
                self.evalcache = {}
            self.assume_term(T.le(T.const(0), v))
        return SymNum(v)

    def fn(self, name, x):
        """exp / log / lgamma ... as a function symbol with monotonicity facts."""
        t = T.to_real(lift(x))
        if T.is_const(t) and name in ("exp", "log"):
            return getattr(math, name)(float(t.val))
        key = (name, t.id)
        v = self.fns.get(key)
        if v is None:
            v = T.var("%s#%d" % (name, t.id), "R")
            if v.val not in self.model:
                tv = self._eval(t)
                try:
                    g = getattr(math, name)(float(tv)) if tv is not None and name in ("exp", "log") else 1.0
                except OverflowError:
                    g = 1.0
                self.model[v.val] = P.rational(g)
                self.evalcache = {}
            facts = []
            if name == "exp":
                facts.append(T.lt(T.const(0), v))
                facts.append(T.le(T.add(t, T.const(1)), v))
                facts.append(T.eq(T.eq(t, T.const(0)), T.eq(v, T.const(1))))
            if name == "log":
                facts.append(T.le(v, T.sub(t, T.const(1))))
                facts.append(T.eq(T.eq(t, T.const(1)), T.eq(v, T.const(0))))
                facts.append(T.eq(T.lt(T.const(1), t), T.lt(T.const(0), v)))
            if name.startswith("pow:"):
                facts.append(T.le(T.const(0), v))
            for k2, other in list(self.fns.items()):
                if k2[0] == name and len(k2) == 2:
                    t2 = self.fnargs[k2]
                    facts.append(T.eq(T.lt(t, t2), T.lt(v, other)))
                    facts.append(T.eq(T.lt(t2, t), T.lt(other, v)))
            self.fns[key] = v
            self.fnargs[key] = t
            for f in facts:
                self.assume_term(f)
        return SymNum(v)

    def hash_of(self, t):
        if self.hash_mode == "const":
            return 0x5EED
        if t.sort == "I":
            return hash(self.concretize_int(t))
        return 0x5EED

    # --------------------------------------------------------------- tokens
    def token(self, t):
        s = "\u27e8%d\u27e9" % t.id
        self.tokens[s] = t
        return s

    def format(self, t, spec):
        """Text of a value: the token of what the format keeps of it."""
        if spec in ("", "d", "n", "r", "s") and (spec != "d" or t.sort == "I"):
            return self.token(t)
        m = re.match(r"^0?\d*(?:\.(\d+))?([fFgGeE])$", spec)
        if not m:
            raise Unsupported("format %r" % spec)
        x = SymNum(T.to_real(t))
        nd = int(m.group(1)) if m.group(1) is not None else 6
        kind = m.group(2).lower()
        if kind == "f":
            return self.token(lift(round(x, nd)))
        sig = max(nd, 1) if kind == "g" else nd + 1
        a = abs(x)
        out = round(x, sig - 1 + 5)
        for e in range(-4, 12):
            out = P.ite(a >= Fraction(10) ** e, round(x, sig - 1 - e), out)
        tt = lift(out)
        return self.token(tt)

    def untoken(self, s):
        return wrap(self.tokens[s])

    # --------------------------------------------------------------- checks
    def _label(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stats["checks"] += 1

    def _flush(self):
        """Decide the deferred (linear) checks of this path with one query."""
        pend, self.pending = self.pending, []
        if not pend:
            return
        r, m = self._query([T.or_(*[p[0] for p in pend])])
        if r == "unsat":
            return
        for bad, label, detail, margins in pend:
            self._decide(bad, label, detail, margins, now=True)

    def _decide(self, bad, label, detail, margins=(), now=False):
        """bad: term of the violation.  margins: stronger violations to prefer."""
        if bad is T.FALSE:
            self.stats["checks_trivial"] += 1
            return
        self.stats["checks_solver"] += 1
        if not now and T.is_linear(bad) and bad.op != "const":
            self.pending.append((bad, label, detail, margins))
            if len(self.pending) > 400:
                self._flush()
            return
        r, m = self._query([bad])
        if r == "unsat":
            return
        if r == "unknown" and not margins:
            self._reduced(bad, label, detail)
            return
        best = None
        for mt in margins:
            r2, m2 = self._query([mt])
            if r2 == "sat":
                best = m2
                break
            last = r2
        if margins and best is None:
            if last == "unsat":
                self.stats["within_tolerance"] += 1
                return
            self._reduced(margins[-1], label, detail)
            return
        if best is None:
            best = m
        self._candidate("check", label, detail, best)

    def _reduced(self, bad, label, detail):
        """Undecided: decide it again with inputs pinned, one solver-chosen value after another."""
        self.stats["reduced_checks"] += 1
        names = sorted([v for v in T.variables(bad) if v.val in self.inputs], key=lambda v: v.id)
        base = dict(self.model)
        if base.get("#inexact"):
            self.complete = False
            return
        pins = [T.eq(v, T.const(base[v.val]) if v.sort == "I" else (T.real_const(base[v.val]) if v.sort == "R" else T.boolean(base[v.val]))) for v in names if v.val in base]
        for upto in range(len(pins) // 2, len(pins) + 1):
            r, m = self._query([bad] + pins[:upto], timeout=5)
            if r == "sat":
                self._candidate("check", label, detail, m)
                return
            if r == "unsat":
                self.notes.append("%s: decided only with %d of %d inputs pinned" % (label, upto, len(pins)))
                return
        self.complete = False

    def _values(self, m):
        out = {}
        for n, v in self.inputs.items():
            if T.is_const(v):
                out[n] = v.val
                continue
            x = m.get(n)
            if x is None:
                x = self._default(n, v.sort, None, None)
            out[n] = x
        return out

    def _candidate(self, kind, label, detail, m):
        self.candidates.append({"kind": kind, "label": label, "detail": str(detail), "values": self._values(m)})
        if len(self.candidates) >= self.max_candidates:
            raise Stop()
        raise PathEnd("candidate")

    def check(self, c, label, detail=""):
        self._label(label)
        t = lift_bool(c)
        self._decide(T.not_(t), label, detail)

    def _cmp_values(self, a, b):
        """Handles inf/nan; returns (ta, tb) or None when decided concretely."""
        ta, tb = lift(a), lift(b)
        return ta, tb

    def check_eq(self, a, b, label, detail=""):
        self._label(label)
        ta, tb = lift(a), lift(b)
        if ta is None or tb is None:
            ok = (ta is None and tb is None) and (float(a) == float(b) or (float(a) != float(a) and float(b) != float(b)))
            self._decide(T.boolean(not ok), label, "%s: got %s, expected %s" % (detail, a, b))
            return
        self.observed.append((label, ta))
        d = T.sub(ta, tb)
        bad = T.not_(T.eq(ta, tb))
        if d.sort == "I":
            self._decide(bad, label, detail)
            return
        self._decide(bad, label, detail, [T.or_(T.le(T.real_const(m), d), T.le(d, T.real_const(-m))) for m in MARGINS])

    def check_le(self, a, b, label, detail=""):
        self._label(label)
        ta, tb = lift(a), lift(b)
        if ta is None or tb is None:
            av = float(a) if ta is None else 0.0
            bv = float(b) if tb is None else 0.0
            self._decide(T.boolean(not av <= bv), label, "%s: %s > %s" % (detail, a, b))
            return
        self.observed.append((label, ta))
        d = T.sub(ta, tb)
        if d.sort == "I":
            self._decide(T.lt(tb, ta), label, detail)
            return
        self._decide(T.lt(tb, ta), label, detail, [T.le(T.real_const(m), d) for m in MARGINS])

    def check_lt(self, a, b, label, detail=""):
        self.check(a < b, label, detail)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    # ---------------------------------------------------------------- search
    def _watch(self, seconds):
        """Raise Hang in the code when nothing has happened for that long."""
        last = [None, time.time()]

        def tick(signum, frame):
            now = (self.stats["paths"], self.stats["checks"], self.stats["branches"], self.stats["validated"], self.solver.stats.get("queries"))
            if now != last[0]:
                last[:] = [now, time.time()]
            elif time.time() - last[1] > seconds:
                last[1] = time.time()
                raise Hang()

        signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)

    def _hanging(self, label):
        self.complete = False
        self.notes.append(label)
        self.candidates.append({"kind": "hang", "label": "comes to an end", "detail": "", "values": self._values(self.model)})

    def run(self):
        t0 = time.time()
        CTX[0] = self
        first = True
        try:
            while self.work:
                if self.stats["paths"] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    raise Budget()
                prefix, model = self.work.pop()
                self._reset_path(prefix, model)
                started = time.time()
                try:
                    self._one(first)
                except Budget:
                    if time.time() - started > 100:
                        self._hanging("a path took all of the budget")
                    raise
                except Hang:
                    self._hanging("no end in sight")
                    break
                first = False
        except Stop:
            pass
        except Budget:
            self.complete = False
            self.notes.append("budget reached with %d paths left" % (len(self.work) + 1))
        finally:
            CTX[0] = None
            self.wall = time.time() - t0
        return self

    def _profile(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if "/wfa_planning_evaluation_framework/" in fn or fn.startswith("/repo/src/"):
                self.functions.add((os.path.realpath(fn).replace("/repo/", ""), getattr(co, "co_qualname", co.co_name)))

    def _one(self, first):
        state.fresh()
        if self.stats["paths"] < 3:
            sys.setprofile(self._profile)
        try:
            try:
                self.fn(self, self.cfg)
                self._flush()
            finally:
                sys.setprofile(None)
            self.stats["paths"] += 1
            if self.stats["validated"] < self.max_validate and not self.model.get("#inexact"):
                self._validate()
        except PathEnd as e:
            if e.args and e.args[0] == "cut":
                try:
                    self._flush()
                except PathEnd:
                    pass
            if e.args and e.args[0] in ("cut", "candidate"):
                self.stats["paths"] += 1
            else:
                self.stats["infeasible"] += 1
        except (SolverError, Budget, Stop):
            raise
        except Exception as e:
            self.stats["paths"] += 1
            where = traceback.format_exc()
            try:
                self._flush()
            except PathEnd:
                return
            label = "raises %s" % type(e).__name__
            r = self._concrete(self._values(self.model))
            if r[0] != "failed":
                # the real code does not raise here: the encoding does not cover an operation
                self.stats["degraded_paths"] += 1
                if len(self.errors) < 3:
                    self.errors.append(where)
                if os.environ.get("SYMEX_DEBUG"):
                    sys.stderr.write(where)
                if self.stats["degraded_paths"] >= 60:
                    raise Budget()
            else:
                try:
                    self._candidate("exception", r[1], r[2], self.model)
                except PathEnd:
                    pass

    def _concrete(self, values):
        ctx = Concrete(values)
        CTX[0] = None
        try:
            return run_concrete(self.fn, self.cfg, ctx)
        finally:
            CTX[0] = self

    def _validate(self):
        """Run the harness on this path's model with plain values; compare what was observed."""
        vals = self._values(self.model)
        sym_obs = []
        for label, t in self.observed:
            try:
                sym_obs.append((label, T.evaluate(t, self.model)))
            except T.NotExact:
                sym_obs.append((label, None))
        ctx = Concrete(vals)
        CTX[0] = None
        try:
            r = run_concrete(self.fn, self.cfg, ctx)
        finally:
            CTX[0] = self
        self.stats["validated"] += 1
        if r[0] == "failed":
            # the real code fails on a value of this path (arithmetic the encoding idealises)
            self.mismatches.append("concrete run of path %d: %s" % (self.stats["paths"], r[1:]))
            if len(self.candidates) < self.max_candidates:
                self.candidates.append({"kind": "validation", "label": r[1], "detail": r[2], "values": vals})
            return
        if r[0] != "ok":
            return
        con = [(l, v) for l, v in ctx.observed]
        if len(con) == len(sym_obs):
            for (l1, v1), (l2, v2) in zip(sym_obs, con):
                if v1 is None:
                    continue
                try:
                    if l1 != l2 or not ctx._close(float(v1), float(v2)):
                        self.mismatches.append("%s: encoded %s, real %s" % (l1, float(v1), v2))
                        break
                except (TypeError, ValueError, OverflowError):
                    pass


def run_concrete(fn, cfg, ctx):
    """('ok',) | ('failed', label, detail) | ('infeasible',)"""
    state.fresh()
    try:
        fn(ctx, cfg)
        return ("ok",)
    except CheckFailed as e:
        return ("failed", e.label, e.detail)
    except PathEnd:
        return ("infeasible", "", "")
    except Exception as e:
        return ("failed", "raises %s" % type(e).__name__, "%s\n%s" % (e, traceback.format_exc()))
