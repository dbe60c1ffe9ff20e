"""Hash-consed terms over Int / Real / Bool, with exact evaluation and SMT-LIB2 output.

Numeric terms are kept in a linear normal form (sum of coefficient * monomial
plus a constant); a monomial is a sorted tuple of non-linear atoms.  Terms are
immutable and interned, so syntactic equality is identity.
"""
from fractions import Fraction

_table = {}
_next_id = [0]


class Term(object):
    __slots__ = ("op", "args", "sort", "id", "val", "_vars", "_smt", "_lin")

    def __repr__(self):
        return smt(self)


def _mk(op, args, sort, val=None):
    key = (op, sort, val, tuple([a.id for a in args]))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        t.id = _next_id[0]
        _next_id[0] += 1
        t._vars = None
        t._smt = None
        t._lin = None
        _table[key] = t
    return t


def reset_terms():
    """Forget every term that nothing refers to any more (start of a scenario)."""
    _table.clear()
    _sums.clear()
    _init_consts()


# ---------------------------------------------------------------- constants
TRUE = FALSE = None
_sums = {}


def _init_consts():
    global TRUE, FALSE
    if TRUE is None:
        TRUE = _mk("const", (), "B", True)
        FALSE = _mk("const", (), "B", False)
    else:
        for t in (TRUE, FALSE):
            _table[("const", "B", t.val, ())] = t


_init_consts()


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return _mk("const", (), "I", v)
    return _mk("const", (), "R", Fraction(v))


def real_const(v):
    return _mk("const", (), "R", Fraction(v))


def boolean(v):
    return TRUE if v else FALSE


def is_const(t):
    return t.op == "const"


def var(name, sort):
    return _mk("var", (), sort, name)


# ------------------------------------------------------------ numeric terms
# A sum is stored as op "sum" with args = atoms' monomials and val = (const, coeffs)


def _parts(t):
    """(constant, {monomial(tuple of atoms): coeff}) of a numeric term."""
    if t.op == "const":
        return t.val, {}
    if t.op == "sum":
        return _sums[t.id]
    if t.op == "mul":
        return 0, {t.args: 1}
    return 0, {(t,): 1}


def _from_parts(c, d, sort):
    d = {m: k for m, k in d.items() if k != 0}
    if not d:
        return const(c) if sort == "I" else real_const(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1:
            if len(m) == 1:
                return m[0]
            return _mk("mul", m, sort)
    items = sorted(d.items(), key=lambda mk: [a.id for a in mk[0]])
    key_args = []
    coeffs = []
    for m, k in items:
        key_args.append(m[0] if len(m) == 1 else _mk("mul", m, sort))
        coeffs.append(k)
    t = _mk("sum", key_args, sort, (c, tuple(coeffs)))
    if t.id not in _sums:
        _sums[t.id] = (c, d)
    return t


def to_real(t):
    if t.sort == "R":
        return t
    if t.op == "const":
        return real_const(t.val)
    if t.op == "ite":
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    if t.op in ("sum", "mul"):
        # push the cast to the atoms, so integer and real forms normalise alike
        c, d = _parts(t)
        out = {}
        for m, k in d.items():
            mm = tuple(sorted([to_real(a) for a in m], key=lambda a: a.id))
            out[mm] = out.get(mm, 0) + Fraction(k)
        return _from_parts(Fraction(c), out, "R")
    return _mk("to_real", (t,), "R")


def _unify(a, b):
    if a.sort == b.sort:
        return a, b
    return to_real(a), to_real(b)


def add(a, b):
    a, b = _unify(a, b)
    ca, da = _parts(a)
    cb, db = _parts(b)
    if not da and ca == 0:
        return b
    if not db and cb == 0:
        return a
    d = dict(da)
    for m, k in db.items():
        d[m] = d.get(m, 0) + k
    return _from_parts(ca + cb, d, a.sort)


def scale(a, k):
    """k * a for a python number k (int if a is Int)."""
    if k == 1:
        return a
    c, d = _parts(a)
    if k == 0:
        return const(0) if a.sort == "I" else real_const(0)
    return _from_parts(c * k, {m: v * k for m, v in d.items()}, a.sort)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    a, b = _unify(a, b)
    return add(a, scale(b, -1))


MAX_EXPAND = 400


def mul(a, b):
    a, b = _unify(a, b)
    if a.op == "const":
        return scale(b, a.val)
    if b.op == "const":
        return scale(a, b.val)
    for x, y in ((a, b), (b, a)):
        # keep products out of conditionals with constant branches
        if x.op == "ite" and is_const(x.args[1]) and is_const(x.args[2]) and y.op != "ite":
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    ca, da = _parts(a)
    cb, db = _parts(b)
    na = len(da) + (1 if ca else 0)
    nb = len(db) + (1 if cb else 0)
    if na * nb > MAX_EXPAND:
        m = tuple(sorted([a, b], key=lambda t: t.id))
        return _mk("mul", m, a.sort)
    la = list(da.items()) + ([((), ca)] if ca else [])
    lb = list(db.items()) + ([((), cb)] if cb else [])
    c = 0
    d = {}
    for ma, ka in la:
        for mb, kb in lb:
            m = ma + mb
            if not m:
                c += ka * kb
                continue
            if ma and mb:
                m = _cancel(tuple(sorted(m, key=lambda t: t.id)))
                if isinstance(m, Term):
                    if m.op == "const":
                        c += ka * kb * m.val
                        continue
                    m = (m,)
            d[m] = d.get(m, 0) + ka * kb
    return _from_parts(c, d, a.sort)


def _cancel(m):
    return m


def div(a, b):
    """Real division; the caller guarantees b != 0 on this path."""
    a, b = to_real(a), to_real(b)
    if b.op == "const":
        return scale(a, Fraction(1) / b.val)
    if a is b:
        return real_const(1)
    if a.op == "const" and a.val == 0:
        return a
    # pull the coefficients out, so that k*x / x and proportional sums fold
    ca, da = _parts(a)
    cb, db = _parts(b)
    if len(da) == len(db) and set(da) == set(db):
        ks = {da[m] / Fraction(db[m]) for m in da}
        if len(ks) == 1:
            k, = ks
            if ca == k * cb:
                return real_const(k)
    if cb == 0 and len(db) == 1:
        (m, k), = db.items()
        # every monomial of a divisible by m
        if ca == 0 and da:
            out = {}
            ok = True
            c = Fraction(0)
            for ma, ka in da.items():
                rest = list(ma)
                for atom in m:
                    if atom in rest:
                        rest.remove(atom)
                    else:
                        ok = False
                        break
                if not ok:
                    break
                if rest:
                    r = tuple(rest)
                    out[r] = out.get(r, 0) + ka / Fraction(k)
                else:
                    c += ka / Fraction(k)
            if ok:
                return _from_parts(c, out, "R")
    return _mk("div", (a, b), "R")


def intdiv(a, b):
    """SMT-LIB integer division (floor for b > 0)."""
    if is_const(a) and is_const(b) and b.val != 0:
        q = a.val // b.val if b.val > 0 else -(a.val // -b.val)
        return const(q)
    if is_const(b) and b.val == 1:
        return a
    return _mk("idiv", (a, b), "I")


def floor(a):
    if a.sort == "I":
        return a
    if is_const(a):
        return const(a.val.numerator // a.val.denominator)
    if a.op == "to_real":
        return a.args[0]
    if a.op == "ite":
        return ite(a.args[0], floor(a.args[1]), floor(a.args[2]))
    c, d = _parts(a)
    # split off an integral part
    ints = {}
    rest = {}
    for m, k in d.items():
        if k.denominator == 1 and all(x.op == "to_real" for x in m):
            mm = tuple(sorted([x.args[0] for x in m], key=lambda t: t.id))
            ints[mm] = ints.get(mm, 0) + int(k)
        else:
            rest[m] = k
    c = Fraction(c)
    ci = c.numerator // c.denominator
    if ints or (ci and rest):
        base = _from_parts(ci, ints, "I")
        if not rest:
            return base
        return add(base, floor(_from_parts(c - ci, rest, "R")))
    if not rest:
        return _from_parts(ci, ints, "I")
    return _mk("floor", (a,), "I")


# ----------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":  # not (t <= 0)  ->  t > 0 -> -t < 0
        return _mk("not", (a,), "B")
    return _mk("not", (a,), "B")


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", sorted(out, key=lambda t: t.id), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return and_(implies(c, a), implies(not_(c), b))
    a, b = _unify(a, b)
    if a is b:
        return a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return _mk("ite", (c, a, b), a.sort)


def _cmp0(op, t):
    """op in le, lt, eq: t op 0, normalised."""
    if is_const(t):
        v = t.val
        return boolean(v <= 0 if op == "le" else (v < 0 if op == "lt" else v == 0))
    if t.op == "ite" and is_const(t.args[1]) and is_const(t.args[2]):
        return ite(t.args[0], _cmp0(op, t.args[1]), _cmp0(op, t.args[2]))
    if op == "eq":
        # canonical sign
        c, d = _parts(t)
        first = min(d.items(), key=lambda mk: [a.id for a in mk[0]])
        if first[1] < 0:
            t = scale(t, -1)
    if op == "lt":  # t < 0  <=>  not (-t <= 0)
        return not_(_cmp0("le", scale(t, -1)))
    return _mk(op, (t,), "B")


def le(a, b):
    return _cmp0("le", sub(a, b))


def lt(a, b):
    return _cmp0("lt", sub(a, b))


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        if a is b:
            return TRUE
        return and_(implies(a, b), implies(b, a))
    return _cmp0("eq", sub(a, b))


# --------------------------------------------------------------- evaluation
class NotExact(Exception):
    pass


def evaluate(t, model, cache=None):
    """Exact value of t under model (dict var name -> int/Fraction/bool)."""
    if cache is None:
        cache = {}
    v = cache.get(t.id)
    if v is not None:
        return v
    op = t.op
    if op == "const":
        v = t.val
    elif op == "var":
        v = model.get(t.val)
        if v is None:
            v = False if t.sort == "B" else 0
    elif op == "sum":
        c, ks = t.val
        v = c
        for k, a in zip(ks, t.args):
            v += k * evaluate(a, model, cache)
    elif op == "mul":
        v = 1
        for a in t.args:
            v *= evaluate(a, model, cache)
    elif op == "div":
        b = evaluate(t.args[1], model, cache)
        if b == 0:
            raise NotExact()
        v = Fraction(evaluate(t.args[0], model, cache)) / b
    elif op == "idiv":
        b = evaluate(t.args[1], model, cache)
        if b == 0:
            raise NotExact()
        a = evaluate(t.args[0], model, cache)
        v = a // b if b > 0 else -(a // -b)
    elif op == "floor":
        a = Fraction(evaluate(t.args[0], model, cache))
        v = a.numerator // a.denominator
    elif op == "to_real":
        v = Fraction(evaluate(t.args[0], model, cache))
    elif op == "ite":
        v = evaluate(t.args[1] if evaluate(t.args[0], model, cache) else t.args[2], model, cache)
    elif op == "le":
        v = evaluate(t.args[0], model, cache) <= 0
    elif op == "eq":
        v = evaluate(t.args[0], model, cache) == 0
    elif op == "not":
        v = not evaluate(t.args[0], model, cache)
    elif op == "and":
        v = all([evaluate(a, model, cache) for a in t.args])
    else:
        raise AssertionError(op)
    cache[t.id] = v
    return v


def is_linear(t):
    if t._lin is None:
        if t.op in ("mul", "div"):
            t._lin = False
        elif t.op == "idiv" and not is_const(t.args[1]):
            t._lin = False
        else:
            t._lin = all([is_linear(a) for a in t.args])
    return t._lin


_EMPTY = frozenset()


def variables(t):
    if t._vars is not None:
        return t._vars
    if t.op == "var":
        t._vars = frozenset([t])
    elif not t.args:
        t._vars = _EMPTY
    else:
        s = set()
        for a in t.args:
            s |= variables(a)
        t._vars = frozenset(s)
    return t._vars


# ------------------------------------------------------------------ SMT-LIB
def _num(v, sort):
    if sort == "I":
        return str(v) if v >= 0 else "(- %d)" % -v
    v = Fraction(v)
    n, d = abs(v.numerator), v.denominator
    s = "%d.0" % n if d == 1 else "(/ %d.0 %d.0)" % (n, d)
    return s if v >= 0 else "(- %s)" % s


def vname(name):
    return "|%s|" % name


BIG = 160


def _ref(t):
    """Text of a sub-term; large ones are referred to by a definition's name."""
    s = smt(t)
    if len(s) > BIG and t.args:
        return "t!%d" % t.id
    return s


def collect_defs(roots):
    """Definitions (in dependency order) that the texts of roots refer to."""
    out = []
    done = set()

    def visit(t, is_root):
        stack = [(t, False, is_root)]
        while stack:
            t, expanded, root = stack.pop()
            if expanded:
                out.append(t)
                continue
            if t.id in done:
                continue
            big = len(smt(t)) > BIG and t.args
            if not root:
                done.add(t.id)
                if big:
                    stack.append((t, True, False))
            for a in t.args:
                if a.args:
                    stack.append((a, False, False))

    for r in roots:
        visit(r, True)
    return out


SORTS = {"I": "Int", "R": "Real", "B": "Bool"}


def smt(t):
    if t._smt is not None:
        return t._smt
    op = t.op
    if op == "const":
        s = ("true" if t.val else "false") if t.sort == "B" else _num(t.val, t.sort)
    elif op == "var":
        s = vname(t.val)
    elif op == "sum":
        c, ks = t.val
        parts = [] if c == 0 else [_num(c, t.sort)]
        for k, a in zip(ks, t.args):
            parts.append(_ref(a) if k == 1 else "(* %s %s)" % (_num(k, t.sort), _ref(a)))
        s = parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
    elif op == "mul":
        s = "(* %s)" % " ".join([_ref(a) for a in t.args])
    elif op == "div":
        s = "(/ %s %s)" % (_ref(t.args[0]), _ref(t.args[1]))
    elif op == "idiv":
        s = "(div %s %s)" % (_ref(t.args[0]), _ref(t.args[1]))
    elif op == "floor":
        s = "(to_int %s)" % _ref(t.args[0])
    elif op == "to_real":
        s = "(to_real %s)" % _ref(t.args[0])
    elif op == "ite":
        s = "(ite %s %s %s)" % tuple([_ref(a) for a in t.args])
    elif op in ("le", "eq"):
        z = "0" if t.args[0].sort == "I" else "0.0"
        s = "(%s %s %s)" % ("<=" if op == "le" else "=", _ref(t.args[0]), z)
    elif op == "not":
        s = "(not %s)" % _ref(t.args[0])
    elif op == "and":
        s = "(and %s)" % " ".join([_ref(a) for a in t.args])
    else:
        raise AssertionError(op)
    t._smt = s
    return s
