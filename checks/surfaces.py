"""Curves given by tables and what every reach surface owes its user."""
import numpy as np

from symex.api import *
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


class Table(ReachCurve):
    """A curve known at 0, 1, 2, ... impressions; a unit of spend buys `rate` impressions."""

    def __init__(self, table, top, rate=1):
        ReachCurve.__init__(self, [ReachPoint([1], [1])], top)
        self.table, self.rate = table, rate

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(list(impressions), [self.table[int(impressions[0])]] + [0] * (max_frequency - 1))

    def impressions_for_spend(self, spend):
        return int(spend * self.rate)


def tables(ctx, p, levels, cfg, tag=""):
    """p tables 0 = t[0] <= t[1] <= ... <= top, arbitrary where cfg asks for it."""
    out, tops = [], []
    for i in range(p):
        if i in cfg.get("sym_tops", range(p) if p <= 3 else ()):
            top = ctx.real("%stop%d" % (tag, i), 1, 10 ** 9)
        else:
            top = (1024.0, 512.0, 2048.0)[i % 3]  # exact in floating point, so are the quotients
        t = [0]
        for l in range(1, levels):
            if i in cfg.get("sym_tables", range(p)):
                v = ctx.real("%sr%d_%d" % (tag, i, l), 0, 10 ** 9)
                ctx.assume(t[-1] <= v)
                ctx.assume(v <= top)
            else:
                v = top * l / (4 if levels <= 4 else 8)
            t.append(v)
        out.append(t)
        tops.append(top)
    return out, tops


def union_bounds(ctx, surface, reaches, imps, label):
    """Union reach lies between the largest reach and their sum."""
    pt = surface.by_impressions(list(imps))
    ctx.check(list(pt.impressions) == list(imps), label + ": reports the impressions asked about")
    u = pt.reach()
    ctx.check_le(u, ssum(reaches), label + ": union reach is at most the sum of the publishers' reaches")
    for r in reaches:
        ctx.check_le(r, u, label + ": union reach is at least each publisher's reach")
    return u


def single(ctx, surface, tabs, imps, label):
    for i in range(len(tabs)):
        v = [0] * len(tabs)
        v[i] = imps[i]
        ctx.check_eq(surface.by_impressions(v).reach(), tabs[i][imps[i]], label + ": with one publisher active the reach is that publisher's")
    ctx.check_eq(surface.by_impressions([0] * len(tabs)).reach(), 0, label + ": no impressions reach no one")


def spend_agrees(ctx, surface, curves, spends, label):
    a = surface.by_spend(list(spends))
    imps = [c.impressions_for_spend(s) for c, s in zip(curves, spends)]
    b = surface.by_impressions(imps)
    ctx.check_eq(a.reach(), b.reach(), label + ": a spend vector reaches what the impressions it buys reach")
    ctx.check(list(a.impressions) == list(imps), label + ": reports the impressions a spend buys")


class QP(object):
    """Stands for the quadratic program solver: any point satisfying the constraints it is given."""

    def __init__(self, ctx, choose):
        self.ctx, self.choose, self.calls = ctx, choose, []

    def __call__(self, P, q, G=None, h=None, A=None, b=None, **kw):
        arr = lambda m: np.asarray(m, dtype=object) if m is not None else None
        call = dict(P=arr(P), q=arr(q).reshape(-1), G=arr(G), h=arr(h).reshape(-1), A=arr(A), b=arr(b).reshape(-1))
        x = list(self.choose(len(self.calls), call))
        call["x"] = x
        self.calls.append(call)
        return {"status": "optimal", "x": np.array(x, dtype=object if self.ctx.sym else float).reshape(-1, 1)}


def plain_matrix(ctx):
    """Stands for cvxopt.matrix: the same numbers in a numpy array."""

    def matrix(x, *a, **kw):
        y = np.array(x, dtype=object if ctx.sym else float)
        return y.reshape(-1, 1) if y.ndim == 1 else y

    return matrix


def feasible(ctx, call, x):
    """Assumes G x <= h and A x = b."""
    for M, v, op in ((call["G"], call["h"], "le"), (call["A"], call["b"], "eq")):
        for row, rhs in zip(M, v):
            lhs = ssum([c * y for c, y in zip(row, x) if not (isinstance(c, (int, float)) and c == 0)])
            ctx.assume(lhs <= rhs if op == "le" else lhs == rhs)


def satisfies(call, x, tol=1e-6):
    for row, rhs in zip(call["G"], call["h"]):
        if sum([float(c) * y for c, y in zip(row, x)]) > float(rhs) + tol:
            return False
    for row, rhs in zip(call["A"], call["b"]):
        if abs(sum([float(c) * y for c, y in zip(row, x)]) - float(rhs)) > tol:
            return False
    return True


def quad(P, q, x):
    n = len(x)
    return ssum([x[i] * P[i][j] * x[j] for i in range(n) for j in range(n)]) / 2 + ssum([q[i] * x[i] for i in range(n)])
