"""C15: the pairwise union surface predicts union reach within bounds for every admissible overlap."""
import numpy as np
import cvxopt

from symex.api import *
from checks import surfaces as S
from checks.curves import refuses
from wfa_planning_evaluation_framework.models import pairwise_union_reach_surface as M
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


def fit(ctx, curves, points, choose):
    qp = S.QP(ctx, choose)
    s = PairwiseUnionReachSurface(curves, points)
    with patched((M, "matrix", S.plain_matrix(ctx)), (cvxopt.solvers, "qp", qp)):
        s._fit()
    return s, qp


def overlap_matrix(ctx, cfg, p):
    """Arbitrary (or given) overlap parameters, flattened."""
    def choose(i, call):
        n = p * p
        x = []
        for k in range(n):
            a, b = divmod(k, p)
            if cfg.get("sym_a") is None or (min(a, b), max(a, b)) in cfg["sym_a"]:
                x.append(ctx.real("a%d_%d" % (a, b), -2, 2))
            else:
                x.append(cfg["a"] if a != b else 0.0)
        S.feasible(ctx, call, x)
        return x

    return choose


def prediction(ctx, cfg):
    """Whatever overlap satisfies the constraints of the fit, the predictions are proper union reaches."""
    p, L = cfg["p"], cfg["levels"]
    tabs, tops = S.tables(ctx, p, L, cfg)
    curves = [S.Table(t, top, i + 1) for i, (t, top) in enumerate(zip(tabs, tops))]
    q = cfg["query"]
    points = [ReachPoint(list(q), [ctx.real("y", 0, 10 ** 9) if cfg.get("sym_y", True) else 500.0])]
    s, qp = fit(ctx, curves, points, overlap_matrix(ctx, cfg, p))
    ctx.check(len(qp.calls) == 1, "pairwise union: one quadratic program is solved")
    a = qp.calls[0]["x"]
    A = [[a[i * p + j] for j in range(p)] for i in range(p)]
    if cfg.get("constraints", True):
        for i in range(p):
            ctx.check_eq(A[i][i], 0, "pairwise union: no overlap of a publisher with itself")
            ctx.check_le(ssum(A[i]), 1, "pairwise union: overlaps of a publisher add up to at most one")
            ctx.check_le(ssum([A[j][i] for j in range(p)]), 1, "pairwise union: overlaps of a publisher add up to at most one")
            for j in range(p):
                ctx.check_le(0, A[i][j], "pairwise union: overlaps are not negative")
                ctx.check_eq(A[i][j], A[j][i], "pairwise union: overlaps are symmetric")
    reaches = [t[k] for t, k in zip(tabs, q)]
    if cfg.get("bounds", True):
        u = S.union_bounds(ctx, s, reaches, q, "pairwise union")
    else:
        u = s.by_impressions(list(q)).reach()
    want = ssum(reaches) - ssum([A[i][j] * reaches[i] * reaches[j] / smax(tops[i], tops[j]) for i in range(p) for j in range(p) if i != j]) / 2
    ctx.check_eq(u, want, "pairwise union: sum of the reaches less the pairwise overlaps")
    if cfg.get("single", True):
        S.single(ctx, s, tabs, q, "pairwise union")
    if L > 2 and cfg.get("mono", True):
        for i in range(p) if p <= 3 else (0, p - 1):
            more = list(q)
            more[i] = L - 1
            ctx.check_le(u, s.by_impressions(more).reach(), "pairwise union: more impressions never reach fewer people")
    S.spend_agrees(ctx, s, curves, [k / (i + 1) for i, k in enumerate(q)], "pairwise union")


def objective(ctx, cfg):
    """The program minimises the squared error of the predictions on the training points."""
    p, n = cfg["p"], cfg["n"]
    tabs, tops = S.tables(ctx, p, n + 1, cfg)
    curves = [S.Table(t, top) for t, top in zip(tabs, tops)]
    ys = [ctx.real("y%d" % k, 0, 10 ** 9) for k in range(n)]
    points = [ReachPoint([(k + i) % (n + 1) if not cfg.get("same") else k + 1 for i in range(p)], [ys[k]]) for k in range(n)]
    probes = [[0.125 * ((3 * k + 7 * t) % 8) for k in range(p * p)] for t in range(2)]
    for x in probes:
        for i in range(p):
            x[i * p + i] = 0.0
            for j in range(i):
                x[i * p + j] = x[j * p + i]
    s, qp = fit(ctx, curves, points, lambda i, call: [0.0] * (p * p))
    P, q = qp.calls[0]["P"], qp.calls[0]["q"]

    def err(x):
        out = 0
        for y, pt in zip(ys, points):
            r = [t[k] for t, k in zip(tabs, pt.impressions)]
            pred = ssum(r) - ssum([x[i * p + j] * r[i] * r[j] / smax(tops[i], tops[j]) for i in range(p) for j in range(p) if i != j]) / 2
            out = out + (y - pred) * (y - pred)
        return out / 2

    zero = err([0.0] * (p * p))
    for x in probes:
        ctx.check_eq(S.quad(P, q, x), err(x) - zero, "pairwise union: the fit minimises the squared error of the predictions on the training points")


def admissible(ctx, cfg):
    """Every overlap matrix that is admissible is within the constraints (nothing is excluded)."""
    p = cfg["p"]
    up = {(i, j): ctx.real("a%d_%d" % (i, j), 0, 1) for i in range(p) for j in range(i + 1, p)}
    x = [0 if i == j else up[(min(i, j), max(i, j))] for i in range(p) for j in range(p)]
    for i in range(p):
        ctx.assume(ssum(x[i * p:(i + 1) * p]) <= 1)
    curves = [S.Table([0, 10.0], 20.0) for _ in range(p)]
    s, qp = fit(ctx, curves, [ReachPoint([1] * p, [15.0])], lambda i, call: [0.0] * (p * p))
    c = qp.calls[0]
    for row, rhs in zip(c["G"], c["h"]):
        ctx.check_le(ssum([a * b for a, b in zip(row, x)]), rhs, "pairwise union: no admissible overlap is excluded from the fit")
    for row, rhs in zip(c["A"], c["b"]):
        ctx.check_eq(ssum([a * b for a, b in zip(row, x)]), rhs, "pairwise union: no admissible overlap is excluded from the fit")


def isolation(ctx, cfg):
    """A surface keeps the curves and points it was given."""
    t = [0, ctx.real("r1", 0, 100), 100.0]
    c = [S.Table(t, 100.0), S.Table([0, 50.0, 80.0], 90.0)]
    pts = [ReachPoint([1, 1], [70.0])]
    s, _ = fit(ctx, c, pts, lambda i, call: [0.0, 0.5, 0.5, 0.0])
    u = s.by_impressions([1, 2]).reach()
    c[0].table = [0, 1.0, 2.0]
    c[1]._max_reach = 1.0
    v = s.by_impressions([1, 2]).reach()
    ctx.check_eq(u, v, "pairwise union: later changes to the curves given do not change the surface")
    refuses(ctx, lambda: PairwiseUnionReachSurface(c, [ReachPoint([1, 1], [3.0]), ReachPoint([1, 1, 1], [3.0])]), "pairwise union: training points of different sizes are refused", ValueError)


ASSUMPTIONS = ["the quadratic program solver (cvxopt) is a stand-in returning an arbitrary point that satisfies the constraints the code passes to it", "the publishers' curves are arbitrary non-decreasing tables starting at zero and bounded by their maximum reach"]
OUTSIDE = "more than 3 publishers with all overlaps and reaches arbitrary (12 publishers with two arbitrary)"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("predict-2", prediction, {"p": 2, "levels": 3, "query": [1, 1]}, "2 publishers, everything arbitrary"),
        Scenario("predict-3a", prediction, {"p": 3, "levels": 3, "query": [1, 1, 1], "sym_tables": (0, 1), "sym_tops": (), "sym_a": ()  , "a": 0.5, "sym_y": False}, "3 publishers, two with arbitrary reaches"),
        Scenario("predict-3b", prediction, {"p": 3, "levels": 3, "query": [1, 2, 1], "sym_tables": (), "sym_tops": ()}, "3 publishers, all overlaps arbitrary"),
        Scenario("predict-3c", prediction, {"p": 3, "levels": 2, "query": [1, 1, 1], "bounds": T, "constraints": False, "single": False}, "3 publishers, everything arbitrary"),
        Scenario("predict-12", prediction, {"p": 12, "levels": 3, "query": [1, 2] * 6, "sym_tables": (3, 11), "sym_a": [(0, 11), (3, 7), (3, 11)], "a": 0.0625, "sym_y": False, "constraints": False}, "12 publishers"),
        Scenario("objective-2", objective, {"p": 2, "n": 2}, "2 publishers, 2 training points, everything arbitrary"),
        Scenario("objective-3", objective, {"p": 3, "n": 3, "sym_tops": ()}, "3 publishers, 3 training points, arbitrary reaches"),
        Scenario("objective-12", objective, {"p": 12, "n": 2, "sym_tables": (2, 11), "sym_tops": ()}, "12 publishers"),
        Scenario("admissible-3", admissible, {"p": 3}, "3 publishers"),
        Scenario("admissible-6", admissible, {"p": 6}, "6 publishers"),
        Scenario("isolation", isolation, {}, "2 publishers"),
    ]
    if T:
        out.append(Scenario("predict-3d", prediction, {"p": 3, "levels": 3, "query": [1, 1, 1], "sym_tops": ()}, "3 publishers, arbitrary reaches and overlaps"))
    return out
