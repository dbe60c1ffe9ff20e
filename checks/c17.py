"""C17: the generalized mixture surface: admissible weights, the objective it minimises, the best fit kept, proper unions."""
import numpy as np
import cvxopt

from symex.api import *
from checks import surfaces as S
from checks.curves import refuses
from wfa_planning_evaluation_framework.models import generalized_mixture_reach_surface as M
from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import GeneralizedMixtureReachSurface
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

W = "generalized mixture"


def limited(inits, rounds):
    class Limited(GeneralizedMixtureReachSurface):
        def _define_criteria(self, **kw):
            super()._define_criteria(max_num_rounds=rounds, num_near_the_wall=min(inits, 2), min_num_init=inits, max_num_init=inits)

    return Limited


def fit(ctx, curves, points, c, starts, choose, inits=1, rounds=1):
    p = len(curves)
    left = [list(x) for x in starts]

    def dirichlet(alpha, size=None):
        x = left.pop(0) if len(left) > 1 else left[0]
        a = np.array(x, dtype=object if ctx.sym else float)
        return a.reshape(p, c)

    qp = S.QP(ctx, choose)
    with patched((np.random, "dirichlet", dirichlet), (M, "matrix", S.plain_matrix(ctx)), (cvxopt.solvers, "qp", qp)):
        s = limited(inits, rounds)(curves, points, c)
        left[:] = [list(x) for x in starts]
        s._fit()
    return s, qp


def formula(a, r, N, c):
    p = len(r)
    out = 0
    for j in range(c):
        w = 1
        for i in range(p):
            w = w * (1 - a[i * c + j] * r[i] / N)
        out = out + (1 - w)
    return out * N


def universe(tops):
    return smax(*tops) * 2


def evenly(p, c, skew=0):
    """Rows of weights adding up to one, exact in floating point."""
    rows = {1: [[1.0]], 2: [[0.5, 0.5], [0.25, 0.75], [0.875, 0.125], [0.75, 0.25]], 3: [[0.25, 0.25, 0.5], [0.5, 0.375, 0.125], [0.125, 0.25, 0.625], [0.625, 0.125, 0.25]]}[c]
    return [v for i in range(p) for v in rows[(i + skew) % len(rows)]]


def prediction(ctx, cfg):
    """Whatever weights satisfy the constraints of the fit, predictions are proper union reaches."""
    p, c, L = cfg["p"], cfg["c"], 3
    tabs, tops = S.tables(ctx, p, L, cfg)
    curves = [S.Table(t, top, i + 1) for i, (t, top) in enumerate(zip(tabs, tops))]
    q = cfg["query"]
    base = evenly(p, c, 1)

    def choose(i, call):
        x = [ctx.real("a%d" % k, -2, 2) if k // c in cfg.get("sym_a", range(p)) else base[k] for k in range(p * c)]
        S.feasible(ctx, call, x)
        for j in range(c):
            ctx.assume(ssum(x[j::c]) > 0)
        return x

    pts = [ReachPoint([1] * p, [ctx.real("y", 0, 10 ** 9)])]
    for t in tabs:
        ctx.assume(t[1] > 0)
    s, qp = fit(ctx, curves, pts, c, [evenly(p, c)], choose)
    a = qp.calls[-1]["x"]
    N = universe(tops)
    if cfg.get("constraints", True):
        for k in range(p * c):
            ctx.check_le(0, a[k], W + ": weights are not negative")
        for i in range(p):
            ctx.check_eq(ssum(a[i * c:(i + 1) * c]), 1, W + ": the weights of a publisher add up to one")
    reaches = [t[k] for t, k in zip(tabs, q)]
    if cfg.get("bounds", True):
        u = S.union_bounds(ctx, s, reaches, q, W)
    else:
        u = s.by_impressions(list(q)).reach()
    ctx.check_eq(u, formula(a, reaches, N, c), W + ": independent overlap within each cluster")
    for i in cfg.get("mono", range(p)):
        more = list(q)
        more[i] = 2
        if q[i] == 1:
            ctx.check_le(u, s.by_impressions(more).reach(), W + ": more impressions never reach fewer people")
    if cfg.get("single", True):
        S.single(ctx, s, tabs, q, W)
    S.spend_agrees(ctx, s, curves, [k / (i + 1) for i, k in enumerate(q)], W)


def objective(ctx, cfg):
    """Each program minimises the squared error of the predictions, linearised at the current weights."""
    p, c, n, R = cfg["p"], cfg["c"], cfg["n"], cfg.get("rounds", 1)
    tabs, tops = S.tables(ctx, p, 3, cfg)
    for t in tabs:
        ctx.assume(t[1] > 0)
    curves = [S.Table(t, top) for t, top in zip(tabs, tops)]
    ys = [ctx.real("y%d" % k, 0, 10 ** 6) for k in range(n)]
    pts = [ReachPoint([1 + (k + i) % 2 for i in range(p)], [ys[k]]) for k in range(n)]
    probes = [evenly(p, c, 2), [0.125 * ((3 * k) % 8) for k in range(p * c)]]
    current = [evenly(p, c)] + [evenly(p, c, 3 + k) for k in range(R)]
    s, qp = fit(ctx, curves, pts, c, [current[0]], lambda i, call: current[1 + i], rounds=R)
    N = universe(tops)
    for call, a in zip(qp.calls, current):
        def err(x):
            out = 0
            for y, pt in zip(ys, pts):
                r = [t[k] for t, k in zip(tabs, pt.impressions)]
                pred = 0
                for j in range(c):
                    z = [a[i * c + j] * r[i] / N for i in range(p)]
                    w = 1
                    for v in z:
                        w = w * (1 - v)
                    theta = (1 - w) / ssum(z)
                    pred = pred + theta * ssum([x[i * c + j] * r[i] / N for i in range(p)])
                out = out + (y / N - pred) * (y / N - pred)
            return out / 2

        zero = err([0.0] * (p * c))
        for x in probes:
            ctx.check_eq((S.quad(call["P"], call["q"], x)) * N * N, (err(x) - zero) * N * N, W + ": the fit minimises the squared error of the predictions, linearised at the current weights")


def choice(ctx, cfg):
    """Of several starting points, the fit with the least error is kept."""
    p, c, n, k = cfg["p"], cfg["c"], cfg["n"], cfg["inits"]
    tabs, tops = S.tables(ctx, p, 3, dict(cfg, sym_tables=(), sym_tops=()))
    curves = [S.Table(t, top) for t, top in zip(tabs, tops)]
    ys = [ctx.real("y%d" % m, 0, 4096) for m in range(n)]
    pts = [ReachPoint([1 + (m + i) % 2 for i in range(p)], [ys[m]]) for m in range(n)]
    xs = [evenly(p, c, 1 + j) for j in range(k)]
    if cfg.get("concentrate"):
        xs[0] = [0.9375 if j == 0 else 0.0625 for i in range(p) for j in range(c)]
    s, qp = fit(ctx, curves, pts, c, [evenly(p, c, 2 + j) for j in range(k)], lambda i, call: xs[i % k], inits=k)
    ctx.check(len(qp.calls) == k, W + ": every starting point is tried")
    N = universe(tops)
    at = s.by_impressions([2] * p).reach()
    full = [t[2] for t in tabs]
    kept = [j for j in range(k) if abs(float(at) - float(formula(xs[j], full, N, c))) < 1e-6]
    ctx.check(len(kept) >= 1, W + ": the weights kept are those of one of the fits")
    losses = [S.quad(qp.calls[j]["P"], qp.calls[j]["q"], xs[j]) * N * N for j in range(k)]
    best = smin(*[losses[j] for j in kept])
    for l in losses:
        ctx.check_le(best - 1e-6, l, W + ": of several fits the one with the least error is kept")


def isolation(ctx, cfg):
    t = [0, ctx.real("r1", 1, 100), 100.0]
    c = [S.Table(t, 128.0), S.Table([0, 50.0, 80.0], 90.0)]
    s, _ = fit(ctx, c, [ReachPoint([1, 1], [70.0])], 2, [evenly(2, 2)], lambda i, call: evenly(2, 2, 1))
    u = s.by_impressions([1, 2]).reach()
    c[0].table = [0, 1.0, 2.0]
    c[0]._max_reach = 10.0 ** 6
    ctx.check_eq(u, s.by_impressions([1, 2]).reach(), W + ": later changes to the curves given do not change the surface")
    with patched((np.random, "dirichlet", lambda alpha, size=None: np.array(evenly(size, 2)).reshape(size, 2))):
        refuses(ctx, lambda: GeneralizedMixtureReachSurface(c, [ReachPoint([1, 1], [3.0]), ReachPoint([1, 1, 1], [3.0])], 2), W + ": training points of different sizes are refused", ValueError)


ASSUMPTIONS = ["the quadratic program solver (cvxopt) is a stand-in returning an arbitrary point that satisfies the constraints the code passes to it", "every publisher has positive reach at the training points (the linearisation divides by the total)", "the solver leaves no cluster entirely empty (an interior point method returns positive weights)", "fewer starting points and rounds than the defaults (an argument of the fit)"]
OUTSIDE = "more than 3 publishers or 3 clusters; how close the returned fit comes to the best possible one"


def scenarios(tier):
    T = tier == "thorough"
    C = {"sym_tables": (), "sym_tops": ()}
    out = [
        Scenario("predict-2x1", prediction, {"p": 2, "c": 1, "query": [1, 1]}, "2 publishers, 1 cluster"),
        Scenario("predict-2x2", prediction, {"p": 2, "c": 2, "query": [1, 1], "sym_tops": ()}, "2 publishers, 2 clusters"),
        Scenario("predict-2x2b", prediction, dict(p=2, c=2, query=[1, 1], bounds=False, mono=(), single=False), "2 publishers, 2 clusters, everything arbitrary"),
        Scenario("predict-3x2", prediction, dict(C, p=3, c=2, query=[1, 2, 1]), "3 publishers, 2 clusters, any weights"),
        Scenario("predict-3x2b", prediction, dict(p=3, c=2, query=[1, 2, 1], sym_a=(), sym_tops=()), "3 publishers, 2 clusters, any reaches"),
        Scenario("predict-3x3", prediction, dict(C, p=3, c=3, query=[1, 1, 2], sym_tables=(0,), sym_a=(0, 1), bounds=T, mono=(0,)), "3 publishers, 3 clusters"),
        Scenario("objective-2x2", objective, dict(p=2, c=2, n=1), "2 publishers, 2 clusters, 1 point, any reaches"),
        Scenario("objective-2x2n2", objective, dict(p=2, c=2, n=2, sym_tables=(0,), sym_tops=()), "2 publishers, 2 clusters, 2 points"),
        Scenario("objective-3x2", objective, dict(C, p=3, c=2, n=3), "3 publishers, 2 clusters, 3 points"),
        Scenario("objective-3x3", objective, dict(p=3, c=3, n=1, sym_tables=(1,), sym_tops=()), "3 publishers, 3 clusters"),
        Scenario("objective-rounds", objective, dict(C, p=2, c=2, n=2, rounds=3), "3 rounds"),
        Scenario("choice-2", choice, dict(p=2, c=2, n=1, inits=2), "2 starting points"),
        Scenario("choice-3", choice, dict(p=2, c=2, n=2, inits=3, concentrate=True), "3 starting points"),
        Scenario("choice-3b", choice, dict(p=3, c=3, n=1, inits=3), "3 starting points, 3 publishers"),
        Scenario("isolation", isolation, {}, "2 publishers"),
    ]
    return out
