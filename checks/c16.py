"""C16: the restricted pairwise union surface: fitted overlaps are admissible, never fit worse, predict proper unions."""
import numpy as np

from symex.api import *
from checks import surfaces as S
from checks.curves import refuses
from wfa_planning_evaluation_framework.models import restricted_pairwise_union_reach_surface as M
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import RestrictedPairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

TOL = 1e-6


def limited(inits, rounds):
    """The surface with fewer starting points and rounds (a documented knob of the fit)."""

    class Limited(RestrictedPairwiseUnionReachSurface):
        def _define_criteria(self, **kw):
            super()._define_criteria(max_num_rounds=rounds, num_near_the_wall=min(inits, 2), min_num_init=inits, max_num_init=inits)

    return Limited


def fit(ctx, curves, points, starts, orders, inits=1, rounds=1):
    """Fits from the given starting points, visiting coordinates in the given orders."""
    starts, orders = list(starts), list(orders)

    def rand(*shape):
        if not starts:
            raise PathEnd()  # the code refused every starting point offered
        return np.array(starts.pop(0), dtype=object if ctx.sym else float)

    def permutation(n):
        return np.array(orders.pop(0) if len(orders) > 1 else orders[0])

    s = limited(inits, rounds)(curves, points)
    with patched((np.random, "rand", rand), (np.random, "permutation", permutation)):
        s._fit()
    return s


def le(ctx, a, b, label, tol):
    ctx.check_le(a - tol, b, label)


def overlap(l, r, tops):
    p = len(l)
    return ssum([l[i] * l[j] * r[i] * r[j] / smax(tops[i], tops[j]) for i in range(p) for j in range(p) if i != j]) / 4


def admissible(l, tol=0.0):
    return land(*[land(0 <= v, v * (ssum([u for j, u in enumerate(l) if j != i])) <= 1 + tol) for i, v in enumerate(l)])


def start(ctx, cfg, p, tag="l", hi=1):
    l = []
    for i in range(p):
        if i in cfg.get("sym_l", range(p)):
            l.append(ctx.real("%s%d" % (tag, i), 0, hi))
        else:
            l.append(cfg.get("l0", 0.5))
    ctx.assume(admissible(l))
    return l


def training(ctx, cfg, tabs, n):
    p = len(tabs)
    pts, used = [], []
    for k in range(n):
        imps = [1 + (k + i) % 2 for i in range(p)]
        r = [t[x] for t, x in zip(tabs, imps)]
        if k in cfg.get("sym_y", range(n)):
            y = ctx.real("y%d" % k, 0, 10 ** 6)
        else:
            y = float(ssum(r) * 0.75) if not is_sym(ssum(r)) else 700.0
        pts.append(ReachPoint(imps, [y]))
        used.append((r, y))
    return pts, used


def loss(l, used, tops):
    out = 0
    for r, y in used:
        d = smax(0.0001, ssum(r) - y) - overlap(l, r, tops)
        out = out + d * d
    return out


def surface_loss(s, pts, used):
    out = 0
    for pt, (r, y) in zip(pts, used):
        d = smax(0.0001, ssum(r) - y) - (ssum(r) - s.by_impressions(pt.impressions).reach())
        out = out + d * d
    return out


def region(ctx, s, tabs, tops):
    """The pairwise overlaps read off the surface stay in the documented region."""
    p = len(tabs)
    at = lambda *on: s.by_impressions([2 if k in on else 0 for k in range(p)]).reach()
    for i in range(p):
        total = 0
        for j in range(p):
            if j != i:
                both = tabs[i][2] + tabs[j][2] - at(i, j)
                total = total + both * 2 * smax(tops[i], tops[j]) / (tabs[i][2] * tabs[j][2])
        le(ctx, total, 1, "restricted pairwise: the fitted overlaps of a publisher stay within the documented region", 1e-3)


def step(ctx, cfg):
    """From any admissible overlaps, revising one publisher keeps them admissible and is the best revision."""
    p, n, i = cfg["p"], cfg["n"], cfg["i"]
    tabs, tops = S.tables(ctx, p, 3, cfg)
    curves = [S.Table(t, top, k + 1) for k, (t, top) in enumerate(zip(tabs, tops))]
    l = start(ctx, cfg, p, hi=cfg.get("hi", 8))
    pts, used = training(ctx, cfg, tabs, n)
    s = fit(ctx, curves, pts, [l], [[i]])
    what = "restricted pairwise: "
    if cfg.get("probe"):
        t = ctx.real("t", 0, 8)
        m = list(l)
        m[i] = t
        ctx.assume(admissible(m))
        le(ctx, surface_loss(s, pts, used), loss(m, used, tops), what + "the fit at the training points is never worse than with another admissible overlap of the publisher revised", 1e-6)
    region(ctx, s, tabs, tops)
    q = cfg.get("query", [2] * p)
    reaches = [t_[x] for t_, x in zip(tabs, q)]
    if cfg.get("bounds", True):
        u = s.by_impressions(q).reach()
        ctx.check_le(u, ssum(reaches), what + "union reach is at most the sum of the publishers' reaches")
        for r in reaches:
            le(ctx, r, u, what + "union reach is at least each publisher's reach", 1e-3)


def choice(ctx, cfg):
    """Of several starting points, the result is at least as good as every one of them."""
    p, n, k = cfg["p"], cfg["n"], cfg["inits"]
    tabs, tops = S.tables(ctx, p, 3, cfg)
    curves = [S.Table(t, top) for t, top in zip(tabs, tops)]
    ls = [start(ctx, dict(cfg, l0=0.25 + 0.1875 * j), p, "l%d_" % j) for j in range(k)]
    pts, used = training(ctx, cfg, tabs, n)
    s = fit(ctx, curves, pts, [list(l) for l in ls], [[cfg.get("i", 0)]], inits=k)
    got = surface_loss(s, pts, used)
    for l in ls:
        le(ctx, got, loss(l, used, tops), "restricted pairwise: the fit at the training points is never worse than at a starting point", 1e-6)


def rounds(ctx, cfg):
    """Whole rounds over all publishers, from a fixed start, for any reach of the training points."""
    p, n = cfg["p"], cfg["n"]
    tabs, tops = S.tables(ctx, p, 3, cfg)
    curves = [S.Table(t, top, k + 1) for k, (t, top) in enumerate(zip(tabs, tops))]
    l = cfg["start"]
    pts, used = training(ctx, cfg, tabs, n)
    s = fit(ctx, curves, pts, [list(l)], cfg["orders"], rounds=len(cfg["orders"]))
    what = "restricted pairwise"
    q = cfg.get("query", [2] * p)
    reaches = [t[x] for t, x in zip(tabs, q)]
    u = s.by_impressions(q).reach()
    ctx.check_le(u, ssum(reaches), what + ": union reach is at most the sum of the publishers' reaches")
    for r in reaches:
        le(ctx, r, u, what + ": union reach is at least each publisher's reach", 1e-3)
    region(ctx, s, tabs, tops)
    if cfg.get("loss", True):
        le(ctx, surface_loss(s, pts, used), loss(l, used, tops), what + ": the fit at the training points is never worse than at a starting point", 1e-6)
    for i in range(p):
        less = list(q)
        less[i] = 1
        le(ctx, s.by_impressions(less).reach(), u, what + ": more impressions never reach fewer people", 1e-3)
    S.single(ctx, s, tabs, q, what)
    S.spend_agrees(ctx, s, curves, [x / (i + 1) for i, x in enumerate(q)], what)


def predict(ctx, cfg):
    """Predictions for any admissible overlaps (no training point says anything about them)."""
    p = cfg["p"]
    tabs, tops = S.tables(ctx, p, 3, cfg)
    curves = [S.Table(t, top, k + 1) for k, (t, top) in enumerate(zip(tabs, tops))]
    l = start(ctx, cfg, p)
    alone = [ReachPoint([1 if j == i else 0 for j in range(p)], [ctx.real("y%d" % i, 0, 10 ** 6)]) for i in range(p)]
    s = fit(ctx, curves, alone, [list(l)], [list(range(p))])
    q = cfg["query"]
    what = "restricted pairwise"
    reaches = [t[k] for t, k in zip(tabs, q)]
    if cfg.get("bounds", True):
        u = s.by_impressions(q).reach()
        ctx.check_le(u, ssum(reaches), what + ": union reach is at most the sum of the publishers' reaches")
        for r in reaches:
            le(ctx, r, u, what + ": union reach is at least each publisher's reach", 1e-3)
    else:
        u = s.by_impressions(q).reach()
    ctx.check_eq(u, ssum(reaches) - overlap(l, reaches, tops), what + ": points with one publisher only say nothing about overlaps; reach is the sum less the overlaps")
    for i in cfg.get("mono", range(p)):
        if q[i] == 1:
            more = list(q)
            more[i] = 2
            le(ctx, u, s.by_impressions(more).reach(), what + ": more impressions never reach fewer people", 1e-3)
    if cfg.get("single", True):
        S.single(ctx, s, tabs, q, what)
    S.spend_agrees(ctx, s, curves, [x / (i + 1) for i, x in enumerate(q)], what)


def refused(ctx, cfg):
    """A starting point that is not admissible is not used."""
    p = cfg["p"]
    l = [ctx.real("l%d" % i, 0, 1) for i in range(p)]
    curves = [S.Table([0, 256.0, 512.0], 512.0) for _ in range(p)]
    alone = [ReachPoint([1] + [0] * (p - 1), [200.0])]
    s = fit(ctx, curves, alone, [list(l)], [list(range(p))])
    u = s.by_impressions([2] * p).reach()
    le(ctx, 512, u, "restricted pairwise: union reach is at least each publisher's reach", 1e-3)
    for i in range(p):
        less = [2] * p
        less[i] = 1
        le(ctx, s.by_impressions(less).reach(), u, "restricted pairwise: more impressions never reach fewer people", 1e-3)


def nobody(ctx, cfg):
    """A publisher that reaches no one in any training point does not break the fit."""
    p = cfg["p"]
    tabs = [[0, 0, 256.0]] + [[0, 128.0 * (i + 1), 256.0 * (i + 1)] for i in range(1, p)]
    tops = [256.0 * (i + 1) for i in range(p)]
    curves = [S.Table(t, top) for t, top in zip(tabs, tops)]
    y = ctx.real("y", 0, 10 ** 6)
    s = fit(ctx, curves, [ReachPoint([1] * p, [y])], [[0.5] * p, [0.25] * p], [list(range(p))], inits=2, rounds=1)
    u = s.by_impressions([2] * p).reach()
    ctx.check_le(u, sum(tops), "restricted pairwise: a publisher without reach in training leaves a usable surface")
    le(ctx, tops[-1], u, "restricted pairwise: a publisher without reach in training leaves a usable surface", 1e-3)


ASSUMPTIONS = ["the random starting points are arbitrary numbers and the random order of publishers is arbitrary (each revision of one publisher is checked from any admissible state, which covers every order and number of rounds)", "the publishers' curves are arbitrary non-decreasing tables starting at zero and bounded by their maximum reach", "fewer starting points and rounds than the defaults (an argument of the fit)"]
OUTSIDE = "more than 3 publishers in one revision; rounding of floating point"


def scenarios(tier):
    T = tier == "thorough"
    C = {"sym_tables": (), "sym_tops": ()}
    out = [
        Scenario("step-2", step, dict(C, p=2, n=1, i=0, probe=True), "2 publishers, 1 training point"),
        Scenario("step-2b", step, dict(C, p=2, n=2, i=1, probe=True), "2 publishers, 2 training points"),
        Scenario("step-3", step, dict(C, p=3, n=1, i=1), "3 publishers, any admissible state"),
        Scenario("step-3b", step, dict(C, p=3, n=1, i=0, probe=True, bounds=False, sym_l=(1,)), "3 publishers, probe"),
        Scenario("step-3c", step, dict(C, p=3, n=2, i=2, probe=True, bounds=False, sym_l=(), sym_y=(0, 1)), "3 publishers, 2 points, probe"),
        Scenario("choice-2", choice, dict(C, p=2, n=1, inits=2), "2 starting points"),
        Scenario("choice-3", choice, dict(C, p=3, n=2, inits=3, sym_l=()), "3 starting points, any training reach"),
        Scenario("rounds-2", rounds, dict(C, p=2, n=1, start=[0.5, 0.75], orders=[[0, 1]]), "2 publishers, 1 round"),
        Scenario("rounds-2b", rounds, dict(C, p=2, n=1, start=[0.5, 0.75], orders=[[1, 0], [0, 1]]), "2 publishers, 2 rounds"),
        Scenario("rounds-3", rounds, dict(C, p=3, n=1, start=[0.5, 0.25, 0.75], orders=[[2, 0, 1]]), "3 publishers, 1 round"),
        Scenario("predict-2", predict, {"p": 2, "query": [1, 1]}, "2 publishers, everything arbitrary"),
        Scenario("predict-3", predict, {"p": 3, "query": [1, 2, 1], "bounds": False, "mono": ()}, "3 publishers, everything arbitrary"),
        Scenario("predict-3b", predict, {"p": 3, "query": [1, 2, 1], "sym_l": (), "sym_tops": ()}, "3 publishers, arbitrary reaches"),
        Scenario("predict-3c", predict, {"p": 3, "query": [1, 2, 1], "sym_tables": (), "sym_tops": ()}, "3 publishers, arbitrary overlaps"),
        Scenario("refused-2", refused, {"p": 2}, "2 publishers"),
        Scenario("refused-3", refused, {"p": 3}, "3 publishers"),
        Scenario("nobody-2", nobody, {"p": 2}, "2 publishers"),
        Scenario("nobody-3", nobody, {"p": 3}, "3 publishers"),
    ]
    if T:
        out += [
            Scenario("step-3d", step, dict(C, p=3, n=1, i=0, probe=True), "3 publishers, probe"),
            Scenario("rounds-3b", rounds, dict(C, p=3, n=2, start=[0.5, 0.25, 0.75], orders=[[2, 0, 1]]), "3 publishers, 2 training points"),
        ]
    return out
