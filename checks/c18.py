"""C18: a fitted model's answers do not depend on what was asked before, of it or of other models, and nothing given is changed."""
import contextlib
import copy

import cvxopt
import numpy as np
import scipy.optimize
import scipy.stats

from symex.api import *
from symex.scipyshim import stand_ins
from checks import c11, c12, c14, c15, c16, c17
from checks import surfaces as S
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import DiracMixtureSinglePublisherModel, UnivariateMixedPoissonOptimizer
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

BIG = 10 ** 9


class Kept(object):
    """Everything a model was given, to see that it stays as it was."""

    def __init__(self, points):
        self.points = points
        self.before = [self.look(p) for p in points]

    @staticmethod
    def look(p):
        return ([v for v in p.impressions], [p.reach(k) for k in range(1, p.max_frequency + 1)], None if p.spends is None else [v for v in p.spends], 0 if p._universe_size is None else p._universe_size)

    def check(self, ctx, label):
        for p, b in zip(self.points, self.before):
            n = self.look(p)
            for x, y in zip(n[:3], b[:3]):
                ctx.check((x is None) == (y is None) and (x is None or len(x) == len(y)), label)
                for u, v in zip(x or [], y or []):
                    ctx.check_eq(u, v, label)
            ctx.check_eq(n[3], b[3], label)


def point(ctx, which, I=150, kp=(100, 40, 8), s=30.0):
    if which == "b":
        I, kp, s = 90, (60, 20, 5), 45.0
    return ReachPoint([I], list(kp), [s])


def goerg(ctx, which, cfg):
    if which == "b":
        pt = ReachPoint([90], [60, 30], [45.0])
    else:
        I, r, s = ctx.real("I", 1, BIG), ctx.real("r", 0, BIG, lo_strict=True), ctx.real("s", 0, BIG, lo_strict=True)
        ctx.assume(r < I)
        pt = ReachPoint([I], [r, r / 2], [s])
    return [pt], lambda: GoergModel([pt])


def gamma(ctx, which, cfg):
    pt = point(ctx, which)
    N = ctx.real("N", 100, BIG) if which != "b" else 300.0
    start = [(c11.GammaPoissonModel, "_find_starting_point_for_fixed_N", lambda self, *a, **kw: (1.0, 1.0))]
    if not hasattr(c11.GammaPoissonModel, "_find_starting_point_for_fixed_N"):
        start = []  # only saves time: where the optimizer starts does not matter to its stand-in

    def make():
        with patched(*start):
            return c11.fitted(ctx, pt, 1.0 if which != "b" else 2.0, 2.0, N, 8)

    return [pt], make


def inflated(ctx, which, cfg):
    pt = point(ctx, which)
    N = ctx.real("N", 100, BIG) if which != "b" else 300.0

    def make():
        m = c12.KInflatedGammaPoissonModel([pt], kmax=1)
        plan = lambda i, k: [1.0 if which != "b" else 2.0, 2.0, N] + [0.25] * k
        with patched((scipy.optimize, "minimize", c12.Best(plan)), (scipy.stats.chi2, "cdf", c12.cdf(lambda i: 0.99, []))):
            m._fit()
        return m

    return [pt], make


def dirac(ctx, which, cfg):
    pt = ReachPoint([100], [50, 20, 5], [20.0], universe_size=100) if which != "b" else ReachPoint([80], [60, 20], [10.0], universe_size=200)
    w = ctx.real("w", 0, 1)

    def make():
        def solve(observed_arr, component_arrs, distance):
            n = len(component_arrs)
            return c14.vec(ctx, ([w, 1 - w] + [0.0] * n)[:n] if which != "b" else [1.0] + [0.0] * (n - 1))

        with patched((UnivariateMixedPoissonOptimizer, "solve_optimal_weights", staticmethod(solve))):
            m = DiracMixtureSinglePublisherModel([pt], ncomponents=2)
            m._fit()
        return m

    return [pt], make


def truth(ctx, which, cfg):
    if "ds" not in cfg:
        a = [(1, 1.0), (2, 2.0), (1, 3.0), (3, ctx.real("price", 3, 8))]
        cfg["ds"] = DataSet([PublisherData(a, "a"), PublisherData([(1, 4.0), (1, 5.0)], "b")], "x")
    ds = cfg["ds"]
    return [], lambda: GroundTruthReachCurveModel(ds, 0 if which != "b" else 1)


def curves_for(ctx, cfg, which):
    t, tops = S.tables(ctx, 2, 3, {"sym_tables": (0,), "sym_tops": ()} if which != "b" else {"sym_tables": (), "sym_tops": ()}, "" if which != "b" else "b")
    return [S.Table(x, top, i + 1) for i, (x, top) in enumerate(zip(t, tops))], tops


def pairwise(ctx, which, cfg):
    curves, tops = curves_for(ctx, cfg, which)
    pts = [ReachPoint([2, 1], [700.0]), ReachPoint([1, 2], [600.0], [3.0, 4.0])]
    a = ctx.real("a", 0, 1) if which != "b" else 0.25
    return pts, lambda: c15.fit(ctx, curves, pts, lambda i, call: [0.0, a, a, 0.0])[0]


def restricted(ctx, which, cfg):
    curves, tops = curves_for(ctx, cfg, which)
    pts = [ReachPoint([2, 1], [700.0]), ReachPoint([1, 2], [600.0], [3.0, 4.0])]
    l = [ctx.real("l", 0, 1), 0.5] if which != "b" else [0.25, 0.5]

    def make():
        s = c16.limited(1, 0)(curves, pts)
        with patched((np.random, "rand", lambda *n: np.array(l, dtype=object if ctx.sym else float)), (np.random, "permutation", lambda n: np.arange(n))):
            s._fit()
        return s

    return pts, make


def mixture(ctx, which, cfg):
    curves, tops = curves_for(ctx, cfg, "b" if not cfg.get("tables") else which)
    pts = [ReachPoint([2, 1], [700.0]), ReachPoint([1, 2], [600.0], [3.0, 4.0])]
    a = ctx.real("a", 0, 1) if which != "b" and not cfg.get("tables") else 0.25
    x = [a, 1 - a, 0.5, 0.5]
    return pts, lambda: c17.fit(ctx, curves, pts, 2, [x], lambda i, call: x)[0]


KINDS = {"goerg": goerg, "gamma": gamma, "inflated": inflated, "dirac": dirac, "truth": truth, "pairwise": pairwise, "restricted": restricted, "mixture": mixture}
SURFACES = ("pairwise", "restricted", "mixture")


def query(ctx, cfg, tag):
    """(impressions, spends) of a question."""
    if cfg["model"] in SURFACES:
        q = ctx.choose(tag + "imps", [[1, 2], [2, 0], [0, 1]])
        return list(q), [float(v) / (i + 1) for i, v in enumerate(q)]
    if cfg["model"] == "truth":
        n = ctx.choose(tag + "n", [0, 2, 4])
        return [n], [ctx.real(tag + "spend", 0, 10)]
    x = ctx.real(tag + "x", 0, BIG)
    return [x], [ctx.real(tag + "spend", 0, BIG)]


def ask(m, how, q, F):
    imps, spends = list(q[0]), list(q[1])
    p = m.by_impressions(imps, F) if how == "impressions" else m.by_spend(spends, F)
    return p, (imps if how == "impressions" else spends)


def same(ctx, p, q, label):
    ctx.check(p.max_frequency == q.max_frequency, label)
    for k in range(1, min(p.max_frequency, q.max_frequency) + 1):
        ctx.check_eq(p.reach(k), q.reach(k), label)
    ctx.check(len(p.impressions) == len(q.impressions), label)
    for u, v in zip(p.impressions, q.impressions):
        ctx.check_eq(u, v, label)
    ctx.check((p.spends is None) == (q.spends is None), label)
    for u, v in zip(p.spends or [], q.spends or []):
        ctx.check_eq(u, v, label)


def asked(ctx, cfg):
    cfg = dict(cfg)
    kind = cfg["model"]
    M = cfg.get("M", 8)
    freqs = [1] if kind in SURFACES else cfg.get("freqs", [1, 3])
    L = kind + ": "
    with contextlib.ExitStack() as stack:
        if kind in ("gamma", "inflated", "dirac"):
            stack.enter_context(stand_ins(ctx))
            stack.enter_context(patched((c11.G, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M), (c12.K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)))
        pa, make_a = KINDS[kind](ctx, "a", cfg)
        pb, make_b = KINDS[kind](ctx, "b", cfg)
        given = Kept(pa + pb)
        a = make_a()
        given.check(ctx, L + "fitting does not change the training points")
        top = getattr(a, "max_reach", None)
        b = None
        for i in range(cfg["steps"]):
            who = ctx.choose("who%d" % i, ["same", "other"])
            how = ctx.choose("how%d" % i, ["impressions", "spend"])
            F = ctx.choose("F%d" % i, freqs)
            if who == "other" and b is None:
                b = make_b()
            q = query(ctx, cfg, "q%d" % i)
            _, arg = ask(a if who == "same" else b, how, q, F)
            for u, v in zip(arg, q[0] if how == "impressions" else q[1]):
                ctx.check_eq(u, v, L + "asking does not change the question")
        how = ctx.choose("how", ["impressions", "spend"])
        q = query(ctx, cfg, "z")
        F = freqs[-1]
        p, _ = ask(a, how, q, F)
        twin = make_a()
        same(ctx, p, ask(twin, how, q, F)[0], L + "an answer does not depend on what was asked before")
        for k in freqs:
            r = ask(a, how, q, k)[0]
            for j in range(1, k + 1):
                ctx.check_eq(r.reach(j), p.reach(j), L + "a k+ reach does not depend on how many are asked for")
        r = a.by_impressions(list(q[0])) if how == "impressions" else a.by_spend(list(q[1]))
        ctx.check(r.max_frequency == 1, L + "the 1+ reach is given unless more are asked for")
        ctx.check_eq(r.reach(), p.reach(1), L + "the 1+ reach is given unless more are asked for")
        if top is not None:
            ctx.check_eq(a.max_reach, top, L + "asking does not change the maximum reach")
        given.check(ctx, L + "asking does not change the training points")


ASSUMPTIONS = ["optimizers and distribution functions are stand-ins as in C11, C12 and C14 to C17 (the same answer for the same fit)"]
OUTSIDE = "more than 2 questions before the one compared; two training points for single publisher curves"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for k in KINDS:
        cfg = {"model": k, "steps": 2 if k in ("goerg",) or (T and k not in SURFACES) else 1}
        if k in ("gamma", "inflated") and not T:
            cfg.update(M=5, freqs=[1, 2])
        out.append(Scenario(k, asked, cfg, "%d arbitrary questions before the one compared" % cfg["steps"], budget=400, max_paths=60000))
    out.append(Scenario("mixture-tables", asked, {"model": "mixture", "steps": 1, "tables": True}, "arbitrary curves"))
    return out
