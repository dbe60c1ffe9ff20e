"""C23: modeling strategies measure the right things within the budget and fit the right models."""
import numpy as np

from symex.api import *
from checks import halo as H
from checks.curves import refuses
from wfa_cardinality_estimation_evaluation_framework.estimators import same_key_aggregator as SK
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

W = "M3 strategy: "


class Recorder(HaloSimulator):
    """Answers every measurement with arbitrary reaches and remembers it."""

    def setup(self, ctx):
        self.ctx, self.asked = ctx, []
        return self

    def simulated_reach_by_spend(self, spends, budget, privacy_budget_split=0.5, max_frequency=1):
        k = len(self.asked)
        r = [self.ctx.int("m%d_%d" % (k, f), 1, 1000) for f in range(min(max_frequency, 2))] + [1] * (max_frequency - 2)
        pt = ReachPoint([10 * (k + 1) + i if s else 0 for i, s in enumerate(spends)], r, list(spends))
        self.asked.append((list(spends), budget, max_frequency, pt))
        return pt


class Curve(object):
    made = []

    def __init__(self, data, **kw):
        self.data, self.kw, self.fits = list(data), kw, 0
        Curve.made.append(self)

    def _fit(self):
        self.fits += 1

    def by_spend(self, spend, max_frequency=1):
        return ReachPoint([1], [1], spend)


class Surface(Curve):
    def __init__(self, curves, points, **kw):
        self.curves, self.points, self.kw, self.fits = list(curves), list(points), kw, 0
        self.fitted_curves = [getattr(c, "fits", 1) for c in self.curves]


def point_eq(ctx, a, b, label):
    ctx.check(a.max_frequency == b.max_frequency, label)
    for k in range(1, b.max_frequency + 1):
        ctx.check_eq(a.reach(k), b.reach(k), label)
    ctx.check(list(a.impressions) == list(b.impressions), label)
    ctx.check(len(a.spends) == len(b.spends), label)
    for x, y in zip(a.spends, b.spends):
        ctx.check_eq(x, y, label)


def m3(ctx, cfg):
    p = cfg["p"]
    ids = [[1, i + 2, i + 2] for i in range(p)]
    fr = [ctx.real("f%d" % i, 0, 1, lo_strict=True) if i in cfg.get("sym_f", range(p)) else 0.5 for i in range(p)]
    _, ds, params, t, _ = H.build(ctx, {"ids": ids}, fractions=fr)
    halo = Recorder(ds, params, t).setup(ctx)
    eps, dlt = ctx.real("eps", 0, 100), ctx.real("delta", 0, 1)
    st = M3Strategy(Curve, {"a": 1}, Surface, {"b": 2}, **({"use_ground_truth_for_reach_curves": True} if cfg.get("truth") else {}))
    Curve.made[:] = []
    out = st.fit(halo, params, PrivacyBudget(eps, dlt))
    asked = halo.asked
    ctx.check_le(ssum([b.epsilon for _, b, _, _ in asked]), eps, W + "all measurements together stay within the privacy budget")
    ctx.check_le(ssum([b.delta for _, b, _, _ in asked]), dlt, W + "all measurements together stay within the privacy budget")
    for _, b, _, _ in asked:
        ctx.check(imp(eps > 0, b.epsilon > 0), W + "every measurement has a share of the budget")
    spends = halo.campaign_spends

    def find(active):
        return [a for a in asked if [bool(i in active) for i in range(p)] == [not (isinstance(s, (int, float)) and s == 0) for s in a[0]]]

    for s, _, _, _ in asked:
        for i, v in enumerate(s):
            ctx.check(lor(v == 0, v == spends[i]), W + "measurements are made at the campaign's spends")
    alone = [find([i]) for i in range(p)]
    for i in range(p):
        ctx.check(len(alone[i]) >= 1, W + "every publisher is measured on its own")
    if p > 1:
        total = find(range(p))
        ctx.check(len(total) == 1, W + "all publishers together are measured")
    else:
        total = []
    if p > 2:
        for i in range(p):
            ctx.check(len(find([j for j in range(p) if j != i])) == 1, W + "all publishers but one are measured, for each")
    # curves
    curves = out.curves if p > 1 else [out]
    ctx.check(len(curves) == p, W + "one curve per publisher")
    for i, c in enumerate(curves):
        if cfg.get("truth"):
            for s in (0.5, 1.0, 1.5):
                v = [0] * p
                v[i] = s
                ctx.check_eq(c.by_spend([s], 2).reach(2), ds.reach_by_spend(v, 2).reach(2), W + "ground truth curves are those of the publishers, in order")
                ctx.check_eq(c.by_spend([s], 2).reach(1), ds.reach_by_spend(v, 2).reach(1), W + "ground truth curves are those of the publishers, in order")
            continue
        ctx.check(c.kw == {"a": 1}, W + "curves are made with the arguments given")
        ctx.check(c.fits >= 1, W + "curves are fitted")
        ctx.check(len(c.data) == 1, W + "a curve is trained on its publisher's measurement")
        ok = False
        for a in alone[i]:
            if a[2] == max([x[2] for x in alone[i]]):
                ctx.check(a[2] > 1, W + "publishers are measured with frequencies")
                want = ReachPoint([a[3].impressions[i]], [a[3].reach(k) for k in range(1, a[2] + 1)], [a[3].spends[i]])
                point_eq(ctx, c.data[0], want, W + "a curve is trained on its publisher's own impressions, reaches and spend")
                ok = True
        ctx.check(ok, W + "a curve is trained on its publisher's measurement")
    if p > 1:
        ctx.check(out.kw == {"b": 2}, W + "the surface is made with the arguments given")
        ctx.check(out.fits >= 1, W + "the surface is fitted")
        if not cfg.get("truth"):
            ctx.check(all([f >= 1 for f in out.fitted_curves]), W + "the surface is built on fitted curves")
        want = [total[0][3]] + ([find([j for j in range(p) if j != i])[0][3] for i in range(p)] if p > 2 else [])
        ctx.check(len(out.points) == len(want), W + "the surface is trained on the joint measurements")
        for w in want:
            ctx.check(count([x is w for x in out.points]) == 1 if any([x is w for x in out.points]) else any_same(ctx, out.points, w), W + "the surface is trained on the joint measurements")


def any_same(ctx, pts, w):
    return lor(*[land(*([x.reach(1) == w.reach(1)] + [a == b for a, b in zip(x.impressions, w.impressions)])) for x in pts])


def single(ctx, cfg):
    p = cfg["p"]
    ids = [[1, i + 2, i + 2] for i in range(p)]
    fr = [ctx.real("f%d" % i, 0, 1, lo_strict=True) for i in range(p)]
    _, ds, params, t, _ = H.build(ctx, {"ids": ids}, fractions=fr)
    halo = Recorder(ds, params, t).setup(ctx)
    eps, dlt = ctx.real("eps", 0, 100), ctx.real("delta", 0, 1)
    st = SinglePublisherStrategy(Curve, {"a": 1}, Surface, {"b": 2})
    S = "single publisher strategy: "
    if p != 1:
        refuses(ctx, lambda: st.fit(halo, params, PrivacyBudget(eps, dlt)), S + "more than one publisher is refused", ValueError)
        ctx.check(len(halo.asked) == 0, S + "a refused fit measures nothing")
        return
    out = st.fit(halo, params, PrivacyBudget(eps, dlt))
    ctx.check(len(halo.asked) == 1, S + "one measurement is made")
    sp, b, F, pt = halo.asked[0]
    ctx.check_eq(sp[0], halo.campaign_spends[0], S + "the measurement is made at the campaign's spend")
    ctx.check_eq(b.epsilon, eps, S + "the measurement has the whole budget")
    ctx.check_eq(b.delta, dlt, S + "the measurement has the whole budget")
    ctx.check(F > 1, S + "the publisher is measured with frequencies")
    ctx.check(out.fits >= 1 and out.kw == {"a": 1} and len(out.data) == 1, S + "the curve is made with the arguments given and fitted to the measurement")
    point_eq(ctx, out.data[0], pt, S + "the curve is made with the arguments given and fitted to the measurement")


def whole(ctx, cfg):
    """With the real Halo, what a fit has consumed stays within the budget."""
    p = cfg["p"]
    gen = H.Generator(ctx)
    _, ds, params, t, halo = H.build(ctx, {"ids": [[1, i + 2, i + 2] for i in range(p)]}, gen, [1.0] * p)
    SK.HOOK[0] = lambda est, sketch: [2 if p > 2 else ctx.int("est%d" % len(gen.uses), 1, 50)] + [0] * (est.kw["max_freq"] - 1)
    eps, dlt = ctx.real("eps", 0, 100), ctx.real("delta", 0, 1)
    M3Strategy(Curve, {}, Surface, {}).fit(halo, params, PrivacyBudget(eps, dlt))
    SK.HOOK[0] = None
    c = t.privacy_consumption
    ctx.check_le(c.epsilon, eps, W + "the budget recorded as consumed stays within the budget granted")
    ctx.check_le(c.delta, dlt, W + "the budget recorded as consumed stays within the budget granted")
    ctx.check(lor(eps == 0, c.epsilon > 0), W + "measurements are recorded")


ASSUMPTIONS = ["measurements are arbitrary reach points from a recording Halo (the whole-fit scenarios use the real Halo with stand-ins for the external sketching package)"]
OUTSIDE = "more than 12 publishers"


def scenarios(tier):
    return [
        Scenario("m3-1", m3, {"p": 1}, "1 publisher"),
        Scenario("m3-2", m3, {"p": 2}, "2 publishers"),
        Scenario("m3-3", m3, {"p": 3}, "3 publishers"),
        Scenario("m3-6", m3, {"p": 6, "sym_f": (0, 5)}, "6 publishers"),
        Scenario("m3-12", m3, {"p": 12, "sym_f": (0, 11)}, "12 publishers"),
        Scenario("m3-truth-2", m3, {"p": 2, "truth": True}, "2 publishers, ground truth curves"),
        Scenario("m3-truth-3", m3, {"p": 3, "truth": True}, "3 publishers, ground truth curves"),
        Scenario("m3-truth-1", m3, {"p": 1, "truth": True}, "1 publisher, ground truth curve"),
        Scenario("single-1", single, {"p": 1}, "1 publisher"),
        Scenario("single-2", single, {"p": 2}, "2 publishers"),
        Scenario("whole-1", whole, {"p": 1}, "1 publisher, real Halo"),
        Scenario("whole-2", whole, {"p": 2}, "2 publishers, real Halo"),
        Scenario("whole-4", whole, {"p": 4}, "4 publishers, real Halo"),
    ]
