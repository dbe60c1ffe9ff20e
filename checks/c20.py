"""C20: a simulated reach query measures the campaign, stays within its budget and gives a usable point."""
import numpy as np

from symex.api import *
from checks import halo as H
from checks.curves import refuses
from wfa_cardinality_estimation_evaluation_framework.estimators import same_key_aggregator as SK
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

W = "simulated reach: "


def query(ctx, cfg):
    gen = H.Generator(ctx)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen, cfg.get("fractions"))
    n, F = len(ls), cfg.get("F", 1)
    seen = {}

    def estimate(est, sketch):
        seen["est"], seen["sketch"] = est, sketch
        return [ctx.real("est%d" % k, -100, cfg.get("top", 20)) if k in cfg.get("sym_est", range(F)) else 3.0 for k in range(F)]

    SK.HOOK[0] = estimate
    eps, dlt = ctx.real("eps", 0, 10), ctx.real("delta", 0, 1)
    kw = {"max_frequency": F} if F > 1 or "split" in cfg else {}
    if "split" in cfg:
        split = ctx.real("split", 0, 1) if cfg["split"] == "?" else cfg["split"]
        kw["privacy_budget_split"] = split
    else:
        split = 0.5
    spends = [ctx.real("spend%d" % i, 0, 3) if i in cfg.get("sym_spend", ()) else s for i, s in enumerate(cfg["spends"])]
    before = list(spends)
    pt = halo.simulated_reach_by_spend(spends, PrivacyBudget(eps, dlt), **kw)
    est, sk = seen["est"].kw, seen["sketch"]
    # what is measured
    want, total = [], 0
    for l, s, c in zip(ls, spends, halo.campaign_spends):
        for u, price in l:
            if ctx.sym:
                on = land(price <= s, price <= c)
                total = total + ite(price <= s, 1, 0)
                if bool(on):
                    want.append(u)
            else:
                total += 1 if price <= s else 0
                if price <= s and price <= c:
                    want.append(u)
    if cfg.get("users", True):
        ctx.check(len(sk.ids) == len(want), W + "the impressions of all publishers, up to the campaign spend, are measured")
        for u in want:
            ctx.check(count([v == u for v in sk.ids]) == count([v == u for v in want]), W + "every user is measured as often as it was shown an impression")
    ctx.check(land(sk.length == params.liquid_legions.sketch_size, sk.decay_rate == params.liquid_legions.decay_rate, sk.random_seed == params.liquid_legions.random_seed), W + "sketches have the size, decay and seed configured")
    # the budget
    ctx.check_eq(est["reach_epsilon"], eps * split, W + "the share of the budget asked for goes to the reach")
    ctx.check_eq(est["frequency_epsilon"], eps * (1 - split), W + "the rest of the budget goes to the frequencies")
    ctx.check_eq(est["reach_delta"], dlt * split, W + "the share of the budget asked for goes to the reach")
    ctx.check_eq(est["frequency_delta"], dlt * (1 - split), W + "the rest of the budget goes to the frequencies")
    ctx.check(est["max_freq"] == F, W + "as many frequencies as asked for are measured")
    e, d = H.spent(ctx, t)
    ctx.check_eq(e, eps, W + "exactly the budget granted is recorded as consumed")
    ctx.check_eq(d, dlt, W + "exactly the budget granted is recorded as consumed")
    ctx.check(gen.uses.count("integers") >= 2, W + "the noise is seeded from the simulation's generator")
    # the answer
    ctx.check(pt.max_frequency == F, W + "as many k+ reaches as asked for")
    ctx.check(len(pt.impressions) == n, W + "one number of impressions per publisher")
    ctx.check_eq(ssum(list(pt.impressions)), total, W + "reports the impressions the spends buy")
    for a, b in zip(pt.spends, before):
        ctx.check_eq(a, b, W + "reports the spends asked about")
    ctx.check(pt.universe_size == ds.universe_size, W + "reports the universe")
    ctx.check_le(0, pt.reach(F), W + "reach is not negative")
    for k in range(1, F):
        ctx.check_le(pt.reach(k + 1), pt.reach(k), W + "k+ reach does not increase with k")
    ctx.check_le(pt.reach(1), smax(total - 1, 1), W + "fewer people are reached than impressions shown")
    SK.HOOK[0] = None


def faithful(ctx, cfg):
    """An estimate that is a possible answer is the answer."""
    gen = H.Generator(ctx)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen)
    F = cfg["F"]
    raw = [ctx.int("est%d" % k, -5, 20) for k in range(F)]
    SK.HOOK[0] = lambda est, sketch: list(raw)
    pt = halo.simulated_reach_by_spend(list(cfg["spends"]), PrivacyBudget(1.0, 0.25), max_frequency=F)
    SK.HOOK[0] = None
    total = sum([len(H.bought(l, s)) for l, s in zip(ls, cfg["spends"])])
    cur = None
    for k in range(F):
        v = smax(raw[k], 0)
        cur = v if cur is None else smin(cur, v)
        ctx.check(imp(smax(raw[0], 0) < total, pt.reach(k + 1) == cur), W + "a possible estimate is reported as it is, made non-negative and non-increasing")
    ctx.check(imp(smax(raw[0], 0) >= total, pt.reach(1) == max(total - 1, 1)), W + "an impossible estimate becomes the largest possible one")
    for k in range(2, F + 1):
        ctx.check(imp(smax(raw[0], 0) >= total, pt.reach(k) == 0), W + "an impossible estimate becomes the largest possible one")


def twice(ctx, cfg):
    """Budgets of several queries add up."""
    gen = H.Generator(ctx)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen)
    SK.HOOK[0] = lambda est, sketch: [2] * est.kw["max_freq"]
    E, D = 0, 0
    for i in range(cfg["n"]):
        e, d = ctx.real("e%d" % i, 0, 10), ctx.real("d%d" % i, 0, 1)
        halo.simulated_reach_by_spend(list(cfg["spends"]), PrivacyBudget(e, d), max_frequency=1 + i)
        E, D = E + e, D + d
    SK.HOOK[0] = None
    e, d = H.spent(ctx, halo.privacy_tracker)
    ctx.check_eq(e, E, W + "the budgets of queries add up")
    ctx.check_eq(d, D, W + "the budgets of queries add up")
    ctx.check(halo.privacy_tracker is t, W + "the tracker given is the one used")


ASSUMPTIONS = ["the external sketching and noise package is absent here and replaced by an exact multiset with an arbitrary (negative, too large, increasing) estimate", "the stand-in reports the budget it was configured with"]
OUTSIDE = "the distribution of the noise and the accuracy of the sketches (external package); more than 6 impressions with arbitrary users"


def scenarios(tier):
    T = tier == "thorough"
    return [
        Scenario("query-2", query, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "F": 1, "split": "?"}, "2 publishers, arbitrary estimate, budget, split"),
        Scenario("query-f3", query, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "F": 3}, "3 frequencies"),
        Scenario("query-f10", query, {"ids": [[1, 2, 2, 4, 5, 6]], "spends": [3.0], "F": 10, "sym_est": (0, 4, 9), "split": 0.75}, "10 frequencies, 3 arbitrary"),
        Scenario("query-spend", query, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "sym_spend": (0, 1), "F": 1, "sym_est": ()}, "arbitrary spends"),
        Scenario("query-cap", query, {"ids": [[1, 2, 2, 3], [2, 3]], "spends": [2.0, 1.0], "sym_spend": (0,), "fractions": [0.5, 1.0], "F": 2, "sym_est": (0,)}, "spends around the campaign spend"),
        Scenario("query-users", query, {"ids": [["?", "?"], ["?", 3]], "spends": [1.0, 1.0], "F": 1, "sym_est": ()}, "arbitrary users"),
        Scenario("query-none", query, {"ids": [[1, 2], [2]], "spends": [0, 0], "F": 2}, "no spend"),
        Scenario("query-12", query, {"ids": [[i, i + 1] for i in range(12)], "spends": [1.0, 0.5] * 6, "F": 2, "sym_est": (0,), "top": 40}, "12 publishers"),
        Scenario("query-40", query, {"ids": [[i, i + 1] for i in range(40)], "spends": [1.0, 0.5] * 20, "F": 2, "sym_est": (0,), "top": 140}, "40 publishers"),
        Scenario("query-long", query, {"ids": [[(i * i) % 37 for i in range(150)], [3, 4]], "spends": [70.0, 1.0], "F": 25, "sym_est": (0, 11, 24), "top": 200}, "150 impressions, 25 frequencies"),
        Scenario("faithful-1", faithful, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "F": 1}, "any integral estimate"),
        Scenario("faithful-3", faithful, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 0.5], "F": 3}, "any integral estimates, 3 frequencies"),
        Scenario("twice", twice, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "n": 3}, "3 queries, arbitrary budgets"),
    ]
