"""C21: a simulated Venn diagram is a consistent set of union reaches within its budget."""
from itertools import combinations

import numpy as np

from symex.api import *
from checks import halo as H
from checks.curves import refuses
from wfa_cardinality_estimation_evaluation_framework.estimators import estimator_noisers as EN
from wfa_planning_evaluation_framework.simulator import halo_simulator as HS
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

W = "Venn diagram: "


def subsets(active):
    return [s for r in range(1, len(active) + 1) for s in combinations(active, r)]


def run(ctx, halo, spends, budget, **kw):
    items = [(HS, "expi", lambda x: 0.0 * x)] if hasattr(HS, "expi") else []
    with patched(*items):
        return halo.simulated_venn_diagram_reach_by_spend(spends, budget, **kw)


def by_subset(ctx, ds, spends, pts):
    """The points, by the set of publishers they are about."""
    active = [i for i, s in enumerate(spends) if s]
    imps = ds.impressions_by_spend(spends)
    want = subsets(active)
    ctx.check(len(pts) == len(want), W + "one point for every combination of active publishers")
    out = {}
    for pt in pts:
        key = tuple([i for i, s in enumerate(pt.spends) if s])
        ctx.check(key in want and key not in out, W + "every combination of active publishers once")
        for i in range(len(spends)):
            on = i in key
            ctx.check_eq(pt.spends[i], spends[i] if on else 0, W + "reports the spends of the combination")
            ctx.check_eq(pt.impressions[i], imps[i] if on else 0, W + "reports the impressions of the combination")
        ctx.check(pt.universe_size == ds.universe_size, W + "reports the universe")
        ctx.check(pt.max_frequency == 1, W + "1+ reaches only")
        out[key] = pt.reach()
    return out


def exact(ctx, cfg):
    """With nothing sampled away and no noise every union reach is the true one."""
    gen = H.Generator(ctx)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen)
    EN.HOOK[0] = lambda kind, kw, x: x
    spends = list(cfg["spends"])
    pts = run(ctx, halo, spends, PrivacyBudget(1.0, 0.5))
    EN.HOOK[0] = None
    got = by_subset(ctx, ds, spends, pts)
    for key, r in got.items():
        users = [u for i in key for u in H.bought(ls[i], spends[i])]
        true = ssum([ite(lor(*[users[b] == users[a] for b in range(a)]) if a else False, 0, 1) for a in range(len(users))])
        ctx.check_eq(r, true, W + "without noise every union reach is the number of distinct users")
    union = [u for i in range(len(ls)) for u in H.bought(ls[i], spends[i])]
    tot = ssum([ite(lor(*[union[b] == union[a] for b in range(a)]) if a else False, 0, 1) for a in range(len(union))])
    ctx.check_eq(ssum(gen.population), tot, W + "everyone reached is in exactly one region")
    ctx.check_eq(gen.loc, tot, W + "the number of people is estimated around the truth")
    ctx.check(gen.registers == cfg.get("size", 32), W + "the sketch has the size configured")


def noisy(ctx, cfg):
    """Whatever the sampling and the noise do."""
    sample = (lambda n: min(n, cfg["sample"])) if "sample" in cfg else None
    gen = H.Generator(ctx, sample, (lambda loc: ctx.real("normal", -50, 50)) if cfg.get("normal") else None)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen)
    calls = []
    sym = cfg.get("sym_noise", None)

    def noise(kind, kw, x):
        k = len(calls)
        v = ctx.int("noised%d" % k, -20, 50) if sym is None or k in sym else x + (k % 3)
        calls.append((kw["epsilon"], x, v))
        return v

    EN.HOOK[0] = noise
    eps, dlt = ctx.real("eps", 0, 10), ctx.real("delta", 0, 1)
    split = 0.5
    kw = {}
    if "split" in cfg:
        split = kw["privacy_budget_split"] = ctx.real("split", 0, 1) if cfg["split"] == "?" else cfg["split"]
    spends = list(cfg["spends"])
    pts = run(ctx, halo, spends, PrivacyBudget(eps, dlt), **kw)
    EN.HOOK[0] = None
    got = by_subset(ctx, ds, spends, pts)
    # privacy
    e, d = H.spent(ctx, t)
    ctx.check_eq(e, eps, W + "exactly the budget granted is recorded as consumed")
    ctx.check_eq(d, dlt, W + "exactly the budget granted is recorded as consumed")
    regions = 2 ** len([s for s in spends if s]) - 1
    ctx.check(len(calls) == regions + 1, W + "every region, even an empty one, and the total get noise")
    for ce, _, _ in calls[:regions]:
        ctx.check_eq(ce, eps * split, W + "the share of the budget asked for goes to the regions")
    ctx.check_eq(calls[-1][0], eps * (1 - split), W + "the rest of the budget goes to the total")
    ctx.check_eq(ssum([x for _, x, _ in calls[:regions]]), gen.sample_size, W + "the sampled regions are what gets noise")
    # consistency of the answer
    full = max(got, key=len)
    for key, r in got.items():
        ctx.check_le(0, r, W + "no union reach is negative")
    for a in got:
        for b in got:
            if set(a) < set(b) and len(b) == len(a) + 1:
                ctx.check_le(got[a], got[b], W + "a larger combination reaches no fewer people")
                rest = tuple([i for i in b if i not in a])
                ctx.check_le(got[b], got[a] + got[rest], W + "a union reaches no more than its parts together")
    kept = ssum([smax(v, 0) for _, _, v in calls[:regions]])
    ctx.check(imp(kept > 0, abs_close(got[full], smax(calls[-1][2], 0))), W + "all publishers together reach the estimated number of people")
    ctx.check(imp(kept <= 0, got[full] == 0), W + "no one is reached if no region has anyone")


def abs_close(a, b):
    return land(a - b <= 1e-6, b - a <= 1e-6)


def shares(ctx, cfg):
    """Each region keeps its share: inclusion-exclusion on the answer gives the noised regions, scaled."""
    gen = H.Generator(ctx)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen)
    calls = []

    def noise(kind, kw, x):
        v = ctx.int("noised%d" % len(calls), 1, 50) if len(calls) in cfg["sym_noise"] else x + 1
        calls.append((x, v))
        return v

    EN.HOOK[0] = noise
    spends = list(cfg["spends"])
    got = by_subset(ctx, ds, spends, run(ctx, halo, spends, PrivacyBudget(1.0, 0.5)))
    EN.HOOK[0] = None
    active = [i for i, s in enumerate(spends) if s]
    regions = 2 ** len(active) - 1
    got[()] = 0
    full = tuple(active)
    # people reached by exactly the publishers in key: by inclusion-exclusion over unions
    exactly = {}
    for key in subsets(active):
        rest = tuple([i for i in active if i not in key])
        v = 0
        for r in range(len(key) + 1):
            for sub in combinations(key, r):
                u = tuple(sorted(rest + sub))
                v = v + (-1 if r % 2 == 0 else 1) * got[u]
        exactly[key] = v
    total = ssum([v for _, v in calls[:regions]])
    true = {}
    for key in subsets(active):
        users = [set(H.bought(ls[i], spends[i])) for i in key]
        inter = set.intersection(*users)
        for i in active:
            if i not in key:
                inter = inter - set(H.bought(ls[i], spends[i]))
        true[key] = len(inter)
    order = cfg.get("order")
    # the region of a key is the one whose true size went into the noise; sizes are distinct in these configurations
    by_size = {x: v for x, v in calls[:regions]}
    ctx.check(sorted(by_size) == sorted(true.values()), W + "the regions are the exact combinations")
    for key, v in exactly.items():
        if true[key] in by_size:
            ctx.check_eq(v * total, by_size[true[key]] * calls[-1][1], W + "every region keeps its share of the estimated number of people")


def inactive(ctx, cfg):
    """No spend: no points, no budget."""
    gen = H.Generator(ctx)
    ls, ds, params, t, halo = H.build(ctx, cfg, gen)
    e = ctx.real("eps", 0, 10)
    pts = run(ctx, halo, [0] * len(ls), PrivacyBudget(e, 0.5))
    ctx.check(pts == [], W + "no points without spend")
    ctx.check_eq(H.spent(ctx, t)[0], 0, W + "no budget is consumed without spend")
    refuses(ctx, lambda: run(ctx, halo, [0.5] * len(ls), PrivacyBudget(e, 0.5), max_frequency=2), W + "frequencies are refused", ValueError)


def limit(ctx, cfg):
    """More active publishers than the limit are refused, before any budget is spent."""
    EN.HOOK[0] = lambda kind, kw, x: x
    gen = H.Generator(ctx)
    ids = [[1] for _ in range(22)]
    ls, ds, params, t, halo = H.build(ctx, {"ids": ids}, gen)
    e = ctx.real("eps", 0, 10)
    refuses(ctx, lambda: run(ctx, halo, [0.5] * 21 + [0], PrivacyBudget(e, 0.5)), W + "too many active publishers are refused", ValueError)
    ctx.check_eq(H.spent(ctx, t)[0], 0, W + "a refused request consumes no budget")
    EN.HOOK[0] = None


ASSUMPTIONS = ["noise, sampling and the Liquid Legions register draw are stand-ins with arbitrary outcomes within their contracts (a multivariate hypergeometric draw takes at most each region's population and exactly the sample size)", "the standard deviation of the cardinality estimate only feeds the normal draw and is not checked"]
OUTSIDE = "the variance formula of the cardinality estimate (exponential integrals); more than 4 active publishers; 21 publishers only for the refusal"


def scenarios(tier):
    T = tier == "thorough"
    seven = {"ids": [[100 + i for i in range(30)], None, None]}
    # region sizes 1..7 for the seven combinations of three publishers
    keys = subsets([0, 1, 2])
    pubs = [[], [], []]
    u = 0
    for n, key in enumerate(keys):
        for _ in range(n + 1):
            for i in key:
                pubs[i].append(u)
            u += 1
    return [
        Scenario("exact-2", exact, {"ids": [["?", "?"], ["?", 3]], "spends": [1.0, 1.0]}, "2 publishers, arbitrary users"),
        Scenario("exact-2b", exact, {"ids": [["?", "?"], ["?", "?"]], "spends": [1.0, 0.5]}, "2 publishers, arbitrary users, partial spend"),
        Scenario("exact-3", exact, {"ids": [["?", 1], ["?", 2], ["?"]], "spends": [1.0, 0.5, 0.5]}, "3 publishers, arbitrary users"),
        Scenario("exact-3b", exact, {"ids": [[1, "?"], [2], [1, 2, 3]], "spends": [1.0, 0, 1.5]}, "3 publishers, one inactive"),
        Scenario("exact-5", exact, {"ids": [[1, 2], [2, 3], [3, "?"], [4], [1, 5]], "spends": [1.0, 1.0, 1.0, 0.5, 1.0]}, "5 publishers"),
        Scenario("noisy-1", noisy, {"ids": [[1, 2, 3]], "spends": [1.5], "split": "?", "sample": 2}, "1 publisher"),
        Scenario("noisy-2", noisy, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "split": 0.25}, "2 publishers, arbitrary noise"),
        Scenario("noisy-2b", noisy, {"ids": [[1, 2, 4], [2, 3]], "spends": [1.5, 1.0], "split": 0.75, "sample": 2, "normal": True, "sym_noise": (0, 3)}, "2 publishers, arbitrary sample and noise"),
        Scenario("noisy-3", noisy, {"ids": [[1, 2], [2, 3], [1, 3, 4]], "spends": [1.0, 1.0, 1.5], "sym_noise": (0, 5, 7)}, "3 publishers, some arbitrary noise"),
        Scenario("noisy-4", noisy, {"ids": [[1, 2], [2, 3], [1, 3, 4], [4, 1]], "spends": [1.0, 1.0, 1.5, 0.5], "sym_noise": (0, 15)}, "4 publishers"),
        Scenario("shares-3", shares, {"ids": pubs, "spends": [50.0] * 3, "size": 40, "sym_noise": (1, 4, 7)}, "3 publishers, arbitrary noise on 2 regions and the total"),
        Scenario("inactive", inactive, {"ids": [[1, 2], [2]]}, "2 publishers"),
        Scenario("limit", limit, {}, "21 active publishers"),
    ]
