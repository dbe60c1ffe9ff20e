"""C22: campaign spends and true reach, from publisher through Halo to planner."""
from symex.api import *
from checks import halo as H
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.publisher import Publisher
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


def counts(ctx, evs, spend, F):
    """k+ reaches of a list of (user, price, limit): users seen at least k times."""
    on = [price <= s for _, price, s in evs]
    out = []
    for k in range(1, F + 1):
        n = 0
        for a, (u, _, _) in enumerate(evs):
            first = lnot(lor(*[land(on[b], evs[b][0] == u) for b in range(a)])) if a else True
            c = count([land(on[b], evs[b][0] == u) for b in range(len(evs))])
            n = n + ite(land(on[a], first, c >= k), 1, 0)
        out.append(n)
    return out


def spends(ctx, cfg):
    """The campaign spends a fraction of what can be spent, per publisher."""
    n = len(cfg["ids"])
    fr = [ctx.real("f%d" % i, 0, 1) if i in cfg.get("sym_f", range(n)) else 0.25 for i in range(n)]
    price = ctx.real("price", 0, 100)
    data = [[(u, price * (i + 1) + p) for i, u in enumerate(ids)] for p, ids in enumerate(cfg["ids"])]
    pubs = [PublisherData(l, "p%d" % p) for p, l in enumerate(data)]
    params = SystemParameters(fr)
    t = PrivacyTracker()
    ds = H.DataSet(pubs, "ds")
    halo = HaloSimulator(ds, params, t)
    ctx.check(halo.publisher_count == n, "Halo: one publisher per publisher of the data set")
    ctx.check(len(halo.campaign_spends) == n and len(halo.max_spends) == n, "Halo: one spend per publisher")
    for p, l in enumerate(data):
        top = smax(*[s for _, s in l])
        ctx.check_eq(halo.max_spends[p], top, "Halo: the maximum spend is the price of the whole log")
        ctx.check_eq(halo.campaign_spends[p], fr[p] * top, "Halo: the campaign spends its fraction of the maximum")
        pub = Publisher(pubs[p], p, params, t)
        ctx.check_eq(pub.campaign_spend, fr[p] * top, "publisher: the campaign spends its fraction of the maximum")
        ctx.check_eq(pub.max_spend, top, "publisher: the maximum spend is the price of the whole log")


def truth(ctx, cfg):
    """True reach: publisher, Halo and planner count the same people."""
    ls, ds, params, t, halo = H.build(ctx, cfg, fractions=cfg.get("fractions"))
    F = cfg.get("F", 2)
    q = [ctx.real("q%d" % i, 0, 3) if i in cfg.get("sym_q", ()) else s for i, s in enumerate(cfg["spends"])]

    class Strategy(object):
        def fit(self, h, prm, budget):
            self.got = (h, prm, budget)
            return self

        def by_spend(self, spends, max_frequency=1):
            return ReachPoint([1] * len(spends), [7] * max_frequency, list(spends))

    st = Strategy()
    plan = PlannerSimulator(halo, st, params, t)
    want = counts(ctx, [(u, s, q[p]) for p, l in enumerate(ls) for u, s in l], q, F)
    for what, pt in (("Halo", halo.true_reach_by_spend(list(q), F)), ("planner", plan.true_reach_by_spend(list(q), F))):
        ctx.check(pt.max_frequency == F, what + ": as many k+ reaches as asked for")
        for k in range(F):
            ctx.check_eq(pt.reach(k + 1), want[k], what + ": true reach counts every user once over all publishers")
        for p, l in enumerate(ls):
            ctx.check_eq(pt.impressions[p], count([s <= q[p] for _, s in l]), what + ": true reach reports the impressions bought")
            ctx.check_eq(pt.spends[p], q[p], what + ": true reach reports the spends")
    for pt in (halo.true_reach_by_spend(list(q)), plan.true_reach_by_spend(list(q))):
        ctx.check(pt.max_frequency == 1, "the 1+ reach is given unless more are asked for")
        ctx.check_eq(pt.reach(), want[0], "the 1+ reach is given unless more are asked for")
    for p, l in enumerate(ls):
        pub = Publisher(ds._data[p] if hasattr(ds, "_data") else PublisherData(l, "x"), p, params, t)
        pt = pub.true_reach_by_spend(q[p], F)
        w = counts(ctx, [(u, s, q[p]) for u, s in l], q, F)
        for k in range(F):
            ctx.check_eq(pt.reach(k + 1), w[k], "publisher: true reach counts the publisher's own users")
        ctx.check_eq(pt.impressions[0], count([s <= q[p] for _, s in l]), "publisher: true reach reports the impressions bought")
        ctx.check_eq(pt.spends[0], q[p], "publisher: true reach reports the spend")
        pt = pub.true_reach_by_spend(q[p])
        ctx.check(pt.max_frequency == 1, "the 1+ reach is given unless more are asked for")
        ctx.check_eq(pt.reach(), w[0], "the 1+ reach is given unless more are asked for")
    c = t.privacy_consumption
    ctx.check_eq(c.epsilon + c.delta, 0, "Halo: the truth costs no privacy budget")
    # the planner hands the fit what it was given and asks the fitted model
    e = ctx.real("eps", 0, 10)
    plan.fit_model(PrivacyBudget(e, 0.25))
    ctx.check(st.got[0] is halo and st.got[1] is params, "planner: the strategy is fitted to the Halo and parameters given")
    ctx.check_eq(st.got[2].epsilon, e, "planner: the strategy gets the budget given")
    ctx.check_eq(st.got[2].delta, 0.25, "planner: the strategy gets the budget given")
    ctx.check(plan.modeled_reach_by_spend(list(q)).max_frequency == 1, "the 1+ reach is given unless more are asked for")
    m = plan.modeled_reach_by_spend(list(q), F)
    ctx.check(m.max_frequency == F, "planner: as many modeled k+ reaches as asked for")
    for a, b in zip(m.spends, q):
        ctx.check_eq(a, b, "planner: the model is asked about the spends given")


OUTSIDE = "more than 3 arbitrary users at once"


def scenarios(tier):
    return [
        Scenario("spends-1", spends, {"ids": [[1, 2, 2]]}, "1 publisher, arbitrary fraction and prices"),
        Scenario("spends-3", spends, {"ids": [[1, 2], [2], [3, 3, 1]]}, "3 publishers, arbitrary fractions"),
        Scenario("spends-12", spends, {"ids": [[1, 2]] * 12, "sym_f": (0, 11)}, "12 publishers"),
        Scenario("truth-q", truth, {"ids": [[1, 2, 2], [2, 3]], "spends": [1.5, 1.0], "sym_q": (0, 1), "F": 3, "fractions": [0.5, 0.25]}, "arbitrary spends, also beyond the campaign"),
        Scenario("truth-u", truth, {"ids": [["?", "?"], ["?", 3]], "spends": [1.0, 1.0], "F": 2}, "arbitrary users"),
        Scenario("truth-3", truth, {"ids": [["?", 1], ["?", 2], [1]], "spends": [1.0, 0.5, 0.5], "F": 2}, "3 publishers, arbitrary users"),
        Scenario("truth-often", truth, {"ids": [[1] * 14 + [2] * 3, [1] * 12 + [3]], "spends": [9.0, 9.0], "sym_q": (0,), "F": 40}, "a user seen 26 times, 40 frequencies"),
        Scenario("truth-12", truth, {"ids": [[i, i + 1] for i in range(12)], "spends": [1.0, 0.5] * 6, "sym_q": (11,), "F": 3}, "12 publishers, one arbitrary spend"),
        Scenario("spends-40", spends, {"ids": [[1, 2]] * 40, "sym_f": (0, 25, 39)}, "40 publishers"),
        Scenario("truth-40", truth, {"ids": [[i % 23, i + 1] for i in range(40)], "spends": [1.0, 0.5] * 20, "sym_q": (29,), "F": 3}, "40 publishers, one arbitrary spend"),
    ]
