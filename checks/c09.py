"""C09: the Goerg curve passes through its training point and is a proper reach curve."""
from symex.api import *
from checks.curves import increasing, refuses, well_formed
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

BIG = 10 ** 9


def train(ctx, cfg):
    if cfg.get("point"):
        I, r, s = cfg["point"]
    else:
        I = ctx.real("I", 0.001, BIG) if not cfg.get("int") else ctx.int("I", 1, BIG)
        r = ctx.real("r", 0, BIG, lo_strict=True) if not cfg.get("int") else ctx.int("r", 1, BIG)
        s = ctx.real("s", 0, BIG, lo_strict=True)
        ctx.assume(r < I)
    kp = [r] + [r / 2 ** (j + 1) for j in range(cfg.get("given", 1) - 1)]
    pt = ReachPoint([I], kp, [s] if cfg.get("spend", True) else None)
    return GoergModel([pt]), I, r, s


def curve(ctx, cfg):
    m, I, r, s = train(ctx, cfg)
    F = cfg["F"]
    cpi = s / I if cfg.get("spend", True) else None
    x = ctx.real("x", 0, BIG)
    p = m.by_impressions([x], F)
    well_formed(ctx, m, p, x, F, "Goerg", m.max_reach, cpi)
    ctx.check_eq(m.by_impressions([I]).reach(), r, "Goerg: passes through the training point")
    ctx.check_eq(m.by_impressions([0], F).reach(), 0, "Goerg: no impressions reach no one")
    ctx.check_le(p.reach(), x, "Goerg: reach is at most the number of impressions")
    ctx.check(p.reach() < m.max_reach, "Goerg: the maximum reach is approached, not attained")
    if cfg.get("mono", True):
        y = ctx.real("y", 0, BIG)
        q = m.by_impressions([x + y], F)
        increasing(ctx, p, q, F, "Goerg")
    if cpi is not None:
        sp = x * cpi
        b = m.by_spend([sp], F)
        for k in range(1, F + 1):
            ctx.check_eq(b.reach(k), p.reach(k), "Goerg: spending the price of the impressions reaches the same people")
        ctx.check_eq(b.impressions[0], x, "Goerg: impressions bought with a spend")
        ctx.check_eq(m.impressions_for_spend(sp), x, "Goerg: impressions for a spend")
    else:
        ctx.check(p.spends is None, "Goerg: no spend is reported when the price is not known")
        refuses(ctx, lambda: m.by_spend([1.0]), "Goerg: a spend query is refused when the price is not known", ValueError)
        refuses(ctx, lambda: m.impressions_for_spend(1.0), "Goerg: a spend query is refused when the price is not known", ValueError)


def exact(ctx, cfg):
    """The one-point formula: maximum reach I r / (I - r); k+ reach is the k-th power of the reached fraction."""
    m, I, r, s = train(ctx, cfg)
    x = ctx.real("x", 0, BIG)
    p = m.by_impressions([x], cfg["F"])
    ctx.check_eq(m.max_reach * (I - r), I * r, "Goerg: maximum reach of the exponential-Poisson model")
    f = p.reach(1) / m.max_reach
    acc = f
    for k in range(2, cfg["F"] + 1):
        acc = acc * f
        ctx.check_eq(p.reach(k), m.max_reach * acc, "Goerg: k+ reach is geometric in k")


def history(ctx, cfg):
    """Answers do not depend on earlier questions."""
    m, I, r, s = train(ctx, cfg)
    m2, _, _, _ = train(ctx, cfg)
    x = ctx.real("x", 0, BIG)
    y = ctx.real("y", 0, BIG)
    a = m.by_impressions([x], 2)
    m.by_impressions([y], 3)
    m.by_spend([y], 1)
    b = m.by_impressions([x], 2)
    m2.by_impressions([y], 3)
    c = m2.by_impressions([x], 2)
    for k in (1, 2):
        ctx.check_eq(b.reach(k), a.reach(k), "Goerg: the same question has the same answer")
        ctx.check_eq(c.reach(k), a.reach(k), "Goerg: answers do not depend on earlier questions")


def refusals(ctx, cfg):
    r = ctx.real("r", 0, BIG)
    I = ctx.real("I", 1, BIG)
    ctx.assume(I <= r)
    refuses(ctx, lambda: GoergModel([ReachPoint([I], [r], [1.0])]), "Goerg: impressions not above reach are refused", ValueError)
    tiny = ctx.real("tiny", 0, 0.0009)
    refuses(ctx, lambda: GoergModel([ReachPoint([tiny], [0], [1.0])]), "Goerg: a training point without impressions is refused", ValueError)
    p = ReachPoint([10], [5], [1.0])
    refuses(ctx, lambda: GoergModel([p, p]), "Goerg: exactly one training point", ValueError)
    refuses(ctx, lambda: GoergModel([]), "Goerg: exactly one training point", ValueError)
    refuses(ctx, lambda: GoergModel([ReachPoint([10, 10], [5], [1.0, 1.0])]), "Goerg: one publisher only", ValueError)
    m = GoergModel([p])
    for v in ([], [1, 2]):
        refuses(ctx, lambda: m.by_impressions(v), "Goerg: queries have one entry", ValueError)
        refuses(ctx, lambda: m.by_spend(v), "Goerg: queries have one entry", ValueError)


ASSUMPTIONS = []
OUTSIDE = "more than 3 frequencies with an arbitrary training point together with an arbitrary pair of queries (30 with a fixed training point or a single query)"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("curve-3", curve, {"F": 3, "given": 2}, "arbitrary training point and queries, 3 frequencies"),
        Scenario("curve-1", curve, {"F": 1}, "arbitrary training point and queries, 1 frequency"),
        Scenario("curve-int", curve, {"F": 2, "int": True}, "integral training point"),
        Scenario("curve-nospend", curve, {"F": 2, "spend": False}, "training point without spend"),
        Scenario("curve-10", curve, {"F": 10, "point": (20000, 10000, 200.0), "mono": True}, "fixed training point, 10 frequencies"),
        Scenario("curve-30", curve, {"F": 30, "point": (300, 100, 30.0), "mono": False}, "fixed training point, 30 frequencies"),
        Scenario("exact-4", exact, {"F": 4}, "arbitrary training point, 4 frequencies"),
        Scenario("exact-12", exact, {"F": 12, "point": (1000, 300, 5.0)}, "fixed training point, 12 frequencies"),
        Scenario("exact-40", exact, {"F": 40, "point": (1000, 300, 5.0)}, "fixed training point, 40 frequencies"),
        Scenario("history", history, {}, "two queries"),
        Scenario("refusals", refusals, {}, "arbitrary infeasible training points"),
    ]
    if T:
        out.append(Scenario("curve-5", curve, {"F": 5}, "arbitrary training point and queries, 5 frequencies"))
        out.append(Scenario("exact-8", exact, {"F": 8}, "arbitrary training point, 8 frequencies"))
    return out
