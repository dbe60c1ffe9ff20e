"""C10: the impressions (spend) at a quantile of maximum reach invert the curve."""
from symex.api import *
from checks.curves import refuses
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

BIG = 10 ** 9


class Table(ReachCurve):
    """A curve given by a table of reaches (its last value holds beyond it)."""

    def __init__(self, imps, spends, top):
        ReachCurve.__init__(self, [ReachPoint([1], [1])], top)
        self.t = {"i": imps, "s": spends}

    def _at(self, kind, x):
        t = self.t[kind]
        return t[min(int(x), len(t) - 1)]

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [self._at("i", impressions[0])])

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([0], [self._at("s", spends[0])], spends)


def brackets(ctx, reach, x, target, label):
    ctx.check(isinstance(x, int) and x >= 0, label + ": a non-negative whole number")
    ctx.check_le(reach(x), target, label + ": what it returns does not exceed the quantile")
    ctx.check(reach(x + 1) > target, label + ": one more unit exceeds the quantile")


def table(ctx, cfg):
    L = cfg["L"]
    tabs = {}
    top = ctx.real("top", 0, BIG, lo_strict=True)
    q = ctx.real("q", 0, 1, lo_strict=True, hi_strict=True)
    for kind in ("i", "s"):
        t = [0] + [ctx.real("%s%d" % (kind, j), 0, BIG) for j in range(1, L + 1)] if kind in cfg["kinds"] else [0, 1]
        for a, b in zip(t, t[1:]):
            ctx.assume(a <= b)
        ctx.assume(t[-1] <= top)
        tabs[kind] = t
    m = Table(tabs["i"], tabs["s"], top)
    for kind, name, ask in (("i", "impressions", m.impressions_at_reach_quantile), ("s", "spend", m.spend_at_reach_quantile)):
        if kind not in cfg["kinds"]:
            continue
        label = name + " at a reach quantile"
        try:
            x = ask(q)
        except OverflowError:
            ctx.check(tabs[kind][-1] <= q * top, label + ": refused only if the curve never gets there")
            continue
        brackets(ctx, lambda v: m._at(kind, v), x, q * top, label)


def goerg(ctx, cfg):
    I, r = cfg["point"]
    s = cfg.get("spend", 0.5 * I)
    m = GoergModel([ReachPoint([I], [r], [s])])
    q = ctx.real("q", cfg["q"][0], cfg["q"][1])
    x = m.impressions_at_reach_quantile(q)
    brackets(ctx, lambda v: m.by_impressions([v]).reach(), x, q * m.max_reach, "impressions at a reach quantile")
    y = m.spend_at_reach_quantile(q)
    brackets(ctx, lambda v: m.by_spend([v]).reach(), y, q * m.max_reach, "spend at a reach quantile")
    q2 = ctx.real("q2", cfg["q"][0], cfg["q"][1])
    ctx.assume(q <= q2)
    ctx.check_le(x, m.impressions_at_reach_quantile(q2), "a higher quantile never needs fewer impressions")


def truth(ctx, cfg):
    ids = cfg["ids"]
    ds = DataSet([PublisherData([(u, 0.75 * (i + 1)) for i, u in enumerate(ids)], "p")], "d")
    m = GroundTruthReachCurveModel(ds, 0)
    q = ctx.real("q", 0, 1, lo_strict=True, hi_strict=True)
    x = m.impressions_at_reach_quantile(q)
    n = len(set(ids))
    ctx.check_eq(m.max_reach, n, "maximum reach of a publisher's ground truth curve")
    brackets(ctx, lambda v: len(set(ids[:v])), x, q * n, "impressions at a quantile of the true reach")
    y = m.spend_at_reach_quantile(q)
    brackets(ctx, lambda v: len(set([u for i, u in enumerate(ids) if 0.75 * (i + 1) <= v])), y, q * n, "spend at a quantile of the true reach")


class Step(ReachCurve):
    """A curve that jumps at some number of units."""

    def __init__(self, at, top):
        ReachCurve.__init__(self, [ReachPoint([1], [1])], top)
        self.at = at

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [self._max_reach if impressions[0] >= self.at else 0])

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([0], [self._max_reach if spends[0] >= self.at else 0], spends)


def step(ctx, cfg):
    """A jump anywhere, also where floating point numbers are no longer whole numbers."""
    base = ctx.choose("base", cfg["bases"])
    at = base + ctx.int("at", 0, 3)
    q = ctx.real("q", 0, 1, lo_strict=True, hi_strict=True)
    m = Step(at, 1000)
    for name, ask in (("impressions", m.impressions_at_reach_quantile), ("spend", m.spend_at_reach_quantile)):
        x = ask(q)
        ctx.check(isinstance(x, int), name + " at a reach quantile: a non-negative whole number")
        ctx.check_eq(x, at - 1, name + " at a reach quantile: the last one before the jump")


def domain(ctx, cfg):
    m = GoergModel([ReachPoint([100], [50], [10.0])])
    q = ctx.real("q", -5, 5)
    ctx.assume(lor(q <= 0, q >= 1))
    refuses(ctx, lambda: m.impressions_at_reach_quantile(q), "a quantile outside (0, 1) is refused", ValueError)
    refuses(ctx, lambda: m.spend_at_reach_quantile(q), "a quantile outside (0, 1) is refused", ValueError)


ASSUMPTIONS = ["the curve does not decrease (C09, C11, C12, C14 decide that for the fitted curves)"]
OUTSIDE = "arbitrary curves longer than 12 units; answers above 2**59 (arbitrary curves: above 2**40)"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("table-i-5", table, {"L": 5, "kinds": "i"}, "arbitrary non-decreasing curve over 5 impressions"),
        Scenario("table-s-5", table, {"L": 5, "kinds": "s"}, "arbitrary non-decreasing curve over 5 units of spend"),
        Scenario("table-i-12", table, {"L": 12, "kinds": "i"}, "arbitrary non-decreasing curve over 12 impressions"),
        Scenario("goerg-small", goerg, {"point": (12, 5), "q": (0.05, 0.6)}, "small Goerg curve, quantiles 0.05 to 0.6"),
        Scenario("goerg-million", goerg, {"point": (2000000, 700000), "q": (0.5, 0.500001)}, "large Goerg curve"),
        Scenario("goerg-steep", goerg, {"point": (100000, 99999), "spend": 1000.0, "q": (0.9, 0.900000000001)}, "Goerg curve with answers near 2**36"),
        Scenario("truth", truth, {"ids": [1, 2, 1, 3, 3, 4, 5, 1, 6]}, "ground truth curve of 9 events"),
        Scenario("truth-40", truth, {"ids": [(i * i) % 31 for i in range(40)]}, "ground truth curve of 40 events"),
        Scenario("step", step, {"bases": [1, 6, 30, 1022] + [2 ** k + d for k in (20, 31, 32, 33, 45, 53, 54, 59) for d in (-5, -1, 3) if k < 59 or d == -5]}, "a jump at one of 4 places from each of 26 on, up to 2**59"),
        Scenario("domain", domain, {}, "quantiles outside (0, 1)"),
    ]
    if T:
        out.append(Scenario("table-is-9", table, {"L": 9, "kinds": "is"}, "both tables arbitrary"))
        out.append(Scenario("table-i-30", table, {"L": 30, "kinds": "i"}, "arbitrary curve over 30 impressions"))
        out.append(Scenario("goerg-wide", goerg, {"point": (40, 13), "q": (0.01, 0.9)}, "Goerg curve, quantiles 0.01 to 0.9"))
    return out
