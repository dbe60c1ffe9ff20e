"""C14: the Dirac mixture curve is a mixture of Poisson curves, scaled with impressions."""
import numpy as np
import scipy.stats

from symex.api import *
from symex.scipyshim import stand_ins
from checks.curves import increasing, refuses, well_formed
from wfa_planning_evaluation_framework.models import dirac_mixture_single_publisher_model as D
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import DiracMixtureSinglePublisherModel, UnivariateMixedPoissonOptimizer
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


def sf(k, m):
    return scipy.stats.poisson.sf(k, m)


def vec(ctx, xs):
    return np.array(xs, dtype=object) if ctx.sym else np.array([float(x) for x in xs])


def simplex(ctx, cfg, n):
    """Arbitrary weights: non-negative, summing to one."""
    if cfg.get("ws"):
        return (list(cfg["ws"]) + [0.0] * n)[:n]
    ws = [ctx.real("w%d" % i, 0, 1) for i in range(n - 1)]
    last = 1 - ssum(ws)
    ctx.assume(last >= 0)
    return ws + [last]


def curve(ctx, cfg):
    F = cfg["F"]
    seen = {}

    def solve(observed_arr, component_arrs, distance):
        seen["observed"], seen["pmfs"] = observed_arr, component_arrs
        seen["w"] = simplex(ctx, cfg, len(component_arrs))
        return vec(ctx, seen["w"])

    I0, s0 = cfg.get("I0", 100), 20.0
    kp = cfg["kp"]
    U = cfg["U"] if cfg.get("U") else ctx.choose("U", [max(kp), 10 ** 6 + 1, 3 * 10 ** 9, 10 ** 11])
    with patched((UnivariateMixedPoissonOptimizer, "solve_optimal_weights", staticmethod(solve))), stand_ins(ctx):
        if cfg.get("U"):
            pt = ReachPoint([I0], kp, [s0] if cfg.get("spend", True) else None, universe_size=U)
            m = DiracMixtureSinglePublisherModel([pt], ncomponents=cfg["n"])
            m._fit()
        else:
            # the histogram decides the components: fix it, then scale the audience
            pt = ReachPoint([I0], kp, [s0] if cfg.get("spend", True) else None, universe_size=2 * kp[0])
            m = DiracMixtureSinglePublisherModel([pt], ncomponents=cfg["n"])
            m._fit()
            pt._universe_size = U
        comps = [float(c) for c in m.optimizer.components]
        ctx.check(len(comps) == len(seen["w"]), "Dirac mixture: one weight per component")
        h = np.array(pt.zero_included_histogram if cfg.get("U") else [kp[0]] + pt.frequencies_with_kplus_bucket)
        tot = h.sum()
        for f in range(len(h)):
            ctx.check_eq(seen["observed"][f], h[f] / tot, "Dirac mixture: the weights are fitted to the observed frequencies including the unreached")
        for c, v in zip(comps, seen["pmfs"]):
            ctx.check(len(v) == len(h), "Dirac mixture: component probabilities per observed frequency")
            for f in range(len(h)):
                want = float(scipy.stats.poisson.pmf(f, c)) if f < len(h) - 1 else float(scipy.stats.poisson.sf(f - 1, c))
                ctx.check_eq(v[f], want, "Dirac mixture: component probabilities are Poisson, the last one cumulative")
        x = ctx.real("x", 0, 10 ** 9)
        p = m.by_impressions([x], F)
        cpi = s0 / I0 if cfg.get("spend", True) else None
        if cfg.get("wf", True):
            well_formed(ctx, m, p, x, F, "Dirac mixture", U, cpi)
        for k in range(1, F + 1):
            want = U * ssum([w * sf(k - 1, c * (x / I0)) for w, c in zip(seen["w"], comps)])
            ctx.check(land(p.reach(k) - want <= 0.5001, want - p.reach(k) <= 0.5001), "Dirac mixture: k+ reach is the audience times the mixture of Poisson tails at scaled rates")
        if cfg.get("mono"):
            y = ctx.real("y", 0, 10 ** 9)
            increasing(ctx, p, m.by_impressions([x + y], F), F, "Dirac mixture")
        ctx.check_eq(m.by_impressions([0], F).reach(), 0, "Dirac mixture: no impressions reach no one")
        if cpi is not None:
            b = m.by_spend([x * cpi], F)
            for k in range(1, F + 1):
                ctx.check_eq(b.reach(k), p.reach(k), "Dirac mixture: spending the price of the impressions reaches the same people")
            ctx.check_eq(m.impressions_for_spend(x * cpi), x, "Dirac mixture: impressions for a spend")
        else:
            ctx.check(p.spends is None, "Dirac mixture: no spend is reported when the price is not known")
            refuses(ctx, lambda: m.by_spend([1.0]), "Dirac mixture: a spend query is refused when the price is not known", ValueError)


def truncated(ctx, cfg):
    mean = ctx.real("mean", 0, 10 ** 6)
    F = cfg["F"]
    with stand_ins(ctx):
        v = UnivariateMixedPoissonOptimizer.truncated_poisson_pmf_vec(mean, F)
        ctx.check(len(v) == F + 1, "truncated Poisson: one probability per frequency from 0")
        for f in range(F):
            ctx.check_eq(v[f], scipy.stats.poisson.pmf(f, mean), "truncated Poisson: probabilities below the cap")
            ctx.check_le(0, v[f], "truncated Poisson: probabilities are not negative")
        ctx.check_eq(v[F], sf(F - 1, mean), "truncated Poisson: everything above is put on the cap")
        ctx.check_eq(ssum(list(v)), 1, "truncated Poisson: probabilities sum to one")


def grid(ctx, cfg):
    """Components are spread over the frequencies in proportion to their probability."""
    L, n = cfg["L"], cfg["n"]
    pm = [ctx.real("p%d" % i, 0, 1) for i in range(L - 1)]
    last = 1 - ssum(pm)
    ctx.assume(last >= 0)
    pm = pm + [last]
    how = cfg["how"]
    O = UnivariateMixedPoissonOptimizer
    with stand_ins(ctx):
        c = {"pure": O.in_bound_purely_weighted_grid, "uniform": O.in_bound_uniform_grid, "half": lambda n, p: O.in_bound_grid(n, p, 0.5)}[how](n, vec(ctx, pm))
    cs = [float(v) for v in c]
    d = {"pure": 0, "uniform": 1, "half": 0.5}[how]
    ctx.check(n <= len(cs) <= n + L, "component grid: as many components as asked for, up to rounding")
    ctx.check(all([a < b for a, b in zip(cs, cs[1:])]), "component grid: components are distinct and ordered")
    ctx.check(all([0 <= v < L + 1 for v in cs]), "component grid: components lie within the observed frequencies")
    left = n
    for f in range(L):
        here = [v for v in cs if f <= v < f + 1]
        share = n * ((1 - d) * pm[f] + d / L)
        if left > 0:
            ctx.check(land(len(here) - share <= 0.5001, share - len(here) <= 0.5001), "component grid: each frequency gets its share of the components")
            for i, v in enumerate(here):
                ctx.check_eq(v, f + i / len(here), "component grid: components are equally spaced within a frequency")
        left -= len(here)


def retries(ctx, cfg):
    """When the weights cannot be solved for, fewer components are tried."""
    fails = ctx.int("fails", 0, cfg["most"])
    tries = []

    def solve(observed_arr, component_arrs, distance):
        tries.append(len(component_arrs))
        if len(tries) <= fails:
            raise RuntimeError("solver")
        return vec(ctx, [1.0] + [0.0] * (len(component_arrs) - 1))

    with patched((UnivariateMixedPoissonOptimizer, "solve_optimal_weights", staticmethod(solve))), stand_ins(ctx):
        m = DiracMixtureSinglePublisherModel([ReachPoint([100], [60, 20], [20.0], universe_size=200)], ncomponents=cfg["n"])
        m._fit()
        ctx.check(len(tries) == fails + 1, "Dirac mixture: fitting is retried until it succeeds")
        ctx.check(all([b < a for a, b in zip(tries, tries[1:])]), "Dirac mixture: each retry uses fewer components")
        n = len(tries)
        p = m.by_impressions([100])
        m._fit()
        ctx.check(len(tries) == n, "Dirac mixture: a fitted model is not fitted again")
        c0 = float(m.optimizer.components[0])
        ctx.check_eq(p.reach(), round(200 * float(scipy.stats.poisson.sf(0, c0))), "Dirac mixture: the fit that succeeded is used")


def histograms(ctx, cfg):
    """Histograms that are not histograms are refused."""
    n = cfg["n"]
    h = [ctx.int("h%d" % i, -3, 10) for i in range(n)]
    bad = lor(n < 2, *[v < 0 for v in h]) if n else True
    bad = lor(bad, ssum(h) <= 0) if n else True
    try:
        UnivariateMixedPoissonOptimizer.validate_frequency_histogram(vec(ctx, h))
        ok = True
    except ValueError:
        ok = False
    ctx.check(iff(bad, not ok), "Dirac mixture: exactly the histograms with a negative entry, no observation or no frequency one are refused")


def quantile(ctx, cfg):
    def solve(observed_arr, component_arrs, distance):
        return np.array([0.5, 0.5] + [0.0] * (len(component_arrs) - 2))

    with patched((UnivariateMixedPoissonOptimizer, "solve_optimal_weights", staticmethod(solve))):
        m = DiracMixtureSinglePublisherModel([ReachPoint([100], [60, 20], [20.0], universe_size=200)], ncomponents=8)
        m._fit()
        q = ctx.choose("q", [0.1, 0.3])
        try:
            x = m.impressions_at_reach_quantile(q)
        except AttributeError as e:
            ctx.fail("Dirac mixture: has a maximum reach to take quantiles of")
            return
        ctx.check_le(m.by_impressions([x]).reach(), q * m.max_reach, "Dirac mixture: impressions at a quantile")


def refusals(ctx, cfg):
    I = ctx.real("I", 1, 10 ** 6)
    r = ctx.real("r", 0, 10 ** 7)
    ctx.assume(I < r)
    refuses(ctx, lambda: DiracMixtureSinglePublisherModel([ReachPoint([I], [r], [1.0], universe_size=10 ** 8)]), "Dirac mixture: fewer impressions than people reached are refused", ValueError)
    t = ctx.real("tiny", 0, 0.0009)
    refuses(ctx, lambda: DiracMixtureSinglePublisherModel([ReachPoint([t], [0], [1.0], universe_size=10)]), "Dirac mixture: a training point without impressions is refused", ValueError)
    p = ReachPoint([10], [5], [1.0], universe_size=10)
    refuses(ctx, lambda: DiracMixtureSinglePublisherModel([p, p]), "Dirac mixture: exactly one training point", ValueError)
    refuses(ctx, lambda: DiracMixtureSinglePublisherModel([]), "Dirac mixture: exactly one training point", ValueError)
    refuses(ctx, lambda: DiracMixtureSinglePublisherModel([ReachPoint([10], [5], [1.0])]), "Dirac mixture: a training point without a universe is refused", ValueError)
    m = DiracMixtureSinglePublisherModel([p])
    for v in ([], [1, 2]):
        refuses(ctx, lambda: m.by_impressions(v), "Dirac mixture: queries have one entry", ValueError)
        refuses(ctx, lambda: m.by_spend(v), "Dirac mixture: queries have one entry", ValueError)


ASSUMPTIONS = [
    "the convex solver for the weights (cvxpy) is a stand-in returning arbitrary non-negative weights that sum to one",
    "Poisson tails are function symbols with the facts used: between 0 and 1, zero exactly at rate zero, strictly increasing in the rate, decreasing in k",
]
OUTSIDE = "more than 4 components with arbitrary weights (24 with fixed ones); more than 3 arbitrary histogram probabilities"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("curve-w", curve, {"kp": [60, 20], "U": 200, "n": 3, "F": 3, "wf": False}, "3 components, arbitrary weights and query"),
        Scenario("curve-mono", curve, {"kp": [60, 20], "U": 200, "n": 4, "F": 3, "ws": [0.25, 0.25, 0.25, 0.25], "mono": True}, "4 components, arbitrary pair of queries"),
        Scenario("curve-audience", curve, {"kp": [60, 20, 5], "n": 4, "F": 2, "ws": [0.5, 0.25, 0.125, 0.125]}, "audiences from 60 to 1e11"),
        Scenario("curve-F12", curve, {"kp": [60, 20, 10, 5, 2], "U": 120, "n": 6, "F": 12, "ws": [0.5, 0.25, 0.125, 0.0625, 0.0625], "spend": False}, "12 frequencies, no spend"),
        Scenario("curve-24", curve, {"kp": [60, 30, 3], "U": 90, "n": 24, "F": 2, "ws": [0.0625] * 16, "mono": True, "I0": 1000}, "24 components"),
        Scenario("truncated-3", truncated, {"F": 3}, "arbitrary rate, cap 3"),
        Scenario("truncated-12", truncated, {"F": 12}, "arbitrary rate, cap 12"),
        Scenario("truncated-1", truncated, {"F": 1}, "arbitrary rate, cap 1"),
        Scenario("grid-pure", grid, {"L": 3, "n": 6, "how": "pure"}, "arbitrary 3-value distribution, 6 components"),
        Scenario("grid-uniform", grid, {"L": 3, "n": 7, "how": "uniform"}, "arbitrary 3-value distribution, 7 components, fully diluted"),
        Scenario("grid-half", grid, {"L": 3, "n": 6, "how": "half"}, "arbitrary 3-value distribution, 6 components, half diluted"),
        Scenario("retries", retries, {"n": 16, "most": 3}, "up to 3 failures"),
        Scenario("quantile", quantile, {}, "2 quantiles"),
        Scenario("refusals", refusals, {}, "arbitrary infeasible training points"),
    ]
    for n in (0, 1, 2, 4):
        out.append(Scenario("histogram-%d" % n, histograms, {"n": n}, "%d arbitrary entries in -3..10" % n))
    if T:
        out.append(Scenario("grid-4", grid, {"L": 4, "n": 10, "how": "pure"}, "arbitrary 4-value distribution, 10 components"))
        out.append(Scenario("curve-w4", curve, {"kp": [60, 20], "U": 200, "n": 4, "F": 3, "mono": True}, "4 components, arbitrary weights and pair of queries"))
    return out
