"""C11: the Gamma-Poisson curve is binomial thinning of its inventory distribution; its fit keeps the best optimum."""
from fractions import Fraction
from types import SimpleNamespace

import numpy as np
import scipy.optimize
import scipy.stats

from symex.api import *
from symex.scipyshim import stand_ins
from checks.curves import increasing, refuses, well_formed
from wfa_planning_evaluation_framework.models import gamma_poisson_model as G
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


def weights(alpha, beta, M):
    """Inventory distribution: 1 + negative binomial."""
    return [0.0] + [float(scipy.stats.nbinom.pmf(n - 1, alpha, 1.0 / (1.0 + beta))) for n in range(1, M + 1)]


def comb(n, k):
    out = 1
    for i in range(k):
        out = out * (n - i) // (i + 1)
    return out


def thin(w, p, k, M):
    return ssum([w[n] * comb(n, k) * p ** k * (1 - p) ** (n - k) for n in range(max(k, 1), M + 1)])


class Minimize(object):
    """Stands for the optimizer: returns what the harness decides, records what it is asked to minimise."""

    def __init__(self, decide):
        self.decide, self.calls = decide, []

    def __call__(self, fun, x0, *a, **kw):
        i = len(self.calls)
        res = self.decide(i, fun, x0, kw)
        self.calls.append((x0, kw, res))
        return res


def fitted(ctx, point, alpha, beta, N, M, max_reach=None, mult=1.0):
    def decide(i, fun, x0, kw):
        if len(x0) == 3:
            return SimpleNamespace(x=array([alpha, beta, N]), fun=0.0)
        return SimpleNamespace(x=array([alpha, beta]), fun=0.0)

    m = GammaPoissonModel([point], max_reach=max_reach, extrapolation_multiplier=mult)
    with patched((scipy.optimize, "minimize", Minimize(decide))):
        m._fit()
    return m


def curve(ctx, cfg):
    M, F = cfg["M"], cfg["F"]
    alpha, beta = cfg["ab"]
    with patched((G, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)), stand_ins(ctx):
        N = cfg["N"] if cfg.get("N") else ctx.real("N", 100, 10 ** 9)
        I0, s0 = 150, 30.0
        point = ReachPoint([I0], [100, 40, 8], [s0] if cfg.get("spend", True) else None)
        fixed = cfg.get("fixed")
        m = fitted(ctx, point, alpha, beta, N, M, max_reach=N if fixed else None)
        cpi = s0 / I0 if cfg.get("spend", True) else None
        ctx.check_eq(m.max_reach, N, "Gamma-Poisson: maximum reach is the audience fitted or given")
        Imax = N * (1 + Fraction(alpha) * Fraction(beta)) if ctx.sym else N * (1 + alpha * beta)
        x = ctx.real("x", 0, 10 ** 12)
        inside = x <= Imax - 1
        p = m.by_impressions([x], F)
        well_formed(ctx, m, p, x, F, "Gamma-Poisson", N, cpi)
        w = weights(alpha, beta, M)
        if cfg.get("formula"):
            eff = smin(x, Imax - 1)
            for k in range(1, F + 1):
                want = N * ssum([thin(w, eff / Imax, j, M) for j in range(k, M + 1)])
                ctx.check_eq(p.reach(k), want, "Gamma-Poisson: k+ reach is binomial thinning of the inventory distribution")
        if cfg.get("mono"):
            y = ctx.real("y", 0, 10 ** 12)
            increasing(ctx, p, m.by_impressions([x + y], F), F, "Gamma-Poisson")
        ctx.check_eq(m.by_impressions([0], F).reach(), 0, "Gamma-Poisson: no impressions reach no one")
        if cfg.get("byspend"):
            sp = x * cpi
            b = m.by_spend([sp], F)
            for k in range(1, F + 1):
                ctx.check_eq(b.reach(k), p.reach(k), "Gamma-Poisson: spending the price of the impressions reaches the same people")
            ctx.check_eq(b.spends[0], sp, "Gamma-Poisson: spend reported")
            ctx.check_eq(m.impressions_for_spend(sp), x, "Gamma-Poisson: impressions for a spend")
        if cfg.get("spend") is False:
            refuses(ctx, lambda: m.by_spend([1.0]), "Gamma-Poisson: a spend query is refused when the price is not known", ValueError)


def selection(ctx, cfg):
    """Of the optima found from the different starting points the best is kept."""
    M = 4
    found = []

    def decide(i, fun, x0, kw):
        if len(x0) == 3:
            j = len(found)
            f = ctx.real("fun%d" % j, 0, 1000)
            x = (1.0 + j, 0.5 + 0.25 * j, 100.0 + 7 * j)
            found.append((f, x))
            return SimpleNamespace(x=x, fun=f)
        return SimpleNamespace(x=(1.0, 1.0), fun=0.0)

    with patched((G, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)), stand_ins(ctx):
        m = GammaPoissonModel([ReachPoint([150], [100, 40, 8], [30.0])])
        if hasattr(m, "_find_starting_point_for_fixed_N"):
            m._find_starting_point_for_fixed_N = lambda *a, **kw: (0.5, 0.5)
        with patched((scipy.optimize, "minimize", Minimize(decide))):
            m._fit()
        ctx.check(len(found) >= 1, "Gamma-Poisson: at least one optimisation is run")
        best = smin(*[f for f, _ in found]) if len(found) > 1 else found[0][0]
        for f, x in found:
            pass
        ctx.check(lor(*[land(f == best, m.max_reach == x[2]) for f, x in found]), "Gamma-Poisson: the best optimum found is kept")
        # the other parameters belong to the same optimum
        for f, (a, b, n) in found:
            if n == m.max_reach:
                Imax = n * (1 + a * b)
                p = 60.0 / Imax
                w = weights(a, b, M)
                ctx.check_eq(m.by_impressions([60]).reach(), n * sum([thin(w, p, j, M) for j in range(1, M + 1)]), "Gamma-Poisson: the curve uses the parameters of the optimum kept")


def objective(ctx, cfg):
    """What is minimised is the chi-squared distance of the histograms."""
    M = cfg["M"]
    nfreq = cfg["n"]
    kp = []
    prev = 10 ** 4
    for j in range(nfreq):
        v = ctx.real("kplus%d" % j, 0, 10 ** 4)
        ctx.assume(v <= prev)
        prev = v
        kp.append(v)
    I0 = cfg["I0"]
    ctx.assume(kp[0] <= I0)
    ctx.assume(kp[0] >= 1)
    mult = cfg.get("mult", 1.0)
    h = [kp[j] - kp[j + 1] for j in range(nfreq - 1)] + [kp[-1]]
    seen = []

    def spec(alpha, beta, N):
        Imax = N * (1 + alpha * beta)
        if Imax <= I0:
            return ssum([v * v for v in h])
        p = I0 / Imax
        w = weights(alpha, beta, M)
        hb = [N * thin(w, p, k, M) for k in range(1, nfreq)]
        hb.append(N * (1 - sum([thin(w, p, k, M) for k in range(0, nfreq)])))
        out = ssum([(a - b) * (a - b) / (a + 1e-6) for a, b in zip(hb, h)])
        d = ssum(h) - sum(hb)
        out = out + d * d
        if Imax < mult * I0:
            out = out + (mult * I0 - Imax) ** 2
        return out

    def decide(i, fun, x0, kw):
        if len(x0) == 3:
            for al, be, N in cfg["at"]:
                seen.append((fun((al, be, N)), spec(al, be, N)))
            return SimpleNamespace(x=(1.0, 1.0, 100.0), fun=0.0)
        return SimpleNamespace(x=(1.0, 1.0), fun=0.0)

    with patched((G, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)), stand_ins(ctx):
        m = GammaPoissonModel([ReachPoint([I0], kp, [30.0])], extrapolation_multiplier=mult)
        if hasattr(m, "_find_starting_point_for_fixed_N"):
            m._find_starting_point_for_fixed_N = lambda *a, **kw: (0.5, 0.5)
        with patched((scipy.optimize, "minimize", Minimize(decide))):
            m._fit()
    ctx.check(len(seen) > 0, "Gamma-Poisson: an optimisation over shape, scale and audience is run")
    for got, want in seen:
        ctx.check_eq(got, want, "Gamma-Poisson: the fit minimises the chi-squared distance plus the 1+ reach term and the extrapolation penalty")


def refusals(ctx, cfg):
    I = ctx.real("I", 1, 10 ** 6)
    r = ctx.real("r", 0, 10 ** 7)
    ctx.assume(I < r)
    refuses(ctx, lambda: GammaPoissonModel([ReachPoint([I], [r], [1.0])]), "Gamma-Poisson: fewer impressions than people reached are refused", ValueError)
    t = ctx.real("tiny", 0, 0.0009)
    refuses(ctx, lambda: GammaPoissonModel([ReachPoint([t], [0], [1.0])]), "Gamma-Poisson: a training point without impressions is refused", ValueError)
    p = ReachPoint([10], [5], [1.0])
    refuses(ctx, lambda: GammaPoissonModel([p, p]), "Gamma-Poisson: exactly one training point", ValueError)
    m = fitted(ctx, ReachPoint([150], [100, 40, 8], [30.0]), 1.0, 1.0, 120.0, 1000)
    for v in ([], [1, 2]):
        refuses(ctx, lambda: m.by_impressions(v), "Gamma-Poisson: queries have one entry", ValueError)
        refuses(ctx, lambda: m.by_spend(v), "Gamma-Poisson: queries have one entry", ValueError)


ASSUMPTIONS = [
    "the optimizer (scipy.optimize.minimize) is a stand-in returning arbitrary scores; how good its optima are is not decided",
    "binomial and negative binomial probabilities are their exact formulas; the inventory is cut at the stated number of impressions per user instead of 1000",
]
OUTSIDE = "inventories of more than 8 impressions per user; shape and scale other than the listed ones"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for i, ab in enumerate([(1.0, 2.0), (0.5, 3.0), (4.0, 0.5)]):
        out.append(Scenario("curve-%d" % i, curve, {"M": 4, "F": 3, "ab": ab, "N": 1000.0, "mono": True, "byspend": True, "fixed": i == 1}, "alpha, beta = %s, N = 1000, inventory 4, arbitrary pair of queries" % (ab,)))
        out.append(Scenario("formula-%d" % i, curve, {"M": 6, "F": 6, "ab": ab, "N": 1000.0, "formula": True, "spend": None if i else True}, "inventory 6, 6 frequencies, arbitrary query"))
    out.append(Scenario("audience", curve, {"M": 3, "F": 2, "ab": (1.0, 2.0), "formula": True, "byspend": True}, "arbitrary audience and query, inventory 3"))
    out.append(Scenario("nospend", curve, {"M": 3, "F": 1, "ab": (1.0, 2.0), "N": 500.0, "spend": False}, "training point without spend"))
    out.append(Scenario("selection", selection, {}, "arbitrary scores from up to 10 starting points"))
    at = [(1.0, 2.0, 60.0), (0.5, 0.5, 80.0), (1.0, 1.0, 10.0), (2.0, 0.25, 90.0)]
    out.append(Scenario("objective", objective, {"M": 5, "n": 3, "I0": 100, "at": at}, "arbitrary 3-frequency histogram at 4 parameter settings"))
    out.append(Scenario("objective-x", objective, {"M": 5, "n": 4, "I0": 100, "mult": 2.0, "at": at}, "arbitrary 4-frequency histogram, extrapolation penalty"))
    out.append(Scenario("refusals", refusals, {}, "arbitrary infeasible training points"))
    if T:
        for i, ab in enumerate([(1.0, 2.0), (0.5, 3.0)]):
            out.append(Scenario("curve8-%d" % i, curve, {"M": 8, "F": 8, "ab": ab, "N": 1000.0, "mono": True, "formula": True}, "inventory 8"))
        out.append(Scenario("objective-12", objective, {"M": 14, "n": 12, "I0": 100, "at": at}, "12 frequencies"))
    return out
