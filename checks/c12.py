"""C12: the k-inflated Gamma-Poisson distribution and curve."""
from fractions import Fraction
from types import SimpleNamespace

import numpy as np
import scipy.optimize
import scipy.stats

from symex.api import *
from symex.scipyshim import stand_ins
from checks.c11 import Minimize, comb
from checks.curves import increasing, refuses, well_formed
from wfa_planning_evaluation_framework.models import kinflated_gamma_poisson_model as K
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonDistribution, KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint


def gp(n, alpha, beta):
    return float(scipy.stats.nbinom.pmf(n - 1, alpha, 1.0 / (1.0 + beta)))


def spec_pmf(alpha, beta, a, M):
    """pmf[0..M-1]; all mass beyond the last value is put on it."""
    s = ssum(a) if len(a) else 0
    t = sum([gp(i, alpha, beta) for i in range(1, len(a) + 1)])
    out = [0] + list(a)
    for n in range(len(a) + 1, M):
        out.append((1 - s) / (1 - t) * gp(n, alpha, beta))
    out[-1] = 1 - ssum(out[:-1])
    return out


def spec_thin(pmf, p, k):
    return ssum([pmf[n] * comb(n, k) * p ** k * (1 - p) ** (n - k) for n in range(max(k, 1), len(pmf))])


def vec(ctx, cfg):
    k = cfg["k"]
    a = []
    for i in range(k):
        if i in cfg.get("sym", range(k)):
            a.append(ctx.real("a%d" % (i + 1), 0, 2))
        else:
            a.append(Fraction(1, 4 * k) if ctx.sym else 1.0 / (4 * k))
    return a


def distribution(ctx, cfg):
    M, (alpha, beta) = cfg["M"], cfg["ab"]
    a = vec(ctx, cfg)
    total = ssum(a) if a else 0
    if cfg.get("over"):
        ctx.assume(total > 1)
        want = [v / total for v in a]
    else:
        if a:
            ctx.assume(total <= 1)
        want = a
    with patched((K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)), stand_ins(ctx):
        given = list(a)
        d = KInflatedGammaPoissonDistribution(alpha, beta, given)
        pm = [d.pmf(n) for n in range(M)]
        ctx.check_eq(pm[0], 0, "inflated distribution: no mass at zero")
        for i, v in enumerate(want):
            ctx.check_eq(pm[i + 1], v, "inflated distribution: the first k values are the ones given (scaled to sum to one if they exceed it)")
        sp = spec_pmf(alpha, beta, want, M)
        for n in range(len(a) + 1, M):
            ctx.check_eq(pm[n], sp[n], "inflated distribution: the tail is the Gamma-Poisson tail, scaled")
        for n in range(M):
            ctx.check_le(0, pm[n], "inflated distribution: probabilities are not negative")
        ctx.check_eq(ssum(pm), 1, "inflated distribution: probabilities sum to one")
        ctx.check_eq(d.expected_value(), ssum([n * sp[n] for n in range(M)]), "inflated distribution: expected value")
        if cfg.get("thin"):
            p = ctx.real("p", 0, 1) if cfg.get("p") is None else cfg["p"]
            F = cfg["F"]
            fr = d.kreach(np.arange(1, F + 1), p)
            ctx.check(len(fr) == F, "inflated distribution: one reach per frequency asked for")
            for k in range(1, F + 1):
                ctx.check_eq(fr[k - 1], spec_thin(sp, p, k), "inflated distribution: exactly-k reach is binomial thinning")
                ctx.check_eq(d.kplusreach(k, p), ssum([spec_thin(sp, p, j) for j in range(k, M)]), "inflated distribution: k+ reach adds up the exact ones")
            lo = d.kreach(np.arange(2, F + 1), p)
            for k in range(2, F + 1):
                ctx.check_eq(lo[k - 2], fr[k - 1], "inflated distribution: a reach does not depend on the range it is asked in")
            ctx.check_eq(d.kplusreach(0, p), 1, "inflated distribution: everybody is reached at least zero times")
            ctx.check(len(d.kreach(np.arange(1, 1), p)) == 0, "inflated distribution: no frequencies, no reaches")
        for i, v in enumerate(given):
            ctx.check(v is a[i] or v == a[i], "inflated distribution: the values given are not changed")


class AnyShape(object):
    """Stands for the negative binomial distribution of any shape: arbitrary probabilities at 0, 1, ..., M - 1."""

    def __init__(self, ctx, M, all_in=None):
        self.g = [ctx.real("g%d" % i, 0, 1) for i in range(M)]
        ctx.assume(ssum(self.g) <= 1)
        if all_in is not None:
            ctx.assume(ssum(self.g[:all_in]) == 1)
        self.used = 0

    def _of(self, k, f):
        self.used += 1
        if np.ndim(k) == 0:
            return f(int(k))
        return array([f(int(j)) for j in k])

    def pmf(self, k, *a, **kw):
        return self._of(k, lambda j: self.g[j] if 0 <= j < len(self.g) else 0.0)

    def cdf(self, k, *a, **kw):
        return self._of(k, lambda j: ssum(self.g[: max(0, j + 1)]) if j >= 0 else 0.0)

    def sf(self, k, *a, **kw):
        return self._of(k, lambda j: 1.0 - ssum(self.g[: j + 1]) if j >= 0 else 1.0)


def any_shape(ctx, cfg):
    """The inflated distribution for any Gamma-Poisson distribution at all."""
    M, a = cfg["M"], cfg["a"]
    s = sum(a)
    if ctx.sym:
        a = [Fraction(v) for v in a]
        s = sum(a)
    nb = AnyShape(ctx, M, len(a) if cfg.get("all_in") else None)
    with patched((K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M), (scipy.stats.nbinom, "pmf", nb.pmf), (scipy.stats.nbinom, "cdf", nb.cdf), (scipy.stats.nbinom, "sf", nb.sf)), stand_ins(ctx):
        d = KInflatedGammaPoissonDistribution(2.0, 3.0, [float(v) for v in a])
        pm = [d.pmf(n) for n in range(M)]
    if not nb.used:
        return
    t = ssum(nb.g[: len(a)]) if a else 0
    if not cfg.get("all_in"):
        ctx.assume(t <= 1 - 1e-9)
    for i, v in enumerate(a):
        ctx.check_eq(pm[i + 1], v, "inflated distribution: the first k values are the ones given (scaled to sum to one if they exceed it)")
    for n in range(len(a) + 1, M - 1):
        if cfg.get("all_in"):
            ctx.check_eq(pm[n], 0, "inflated distribution: no tail where the Gamma-Poisson distribution has none")
        else:
            ctx.check_eq(pm[n] * (1 - t), (1 - s) * nb.g[n - 1], "inflated distribution: the tail is the Gamma-Poisson tail, scaled")
    ctx.check_eq(ssum(pm), 1, "inflated distribution: probabilities sum to one")


class Best(object):
    """Stands for the optimizer: returns the parameters planned, records the objectives."""

    def __init__(self, plan, probe=None):
        self.plan, self.probe, self.calls = plan, probe, []

    def __call__(self, fun, x0, *a, **kw):
        k = len(x0) - 3
        self.calls.append((list(x0), k))
        if self.probe:
            self.probe(fun, x0, k)
        return SimpleNamespace(x=array(self.plan(len(self.calls) - 1, k)), fun=0.0)


def cdf(decide, seen):
    def f(score, df, *a, **kw):
        seen.append((score, df))
        return decide(len(seen) - 1)

    return f


def curve(ctx, cfg):
    """The fitted curve is thinning of the distribution the optimizer returned last."""
    M, F, (alpha, beta) = cfg["M"], cfg["F"], cfg["ab"]
    N = cfg["N"] if cfg.get("N") else ctx.real("N", 100, 10 ** 9)
    k = cfg["k"]
    a = vec(ctx, cfg)
    if a:
        ctx.assume(ssum(a) <= 1)
    I0, s0 = 150, 30.0
    pt = ReachPoint([I0], [100, 40, 8], [s0] if cfg.get("spend", True) else None)
    cpi = s0 / I0 if cfg.get("spend", True) else None

    def plan(i, kk):
        return [alpha, beta, N] + (a if kk == k else [0.1] * kk)

    with patched((K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)), stand_ins(ctx):
        m = KInflatedGammaPoissonModel([pt], kmax=k)
        with patched((scipy.optimize, "minimize", Best(plan)), (scipy.stats.chi2, "cdf", cdf(lambda i: 0.99, []))):
            x = ctx.real("x", 0, 10 ** 12)
            if cfg.get("query_first"):
                m.by_impressions([ctx.real("first", 0, 10 ** 12)], 2)
            else:
                m._fit()
        ctx.check_eq(m.max_reach, N, "k-inflated: maximum reach is the audience fitted")
        sp = spec_pmf(alpha, beta, a, M)
        Imax = N * ssum([n * sp[n] for n in range(M)])
        p = m.by_impressions([x], F)
        well_formed(ctx, m, p, x, F, "k-inflated", N, cpi)
        if cfg.get("formula"):
            q = smin(x / Imax, 1)
            for j in range(1, F + 1):
                ctx.check_eq(p.reach(j), N * ssum([spec_thin(sp, q, i) for i in range(j, M)]), "k-inflated: k+ reach is binomial thinning of the inventory")
        if cfg.get("mono"):
            y = ctx.real("y", 0, 10 ** 12)
            increasing(ctx, p, m.by_impressions([x + y], F), F, "k-inflated")
        ctx.check_eq(m.by_impressions([0], F).reach(), 0, "k-inflated: no impressions reach no one")
        if cpi is not None:
            b = m.by_spend([x * cpi], F)
            for j in range(1, F + 1):
                ctx.check_eq(b.reach(j), p.reach(j), "k-inflated: spending the price of the impressions reaches the same people")
            ctx.check_eq(m.impressions_for_spend(x * cpi), x, "k-inflated: impressions for a spend")
        else:
            ctx.check(p.spends is None, "k-inflated: no spend is reported when the price is not known")
            refuses(ctx, lambda: m.by_spend([1.0]), "k-inflated: a spend query is refused when the price is not known", ValueError)


def growth(ctx, cfg):
    """Inflation values are added one at a time, while the fit is bad, up to the limit; the last fit is kept."""
    M, kmax = 6, cfg["kmax"]
    seen = []
    stop = ctx.int("stop", 0, kmax + 2)
    best = Best(lambda i, kk: [1.0, 2.0, 200.0 + 10 * i] + [0.01 * (j + 1) for j in range(kk)])
    with patched((K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M + kmax)), stand_ins(ctx):
        m = KInflatedGammaPoissonModel([ReachPoint([150], [100, 40, 8], [30.0])], kmax=kmax)
        with patched((scipy.optimize, "minimize", best), (scipy.stats.chi2, "cdf", cdf(lambda i: 0.99 if i < stop else 0.5, seen))):
            m._fit()
    ks = [k for _, k in best.calls]
    ctx.check(ks == list(range(len(ks))), "k-inflated: inflation values are added one at a time")
    ctx.check_eq(len(ks), smin(stop, kmax) + 1, "k-inflated: values are added exactly while the fit is not good enough, up to the limit")
    ctx.check_eq(m.max_reach, 200.0 + 10 * (len(ks) - 1), "k-inflated: the last fit is kept")
    for i in range(1, len(best.calls)):
        x0 = best.calls[i][0]
        prev = [0.01 * (j + 1) for j in range(i - 1)]
        want = [1.0, 2.0, 200.0 + 10 * (i - 1)] + prev + [float(spec_pmf(1.0, 2.0, prev, M + kmax)[i])]
        ctx.check(len(x0) == len(want), "k-inflated: a fit starts from the one before")
        for v, w in zip(x0, want):
            ctx.check_eq(v, w, "k-inflated: a fit starts from the one before")
    for _, df in seen:
        ctx.check_eq(df, 3, "k-inflated: degrees of freedom are the number of frequencies")


def objective(ctx, cfg):
    """What is minimised is the chi-squared distance plus the penalty for too small an inventory."""
    M, n, I0, k = cfg["M"], cfg["n"], cfg["I0"], cfg["k"]
    kp, prev = [], 10 ** 4
    for j in range(n):
        if j == 0 and cfg.get("reach"):
            v = cfg["reach"]
        else:
            v = ctx.real("kplus%d" % j, 0, 10 ** 4)
            ctx.assume(v <= prev)
        prev = v
        kp.append(v)
    ctx.assume(kp[0] >= 1)
    ctx.assume(kp[0] <= I0)
    h = [kp[j] - kp[j + 1] for j in range(n - 1)] + [kp[-1]]
    mult = cfg.get("mult", 1.0)
    Imin = mult * I0
    total = kp[0]
    got = []

    def spec(al, be, N, a):
        bad = ssum([v * v for v in h])
        if not 1e-4 <= al <= 1000 or not 1e-4 <= be <= 10000 or any([v < 0 or v > 1 for v in a]) or sum(a) > 1:
            return bad + Imin ** 2
        if N < total or N > 100 * total:
            return bad + Imin ** 2
        sp = spec_pmf(al, be, a, M)
        Imax = N * sum([i * v for i, v in enumerate(sp)])
        pen = (Imin - Imax) ** 2 if Imax < Imin else 0
        if Imax <= I0:
            return bad + pen
        p = I0 / Imax
        hb = [N * spec_thin(sp, p, j) for j in range(1, n)]
        hb.append(N * (1 - sum([spec_thin(sp, p, j) for j in range(0, n)])))
        return ssum([(x - y) * (x - y) / (x + 1e-6) for x, y in zip(hb, h)]) + pen

    def probe(fun, x0, kk):
        if kk != k:
            return
        for al, be, N in cfg["at"]:
            for a in cfg["as"]:
                got.append((fun([al, be, N] + list(a)), spec(al, be, N, list(a))))

    seen = []
    best = Best(lambda i, kk: [1.0, 2.0, 150.0] + [0.1] * kk, probe)
    with patched((K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", M)), stand_ins(ctx):
        m = KInflatedGammaPoissonModel([ReachPoint([I0], kp, [30.0])], kmax=k, extrapolation_multiplier=mult)
        with patched((scipy.optimize, "minimize", best), (scipy.stats.chi2, "cdf", cdf(lambda i: 0.99, seen))):
            m._fit()
    ctx.check(len(got) > 0, "k-inflated: an optimisation is run")
    for g, w in got:
        ctx.check_eq(g, w, "k-inflated: the fit minimises the chi-squared distance plus the penalty for too small an inventory")


class Shape(object):
    """Records the distribution a model asks for; the exponential-Poisson one has closed forms."""

    def __init__(self, alpha, beta, a):
        self._alpha, self._beta, self._a = alpha, beta, a

    def pmf(self, n):
        return 0.0

    def expected_value(self):
        v = 1 + self._beta
        return np.float64(v) if isinstance(v, float) else v

    def kreach(self, k, p):
        return array([self._one(int(j), p) for j in k])

    def kplusreach(self, k, p):
        return 1.0 - sum([self._one(j, p) for j in range(int(k))])

    def _one(self, j, p):
        # geometric inventory on 1, 2, ... with mean 1 + beta, thinned
        b, c = self._beta, 1 + self._beta * p
        none = (1 - p) / c
        return none if j == 0 else (1 - none) * (self._beta * p / c) ** (j - 1) * (1 / c if j else 1)


def one_frequency(ctx, cfg):
    """Trained on 1+ reach alone, the curve passes through the training point."""
    if cfg.get("int"):
        I, R = ctx.int("I", 1, 10 ** 9), ctx.int("R", 1, 10 ** 9)
    else:
        I, R = ctx.real("I", 1, 10 ** 9), ctx.real("R", 0.001, 10 ** 9)
    ctx.assume(R <= I)
    if cfg.get("distinct"):
        ctx.assume(R + 0.001 <= I)
    else:
        ctx.assume(R == I)
    mult = cfg.get("mult", 1.0)
    with patched((K, "KInflatedGammaPoissonDistribution", Shape)):
        m = KInflatedGammaPoissonModel([ReachPoint([I], [R], [10.0])], extrapolation_multiplier=mult)
        if cfg.get("query_first"):
            m.by_impressions([ctx.real("first", 0, 10 ** 9)])
        p = m.by_impressions([I])
        ctx.check_eq(p.reach(), R, "k-inflated: trained on one frequency, the curve passes through the training point" + (" (with an extrapolation multiplier)" if mult != 1.0 else ""))
        ctx.check_le(R, m.max_reach, "k-inflated: the audience is at least the people reached")


def history(ctx, cfg):
    def make():
        return KInflatedGammaPoissonModel([ReachPoint([200], [100], [10.0])])

    x = ctx.real("x", 0, 10 ** 6)
    y = ctx.real("y", 0, 10 ** 6)
    with patched((K, "MAXIMUM_COMPUTATIONAL_FREQUENCY", 4)), stand_ins(ctx):
        m, m2, m3 = make(), make(), make()
        a = m.by_impressions([x], 2)
        m2.by_impressions([y], 3)
        b = m2.by_impressions([x], 2)
        m3._fit()
        c = m3.by_impressions([x], 2)
        d = m.by_impressions([x], 2)
        for k in (1, 2):
            ctx.check_eq(b.reach(k), a.reach(k), "k-inflated: answers do not depend on earlier questions")
            ctx.check_eq(c.reach(k), a.reach(k), "k-inflated: answers do not depend on when the model is fitted")
            ctx.check_eq(d.reach(k), a.reach(k), "k-inflated: the same question has the same answer")


def refusals(ctx, cfg):
    I = ctx.real("I", 1, 10 ** 6)
    r = ctx.real("r", 0, 10 ** 7)
    ctx.assume(I < r)
    refuses(ctx, lambda: KInflatedGammaPoissonModel([ReachPoint([I], [r], [1.0])]), "k-inflated: fewer impressions than people reached are refused", ValueError)
    t = ctx.real("tiny", 0, 0.0009)
    refuses(ctx, lambda: KInflatedGammaPoissonModel([ReachPoint([t], [0], [1.0])]), "k-inflated: a training point without impressions is refused", ValueError)
    p = ReachPoint([10], [5], [1.0])
    refuses(ctx, lambda: KInflatedGammaPoissonModel([p, p]), "k-inflated: exactly one training point", ValueError)
    refuses(ctx, lambda: KInflatedGammaPoissonModel([]), "k-inflated: exactly one training point", ValueError)
    m = KInflatedGammaPoissonModel([p])
    for v in ([], [1, 2]):
        refuses(ctx, lambda: m.by_impressions(v), "k-inflated: queries have one entry", ValueError)
        refuses(ctx, lambda: m.by_spend(v), "k-inflated: queries have one entry", ValueError)
    d = KInflatedGammaPoissonDistribution(1.0, 1.0, [])
    refuses(ctx, lambda: d.kreach([1, 3], 0.5), "inflated distribution: frequencies with gaps are refused", RuntimeError)


ASSUMPTIONS = [
    "the optimizer and the chi-squared tail are stand-ins; how good the optima are is not decided",
    "binomial and negative binomial probabilities are their exact formulas; the inventory is cut at the stated number of impressions per user instead of 1000",
    "passing through the training point: the geometric inventory is summed in closed form instead of being cut at 1000",
]
OUTSIDE = "inventories of more than 13 impressions per user; shape and scale other than the listed ones; more than 4 arbitrary inflation values at once"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    ABS = [(1.0, 2.0), (0.5, 3.0), (4.0, 0.5)]
    for i, ab in enumerate(ABS):
        out.append(Scenario("dist-k%d" % i, distribution, {"M": 6, "ab": ab, "k": i, "thin": True, "F": 4}, "alpha, beta = %s, %d arbitrary inflation values, arbitrary serving probability" % (ab, i)))
    out.append(Scenario("dist-k4", distribution, {"M": 7, "ab": ABS[0], "k": 4, "thin": True, "F": 3, "p": 0.25}, "4 arbitrary inflation values"))
    out.append(Scenario("dist-over", distribution, {"M": 6, "ab": ABS[1], "k": 3, "over": True}, "inflation values summing to more than one"))
    out.append(Scenario("dist-k10", distribution, {"M": 14, "ab": ABS[1], "k": 10, "sym": (0, 9), "thin": True, "F": 12, "p": 0.25}, "10 inflation values, 12 frequencies"))
    for i, a in enumerate([[], [0.25], [0.5, 0.25], [0.125, 0.25, 0.5]]):
        out.append(Scenario("shape-%d" % i, any_shape, {"M": 6, "a": a}, "any Gamma-Poisson probabilities at 1-5, inflation values %s" % a))
    out.append(Scenario("shape-in", any_shape, {"M": 6, "a": [0.5, 0.25], "all_in": True}, "all Gamma-Poisson mass at the inflated frequencies"))
    for i, ab in enumerate(ABS):
        out.append(Scenario("curve-%d" % i, curve, {"M": 5, "F": 3, "ab": ab, "N": 1000.0, "k": i, "sym": (), "mono": True}, "%d inflation values, inventory 4, arbitrary pair of queries" % i))
        out.append(Scenario("formula-%d" % i, curve, {"M": 6, "F": 5, "ab": ab, "N": 1000.0, "k": i, "sym": (), "formula": True, "spend": i != 2, "query_first": i == 0}, "%d inflation values, 5 frequencies, arbitrary query" % i))
    out.append(Scenario("audience", curve, {"M": 4, "F": 2, "ab": ABS[0], "k": 1, "sym": (), "formula": True}, "arbitrary audience and query"))
    out.append(Scenario("growth-3", growth, {"kmax": 3}, "up to 3 inflation values, fit good after an arbitrary number"))
    out.append(Scenario("growth-10", growth, {"kmax": 10}, "up to 10 inflation values"))
    at = [(1.0, 2.0, 160.0), (0.5, 0.5, 180.0), (1.0, 1.0, 40.0), (2000.0, 1.0, 150.0), (2.0, 0.25, 130.0), (1.0, 20000.0, 150.0)]
    out.append(Scenario("objective-0", objective, {"M": 6, "n": 3, "I0": 200, "reach": 120, "k": 0, "at": at, "as": [()]}, "arbitrary 3-frequency histogram of 120 people, no inflation"))
    out.append(Scenario("objective-2", objective, {"M": 6, "n": 4, "I0": 200, "reach": 100, "k": 2, "mult": 2.0, "at": at[:3], "as": [(0.2, 0.3), (0.7, 0.4), (-0.1, 0.5)]}, "arbitrary 4-frequency histogram of 100 people, 2 inflation values, extrapolation penalty"))
    out.append(Scenario("point", one_frequency, {"distinct": True}, "arbitrary training impressions and reach"))
    out.append(Scenario("point-int", one_frequency, {"distinct": True, "int": True, "query_first": True}, "integral training point, another query first"))
    out.append(Scenario("point-all", one_frequency, {"int": True}, "as many people as impressions"))
    out.append(Scenario("point-x2", one_frequency, {"distinct": True, "mult": 2.0}, "extrapolation multiplier 2"))
    out.append(Scenario("history", history, {}, "two arbitrary queries in different orders"))
    out.append(Scenario("refusals", refusals, {}, "arbitrary infeasible training points"))
    if T:
        out.append(Scenario("objective-any", objective, {"M": 6, "n": 3, "I0": 200, "k": 0, "at": at, "as": [()]}, "arbitrary 3-frequency histogram, no inflation"))
        out.append(Scenario("objective-12", objective, {"M": 14, "n": 12, "I0": 200, "k": 1, "at": at[:2], "as": [(0.2,)]}, "12 frequencies"))
        out.append(Scenario("curve-sym", curve, {"M": 5, "F": 3, "ab": ABS[0], "N": 1000.0, "k": 1, "formula": True}, "arbitrary inflation value and query"))
        out.append(Scenario("formula-8", curve, {"M": 9, "F": 8, "ab": ABS[1], "N": 1000.0, "k": 2, "sym": (), "formula": True, "mono": True}, "inventory 8"))
    return out
