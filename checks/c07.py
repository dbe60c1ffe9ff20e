"""C07: impression generators give each user its own draw; the fixed price is linear."""
import numpy as np

from symex.api import *
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import HeterogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData


class Rng(object):
    """A random generator whose every draw is an arbitrary value."""

    def __init__(self, ctx, most, perm):
        self.ctx, self.most, self.perm = ctx, most, perm
        self.poissons, self.gammas, self.zipfs = [], [], []
        self.arrangements = []
        self.count = 0

    def _next(self):
        self.count += 1
        return self.count

    def _many(self, size, one):
        if size is None:
            return one()
        out = np.empty(size, dtype=object)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = one()
        return out if self.ctx.sym else out.astype(np.int64 if all([isinstance(x, int) for x in flat]) else float)

    def draw(self, name, least):
        if isinstance(self.most, list):
            return least + self.ctx.choose(name, self.most)
        return self.ctx.int(name, least, self.most + least)

    def poisson(self, lam=1.0, size=None):
        if isinstance(lam, (list, tuple, np.ndarray)):
            return array([self.poisson(l) for l in lam])

        def one():
            v = self.draw("poisson%d" % self._next(), 0)
            self.poissons.append((lam, v))
            return v

        return self._many(size, one)

    def gamma(self, shape, scale=1.0, size=None):
        def one():
            v = self.ctx.real("gamma%d" % self._next(), 0, 1000)
            self.gammas.append((shape, scale, v))
            return v

        return self._many(size, one)

    def zipf(self, a, size=None):
        def one():
            v = self.draw("zipf%d" % self._next(), 1)
            self.zipfs.append((a, v))
            return v

        return self._many(size, one)

    def _arrange(self, xs):
        xs = list(xs)
        how = self.ctx.choose("arrangement", self.perm)
        if how == "reverse":
            xs = xs[::-1]
        elif how == "rotate":
            xs = xs[1:] + xs[:1]
        elif how == "interleave":
            xs = xs[::2] + xs[1::2]
        self.arrangements.append([int(x) for x in xs])
        return xs

    def shuffle(self, xs):
        xs[:] = self._arrange(xs)

    def permutation(self, xs):
        return np.array(self._arrange(xs))

    def __bool__(self):
        return True


def generate(ctx, cfg):
    n = cfg["n"]
    rng = Rng(ctx, cfg["most"], cfg.get("perm", ["as is", "reverse", "interleave"]))
    kind = cfg["kind"]
    if kind == "homogeneous":
        lam = ctx.real("lambda", 0, 1000)
        gen = HomogeneousImpressionGenerator(n, lam, rng)
    elif kind == "heterogeneous":
        shape, scale = ctx.real("shape", 0, 100, lo_strict=True), ctx.real("scale", 0, 100, lo_strict=True)
        gen = HeterogeneousImpressionGenerator(n, gamma_shape=shape, gamma_scale=scale, random_generator=rng)
    else:
        s = ctx.real("s", 1, 100, lo_strict=True)
        gen = HeavyTailedImpressionGenerator(n, zeta_s=s, random_generator=rng)
    if cfg.get("again"):
        gen()
        rng.poissons, rng.gammas, rng.zipfs, rng.arrangements = [], [], [], []
    out = [int(x) for x in gen()]
    if kind == "homogeneous":
        draws = [1 + v for _, v in rng.poissons]
        for l, _ in rng.poissons:
            ctx.check_eq(l, lam, "users' impressions beyond the first are Poisson with the mean given")
    elif kind == "heterogeneous":
        draws = [1 + v for _, v in rng.poissons]
        ctx.check(len(rng.gammas) == n, "each user has its own mean")
        for sh, sc, _ in rng.gammas:
            ctx.check_eq(sh, shape, "users' means follow the Gamma shape given")
            ctx.check_eq(sc, scale, "users' means follow the Gamma scale given")
        for (l, _), (_, _, g) in zip(rng.poissons, rng.gammas):
            ctx.check_eq(l, g, "a user's impressions are drawn with that user's mean")
    else:
        draws = [v for _, v in rng.zipfs]
        for a, _ in rng.zipfs:
            ctx.check_eq(a, s, "users' impressions follow the zeta distribution with the power given")
    ctx.check(len(draws) == n, "one draw per user")
    draws = [d if isinstance(d, int) else int(d) for d in draws]
    ctx.check(sorted(set(out)) == list(range(n)), "every one of the n users gets an impression, and no one else")
    ctx.check(sorted([out.count(i) for i in range(n)]) == sorted(draws), "users get as many impressions as drawn for them")
    ctx.check(len(rng.arrangements) >= 1 and out == rng.arrangements[-1], "the impressions come in the order the random generator put them in")


def power(ctx, cfg):
    s = ctx.real("s", -10, 1)
    try:
        HeavyTailedImpressionGenerator(2, zeta_s=s)
        ctx.fail("a zeta power of at most one is refused")
    except Exception:
        ctx.check(True, "a zeta power of at most one is refused")


def defaults(ctx, cfg):
    n = ctx.choose("n", [1, 3, 40])
    for g in (HeterogeneousImpressionGenerator(n), HeavyTailedImpressionGenerator(n), HomogeneousImpressionGenerator(n, 2.0), HomogeneousImpressionGenerator(n, 0.0, np.random.default_rng(1))):
        xs = list(g())
        ctx.check(sorted(set(xs)) == list(range(n)), "without a generator given, every one of the n users still gets an impression")
    for cls, kw in ((HomogeneousImpressionGenerator, {"poisson_lambda": 2.0}), (HeterogeneousImpressionGenerator, {}), (HeavyTailedImpressionGenerator, {})):
        a, b = [list(cls(n=n, random_generator=np.random.default_rng(5), **kw)()) for _ in range(2)]
        ctx.check(a == b, "the same generator gives the same impressions")


def parameters(ctx, cfg):
    """Parameters that are not given are the documented ones."""
    rng = Rng(ctx, 0, ["as is"])
    HeterogeneousImpressionGenerator(2, random_generator=rng)()
    HeavyTailedImpressionGenerator(2, random_generator=rng)()
    ctx.check(all([sh == 1 and sc == 1 for sh, sc, _ in rng.gammas]) and len(rng.gammas) == 2, "Gamma shape and scale are one unless given")
    ctx.check(all([a == 2 for a, _ in rng.zipfs]) and len(rng.zipfs) == 2, "the zeta power is two unless given")


def price(ctx, cfg):
    m = cfg["m"]
    cpi = ctx.real("cpi", 0, 1000, lo_strict=True)
    ids = ints(ctx, "id", m, 0, 10 ** 9)
    log = FixedPriceGenerator(cpi)(list(ids))
    ctx.check(len(log) == m, "every impression gets a price")
    for i, (u, s) in enumerate(log):
        ctx.check_eq(u, ids[i], "prices are attached to the impressions in order")
        ctx.check_eq(s, (i + 1) * cpi, "the i-th impression is bought at i times the cost per impression")
    if m <= 12:
        ctx.hash_mode = "const"
        ctx.assume(land(*[ids[i] != ids[j] for i in range(m) for j in range(i)]) if m > 1 else True)
        pd = PublisherData.generate_publisher_data(lambda: list(ids), FixedPriceGenerator(cpi), "nm")
        ctx.check(pd.name == "nm" and pd.max_impressions == m, "generated publisher has the impressions and the name")
        ctx.check_eq(pd.max_spend, m * cpi, "generated publisher: total spend")
        for k in range(m + 1):
            ctx.check_eq(pd.spend_by_impressions(k), k * cpi, "generated publisher: spend is proportional to impressions")


ASSUMPTIONS = ["the random generator is a stand-in whose every draw and arrangement is arbitrary (within the bounds)"]
OUTSIDE = "more than 3 users with arbitrary draws; draws above 2 (30 for a single user, selected larger ones for two users); arrangements other than as generated, reversed, interleaved, rotated"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for kind in ("homogeneous", "heterogeneous", "heavytailed"):
        out.append(Scenario(kind + "-3", generate, {"kind": kind, "n": 3, "most": 2}, "3 users, draws up to 2"))
        out.append(Scenario(kind + "-1", generate, {"kind": kind, "n": 1, "most": 30}, "1 user, draws up to 30"))
        out.append(Scenario(kind + "-many", generate, {"kind": kind, "n": 2, "most": [0, 11, 127, 256, 1000, 4096, 32768, 65536, 100003] + ([1000000] if T else []), "perm": ["reverse"]}, "2 users, draws of up to a hundred thousand"))
        out.append(Scenario(kind + "-again", generate, {"kind": kind, "n": 2, "most": 1, "again": True, "perm": ["reverse"]}, "2 users, called a second time"))
        out.append(Scenario(kind + "-0", generate, {"kind": kind, "n": 0, "most": 1}, "no users"))
        out.append(Scenario(kind + "-150", generate, {"kind": kind, "n": 150, "most": 0, "perm": ["reverse"]}, "150 users, smallest draw"))
        out.append(Scenario(kind + "-12", generate, {"kind": kind, "n": 12, "most": 0, "perm": ["reverse", "rotate"]}, "12 users, smallest draw"))
        if T:
            out.append(Scenario(kind + "-4", generate, {"kind": kind, "n": 4, "most": 3, "perm": ["reverse", "rotate", "interleave", "as is"]}, "4 users, draws up to 3"))
            out.append(Scenario(kind + "-8", generate, {"kind": kind, "n": 8, "most": 1, "perm": ["reverse"]}, "8 users, draws 0 or 1"))
    out.append(Scenario("parameters", parameters, {}, "no parameters given"))
    out.append(Scenario("power", power, {}, "power in [-10, 1]"))
    out.append(Scenario("defaults", defaults, {}, "1, 3, 40 users"))
    for m in (1, 4, 12, 40, 150):
        out.append(Scenario("price-%d" % m, price, {"m": m}, "%d impressions, arbitrary users and cost" % m))
    return out
