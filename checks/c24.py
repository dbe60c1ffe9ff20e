"""C24: test points lie within what can be spent, in the number and arrangement asked for, and are reproducible."""
import pyDOE

LHS = [None]
_lhs = pyDOE.lhs
pyDOE.lhs = lambda *a, **kw: LHS[0](*a, **kw) if LHS[0] else _lhs(*a, **kw)

import numpy as np

from symex.api import *
from checks.curves import refuses
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import GridTestPointGenerator
from wfa_planning_evaluation_framework.driver.latin_hypercube_random_test_point_generator import LatinHypercubeRandomTestPointGenerator
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import UniformlyRandomTestPointGenerator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

T = "test points: "


def dataset(ctx, p, symbolic=()):
    tops = [ctx.real("m%d" % i, 0, 10 ** 6, lo_strict=True) if i in symbolic else [4.0, 0.5, 64.0, 1.0, 2.0][i % 5] for i in range(p)]
    return tops, DataSet([PublisherData([(1, tops[i]), (2, tops[i] / 4)], "p%d" % i) for i in range(p)], "ds")


class Rng(object):
    """The random generator given: draws in [0, 1) in row order, some of them arbitrary; recorded arrangements."""

    def __init__(self, ctx, n_sym=0, order=None):
        self.ctx, self.n, self.n_sym, self.order = ctx, 0, n_sym, order or (lambda xs: xs)
        self.draws = []

    def random(self, size=None, *a, **kw):
        shape = () if size is None else (size,) if isinstance(size, int) else tuple(size)
        k = 1
        for s in shape:
            k *= s
        vals = []
        for _ in range(k):
            i = len(self.draws)
            if i < self.n_sym:
                v = self.ctx.real("d%d" % i, 0, 1, hi_strict=True)
            else:
                v = ((37 * i) % 256) / 256.0
            self.draws.append(v)
            vals.append(v)
        if not shape:
            return vals[0]
        out = np.empty(k, dtype=object) if self.n_sym else np.empty(k)
        for i, v in enumerate(vals):
            out[i] = v
        return out.reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(low, dtype=object), np.asarray(high, dtype=object)).shape or None
        return low + (high - low) * self.random(size)

    def permutation(self, n):
        xs = list(range(n)) if isinstance(n, int) else list(n)
        return np.array(self.order(xs))

    def shuffle(self, xs):
        xs[:] = [xs[i] for i in self.order(list(range(len(xs))))]

    def integers(self, *a, **kw):
        return 12345


def listed(gen):
    pts = [list(x) for x in gen.test_points()]
    return pts


def uniform(ctx, cfg):
    p, n = cfg["p"], ctx.choose("npoints", cfg["npoints"])
    npub, per = ctx.choose("npublishers", cfg.get("npublishers", [1])), ctx.choose("per", cfg.get("per", [None]))
    tops, ds = dataset(ctx, p, cfg.get("sym_m", ()))
    rng = Rng(ctx, cfg.get("sym_d", 0))
    kw = dict(npoints=n, npublishers=npub)
    if per is not None:
        kw["minimum_points_per_publisher"] = per
    pts = listed(UniformlyRandomTestPointGenerator(ds, rng, **kw))
    want = max(n, npub * (100 if per is None else per), 100)
    ctx.check(len(pts) == want, T + "uniformly random: as many points as asked for, at least the minimum")
    for k, pt in enumerate(pts):
        ctx.check(len(pt) == p, T + "one spend per publisher")
        for i in range(p):
            d = rng.draws[k * p + i] if k * p + i < len(rng.draws) else None
            ctx.check(d is not None, T + "uniformly random: every spend has its own draw")
            ctx.check_eq(pt[i], tops[i] * d, T + "uniformly random: a spend is its draw's share of the publisher's maximum")


def cube(ctx, cfg):
    p, n = cfg["p"], ctx.choose("npoints", cfg["npoints"])
    npub, per = ctx.choose("npublishers", cfg.get("npublishers", [1])), ctx.choose("per", cfg.get("per", [None]))
    tops, ds = dataset(ctx, p, cfg.get("sym_m", ()))
    order = ctx.choose("order", cfg.get("orders", ["id"]))
    arrange = {"id": lambda xs: xs, "rev": lambda xs: xs[::-1], "rot": lambda xs: xs[1:] + xs[:1]}[order]
    asked = []
    lhs_rows = []

    def lhs(n, samples=None, criterion=None, iterations=None, **kw):
        asked.append((n, samples))
        cols = []
        for j in range(n):
            step = [1, 3, 7, 9, 11, 13][j % 6]
            while samples % step == 0 and step > 1:
                step += 2
            col = []
            for k in range(samples):
                cell = (k * step + 5 * j) % samples
                u = ctx.real("u%d_%d" % (k, j), 0, 1, lo_strict=True, hi_strict=True) if k in cfg.get("sym_u", ()) else 0.5
                col.append((cell + u) / samples)
            cols.append(col)
        out = np.empty((samples, n), dtype=object) if cfg.get("sym_u") else np.empty((samples, n))
        for j in range(n):
            for k in range(samples):
                out[k, j] = cols[j][k]
        lhs_rows[:] = [[cols[j][k] for j in range(n)] for k in range(samples)]
        return out

    kw = dict(npoints=n, npublishers=npub)
    if per is not None:
        kw["minimum_points_per_publisher"] = per
    LHS[0] = lhs
    try:
        pts = listed(LatinHypercubeRandomTestPointGenerator(ds, Rng(ctx, 0, arrange), **kw))
    finally:
        LHS[0] = None
    want = min(max(n, npub * (100 if per is None else per), 100), 2000)
    ctx.check(len(pts) == want, T + "Latin hypercube: as many points as asked for, at least the minimum and at most the maximum")
    for pt in pts:
        ctx.check(len(pt) == p, T + "one spend per publisher")
    if cfg.get("strata", True):
        N = len(pts)
        for i in range(p):
            seen = [0] * N
            loose = []
            for pt in pts:
                x = pt[i] / tops[i] * N
                if is_sym(x):
                    loose.append(x)
                else:
                    seen[min(N - 1, int(x + 1e-9))] += 1
            free = [k for k in range(N) if seen[k] == 0]
            ctx.check(all([s <= 1 for s in seen]) and len(free) == len(loose), T + "Latin hypercube: every publisher has one point in each slice of its spend")
            for k in free:
                ctx.check(count([land(x >= k, x < k + 1) for x in loose]) == 1, T + "Latin hypercube: every publisher has one point in each slice of its spend")
    else:
        for k in (0, 1, len(pts) // 2, len(pts) - 1):
            pt = pts[k]
            # one row of the cube, with the publishers arranged in some order
            same = []
            for row in lhs_rows:
                for perm in ([0, 1], [1, 0]) if p == 2 else ([0],):
                    same.append(land(*[pt[i] == tops[i] * row[perm[i]] for i in range(p)]))
            ctx.check(lor(*same), T + "Latin hypercube: every point is a point of the cube scaled by what each publisher can be paid")


def grid(ctx, cfg):
    p, g = cfg["p"], cfg["g"]
    tops, ds = dataset(ctx, p, cfg.get("sym_m", range(p)))
    pts = listed(GridTestPointGenerator(ds, Rng(ctx), g))
    ctx.check(len(pts) == g ** p, T + "grid: one point per combination")
    left = list(range(len(pts)))
    for k in range(g ** p):
        idx = [(k // g ** i) % g + 1 for i in range(p)]
        hit = [land(*[abs(pt[i] - tops[i] * idx[i] / (g + 1)) <= tops[i] * 1e-9 for i in range(p)]) for pt in pts]
        ctx.check(count(hit) == 1, T + "grid: evenly spaced spends strictly between nothing and the maximum, all combinations once")


def same(ctx, cfg):
    """The same data set, arguments and generator state give the same points, whatever else has drawn random numbers."""
    p = cfg["p"]
    tops, ds = dataset(ctx, p, (0,))
    seed = ctx.choose("seed", [1, 7])
    name, kw = cfg["strategy"]
    e = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 3, name, dict(kw))
    runs = []
    for noise in (0, 3, 11):
        np.random.seed(99 + noise)
        for _ in range(noise):
            np.random.rand()
        runs.append([list(x) for x in e.generate_test_points(ds, np.random.default_rng(seed))])
    ctx.check(len(runs[0]) > 0, T + "there are points")
    for r in runs[1:]:
        ctx.check(len(r) == len(runs[0]), T + "the same arguments and generator give the same points")
        for a, b in zip(r, runs[0]):
            for x, y in zip(a, b):
                ctx.check_eq(x, y, T + "the same arguments and generator give the same points")
    for pt in runs[0]:
        for i in range(p):
            ctx.check(land(pt[i] >= 0, pt[i] <= tops[i]), T + "spends lie between nothing and the publisher's maximum")


def others(ctx, cfg):
    """Points for a data set do not depend on the data sets before it, nor on points drawn in between."""
    n = cfg.get("sets", 2)
    sets = []
    for j in range(n):
        tops = [ctx.real("m%d_%d" % (j, i), 0, 10 ** 6, lo_strict=True) for i in range(2)]
        sets.append((tops, DataSet([PublisherData([(1, tops[i]), (2, tops[i] / 4)], "p%d" % i) for i in range(2)], "ds")))
    kind = ctx.choose("kind", ["grid", "uniform", "cube"])
    woven = ctx.choose("woven", [False, True])
    rngs = [Rng(ctx) for _ in range(n)]
    LHS[0] = lambda n, samples=None, **kw: np.array([[(k + 0.5) / samples] * n for k in range(samples)])
    try:
        gens = []
        for (tops, ds), rng in zip(sets, rngs):
            if kind == "grid":
                g = GridTestPointGenerator(ds, rng, 2)
            elif kind == "uniform":
                g = UniformlyRandomTestPointGenerator(ds, rng)
            else:
                g = LatinHypercubeRandomTestPointGenerator(ds, rng)
            if woven:
                gens.append(iter(g.test_points()))
            else:
                gens.append(iter([list(x) for x in g.test_points()]))
        got = [[] for _ in gens]
        for k in range(4):
            for j, g in enumerate(gens):
                got[j].append(list(next(g)))
    finally:
        LHS[0] = None
    for j, (tops, ds) in enumerate(sets):
        for k, pt in enumerate(got[j]):
            if kind == "grid":
                want = [tops[i] * x / 3.0 for i, x in enumerate([(1, 1), (1, 2), (2, 1), (2, 2)][k])]
                ctx.check(lor(*[land(*[abs(q[i] - want[i]) <= tops[i] * 1e-9 for i in range(2)]) for q in got[j]]), T + "points are those of the data set given, whatever came before")
                continue
            for i in range(2):
                share = rngs[j].draws[2 * k + i] if kind == "uniform" else None
                if share is None:
                    ctx.check_eq(pt[0] * tops[1], pt[1] * tops[0], T + "points are those of the data set given, whatever came before")
                    ctx.check(lor(*[abs(pt[i] * 100 - tops[i] * (r + 0.5)) <= tops[i] * 1e-9 for r in range(100)]), T + "points are those of the data set given, whatever came before")
                else:
                    ctx.check_eq(pt[i], tops[i] * share, T + "points are those of the data set given, whatever came before")


def choice(ctx, cfg):
    """The strategy named is the one used, with its arguments; an unknown one is refused."""
    tops, ds = dataset(ctx, 2, (0, 1))
    budget = PrivacyBudget(1.0, 0.0)
    e = ExperimentParameters(budget, 1, 3, "grid", {"grid_size": 2})
    pts = [list(x) for x in e.generate_test_points(ds, Rng(ctx))]
    ctx.check(len(pts) == 4, T + "the strategy named is used with its arguments")
    e = ExperimentParameters(budget, 1, 3, "uniformly_random", {"npoints": 150})
    rng = Rng(ctx)
    pts = [list(x) for x in e.generate_test_points(ds, rng)]
    ctx.check(len(pts) == 150, T + "the strategy named is used with its arguments")
    ctx.check_eq(pts[0][1], tops[1] * rng.draws[1], T + "the generator given is the one used")
    e = ExperimentParameters(budget, 1, 3, "latin_hypercube", {"npoints": 120})
    LHS[0] = lambda n, samples=None, **kw: np.array([[(k + 0.5) / samples] * n for k in range(samples)])
    pts = [list(x) for x in e.generate_test_points(ds, Rng(ctx))]
    LHS[0] = None
    ctx.check(len(pts) == 120, T + "the strategy named is used with its arguments")
    refuses(ctx, lambda: list(ExperimentParameters(budget, 1, 3, "nonesuch", {}).generate_test_points(ds, Rng(ctx))), T + "an unknown strategy is refused", ValueError)


ASSUMPTIONS = ["the Latin hypercube sampler (pyDOE) is a stand-in returning a design with one entry per slice in every column, some entries arbitrary within their slice; the reproducibility scenarios run the real one"]
OUTSIDE = "more than 12 publishers (6 for grids); the space-filling quality of the designs"


def scenarios(tier):
    T = tier == "thorough"
    return [
        Scenario("uniform-count", uniform, {"p": 1, "npoints": [1, 99, 100, 101, 250], "npublishers": [1, 2, 3], "per": [None, 10, 60]}, "numbers of points asked for around the minimum"),
        Scenario("uniform-draws", uniform, {"p": 2, "npoints": [100], "sym_d": 200}, "100 points for 2 publishers, every draw arbitrary"),
        Scenario("uniform-tops", uniform, {"p": 3, "npoints": [100], "sym_m": (0, 1, 2)}, "3 publishers with arbitrary maximum spends"),
        Scenario("uniform-12", uniform, {"p": 12, "npoints": [100], "sym_m": (0, 7, 11)}, "12 publishers, three with arbitrary maximum spends"),
        Scenario("uniform-many", uniform, {"p": 1, "npoints": [1999, 2500, 20000]}, "many points asked for"),
        Scenario("cube-12", cube, {"p": 12, "npoints": [101], "sym_u": (50,), "orders": ["rot"]}, "12 publishers, arbitrary positions in 1 row"),
        Scenario("grid-6", grid, {"p": 6, "g": 2, "sym_m": (0, 5)}, "6 publishers, 64 points"),
        Scenario("cube-count", cube, {"p": 1, "npoints": [1, 99, 100, 101, 250], "npublishers": [1, 2, 3], "per": [None, 10, 60]}, "numbers of points asked for around the minimum"),
        Scenario("cube-max", cube, {"p": 1, "npoints": [1999, 2000, 2001, 5000], "npublishers": [1]}, "numbers of points asked for around the maximum"),
        Scenario("cube-strata", cube, {"p": 2, "npoints": [100], "sym_u": (0, 49, 99), "orders": ["id", "rev", "rot"]}, "2 publishers, arbitrary positions in 3 rows"),
        Scenario("cube-strata3", cube, {"p": 3, "npoints": [101], "sym_u": (1, 50), "orders": ["rev", "rot"]}, "3 publishers, arbitrary positions in 2 rows"),
        Scenario("cube-tops", cube, {"p": 2, "npoints": [100], "sym_m": (0, 1), "strata": False, "orders": ["id", "rot"]}, "2 publishers with arbitrary maximum spends"),
        Scenario("grid-1", grid, {"p": 1, "g": 20}, "1 publisher, 20 points"),
        Scenario("grid-2", grid, {"p": 2, "g": 3}, "2 publishers, 9 points"),
        Scenario("grid-2b", grid, {"p": 2, "g": 5, "sym_m": (1,)}, "2 publishers, 25 points"),
        Scenario("grid-3", grid, {"p": 3, "g": 2}, "3 publishers, 8 points"),
        Scenario("grid-1b", grid, {"p": 1, "g": 1}, "1 point"),
        Scenario("same-cube", same, {"p": 2, "strategy": ("latin_hypercube", {"npoints": 100})}, "2 seeds, 3 global random states"),
        Scenario("same-uniform", same, {"p": 2, "strategy": ("uniformly_random", {"npoints": 100})}, "2 seeds, 3 global random states"),
        Scenario("same-grid", same, {"p": 2, "strategy": ("grid", {"grid_size": 4})}, "2 seeds, 3 global random states"),
        Scenario("others", others, {"sets": 2}, "2 data sets of one name, arbitrary maximum spends, points drawn one after another or alternately"),
        Scenario("choice", choice, {}, "each strategy by name"),
    ]
