"""C08: a synthetic data design has the publishers its parameters ask for."""
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from symex.api import *
from checks.naming import same_text
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import SyntheticDataDesignGenerator
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters, GeneratorParameters

CURRENT = [None]
CONFIG = os.path.join(os.path.dirname(os.path.abspath(__file__)), "design_config.py")


class Recorder(object):
    def __init__(self):
        self.imp, self.price, self.overlap = [], [], []


def stand_ins(rec):
    class Imp(object):
        def __init__(self, n, random_generator, **kw):
            rec.imp.append((n, random_generator, kw))
            self.k = len(rec.imp)

        def __call__(self):
            return [self.k, 7]

    class Price(object):
        def __init__(self, **kw):
            rec.price.append(kw)

        def __call__(self, xs):
            return [(x, float(i + 1)) for i, x in enumerate(xs)]

    class Overlap(object):
        def __new__(cls, publishers, name=None, **kw):
            rec.overlap.append((list(publishers), name, kw))
            return DataSet(publishers, name=name)

    return Imp, Price, Overlap


def run(params_list, seed=1):
    rec = Recorder()
    imp, price, overlap = stand_ins(rec)
    seen = {}

    def config(rng):
        seen["rng"] = rng
        return params_list(imp, price, overlap)

    CURRENT[0] = config
    out = tempfile.mkdtemp(prefix="c08")
    try:
        dd = SyntheticDataDesignGenerator(out, CONFIG, seed, False)()
        names = sorted(dd.names)
        shapes = {}
        for nm in names:
            ds = dd.by_name(nm)
            shapes[nm] = [(p.name, p.max_impressions) for p in sorted(ds._data, key=lambda p: int(p.name))]
    finally:
        shutil.rmtree(out)
    return rec, seen["rng"], names, shapes


def sizes(ctx, cfg):
    P = cfg["P"]
    N = ctx.int("N", 1, cfg.get("most", 10 ** 7))
    ratio = cfg["ratio"] if cfg.get("ratio") is not None else ctx.real("ratio", 0, 1, lo_strict=True)
    ovl_rng = ctx.choose("overlap_rng", [False, True]) if P < 3 else True

    def params(imp, price, overlap):
        op = {"extra": 5}
        if ovl_rng:
            op["random_generator"] = 17
        return [
            DataSetParameters(
                name="D", num_publishers=P, largest_publisher_size=N, largest_to_smallest_publisher_ratio=ratio,
                pricing_generator_params=GeneratorParameters("pr", price, {"c": 3}),
                impression_generator_params=GeneratorParameters("im", imp, {"l": 4}),
                overlap_generator_params=GeneratorParameters("ov", overlap, op),
            )
        ]

    rec, rng, names, shapes = run(params)
    ctx.check(names == ["D"], "one data set per parameter set, under its name")
    ctx.check(len(rec.imp) == P and len(rec.price) == P, "as many publishers as asked for")
    ctx.check(shapes["D"] == [(str(i + 1), 2) for i in range(P)], "publishers are named 1, 2, ...")
    ctx.check(all([kw == {"l": 4} and r is rng for _, r, kw in rec.imp]), "impression generators get the parameters given and the one random generator")
    ctx.check(all([kw == {"c": 3} for kw in rec.price]), "pricing generators get the parameters given")
    ctx.check(len(rec.overlap) == 1 and len(rec.overlap[0][0]) == P, "the overlap generator gets all publishers")
    okw = rec.overlap[0][2]
    ctx.check(okw.get("extra") == 5 and set(okw) == ({"extra", "random_generator"} if ovl_rng else {"extra"}), "the overlap generator gets the parameters given")
    if ovl_rng:
        ctx.check(okw["random_generator"] is rng, "the overlap generator draws from the one random generator")
    ns = [n for n, _, _ in rec.imp]
    ctx.check_eq(ns[0], N, "the first publisher has the largest size")
    for i in range(1, P):
        ctx.check_le(ns[i], ns[i - 1], "publisher sizes do not increase")
        ctx.check_le(0, ns[i], "publisher sizes are not negative")
        e = Fraction(i, P - 1)
        if cfg.get("ratio") is not None:
            geo = float(ratio) ** float(e) * N if not ctx.sym else N * Fraction(float(ratio) ** float(e)).limit_denominator(10 ** 12)
        elif i == P - 1:
            geo = N * ratio
        elif ctx.sym and P <= 4:
            geo = N * ctx.root(ratio, Fraction(1, P - 1)) ** i
        elif not ctx.sym:
            geo = N * float(ratio) ** float(e)
        else:
            continue
        ctx.check_le(ns[i], geo + 1e-3, "publisher sizes decay geometrically from the largest to largest times ratio")
        ctx.check_le(geo - i - 1e-3, ns[i], "publisher sizes decay geometrically from the largest to largest times ratio")


def seeds(ctx, cfg):
    """The same seed gives the same design; the configuration draws from the seeded generators."""
    seed = ctx.choose("seed", [0, 1, 2, 99])
    draws = []
    for s in (seed, seed, seed + 1):
        def params(imp, price, overlap):
            return [DataSetParameters(name="D%d" % j, num_publishers=1, largest_publisher_size=3) for j in range(2)]

        rec = {}

        def config(rng):
            rec["a"] = (float(rng.random()), float(np.random.random()))
            return [DataSetParameters(name="D%d" % j, num_publishers=2, largest_publisher_size=5) for j in range(2)]

        CURRENT[0] = config
        out = tempfile.mkdtemp(prefix="c08")
        try:
            dd = SyntheticDataDesignGenerator(out, CONFIG, s, False)()
            logs = [[sorted(p.user_counts_by_impressions(k).items()) for p in dd.by_name(nm)._data for k in range(6)] for nm in sorted(dd.names)]
        finally:
            shutil.rmtree(out)
        draws.append((rec["a"], logs))
    ctx.check(draws[0] == draws[1], "the same seed gives the same data design")
    ctx.check(draws[0][0][0] != draws[2][0][0] and draws[0][0][1] != draws[2][0][1], "another seed gives another configuration")
    ctx.check(draws[0][1] != draws[2][1], "another seed gives other data")
    ctx.check(draws[0][1][0] != draws[0][1][1], "data sets of one design are drawn independently")


def several(ctx, cfg):
    n = ctx.choose("n", [0, 1, 3, 12])
    P = [1 + (j * 5) % 4 for j in range(n)]

    def params(imp, price, overlap):
        for j in range(n):
            yield DataSetParameters(
                name="set%d" % j, num_publishers=P[j], largest_publisher_size=100 + j,
                pricing_generator_params=GeneratorParameters("pr", price, {"c": j}),
                impression_generator_params=GeneratorParameters("im", imp, {"l": j}),
                overlap_generator_params=GeneratorParameters("ov", overlap, {}),
            )

    rec, rng, names, shapes = run(params)
    ctx.check(names == sorted(["set%d" % j for j in range(n)]), "one data set per parameter set, under its name")
    for j in range(n):
        ctx.check(len(shapes["set%d" % j]) == P[j], "each data set has the publishers its parameters ask for")
    want = [(100 + j, j) for j in range(n)]
    firsts, k = [], 0
    for j in range(n):
        firsts.append((rec.imp[k][0], rec.imp[k][2]["l"]))
        k += P[j]
    ctx.check(firsts == want, "each data set is generated from its own parameters")


def unnamed(ctx, cfg):
    """Data sets without a name get the name of their parameters, which are left as they were."""
    seed = ctx.choose("placeholder", [17, 0, None, 1])
    made = []

    def params(imp, price, overlap):
        op = GeneratorParameters("ov", overlap, {"universe_size": 9, "random_generator": seed})
        ip = GeneratorParameters("im", imp, {"l": 4})
        out = [DataSetParameters(num_publishers=2, largest_publisher_size=50 + j, impression_generator_params=ip, pricing_generator_params=GeneratorParameters("pr", price, {"c": 3}), overlap_generator_params=op, id=i) for j in range(2) for i in ("", "7")]
        made.append((out, [str(p) for p in out]))
        return out

    rec, rng, names, shapes = run(params)
    out, want = made[0]
    ctx.check(names == sorted(want), "one data set per parameter set, under its name")
    ctx.check(sorted([n for _, n, _ in rec.overlap]) == sorted(want), "one data set per parameter set, under its name")
    ctx.check([str(p) for p in out] == want, "the parameters are left as they were")
    for _, _, kw in rec.overlap:
        ctx.check(kw.get("random_generator") is rng and kw.get("universe_size") == 9 and len(kw) == 2, "the overlap generator draws from the one random generator")


def repeated(ctx, cfg):
    """Two data sets of one name cannot both be in a design: refused rather than dropped."""
    def params(imp, price, overlap):
        return [DataSetParameters(name=n, num_publishers=1, largest_publisher_size=k, pricing_generator_params=GeneratorParameters("pr", price, {}), impression_generator_params=GeneratorParameters("im", imp, {}), overlap_generator_params=GeneratorParameters("ov", overlap, {})) for n, k in (("a", 3), ("b", 4), ("a", 5))]

    try:
        run(params)
        ctx.fail("a name used twice in a design is refused")
    except ValueError:
        ctx.check(True, "a name used twice in a design is refused")


def alternatives(ctx, cfg):
    """Parameter sets that differ in one place have different names."""
    G = GeneratorParameters
    places = {
        "pricing_generator_params": None, "impression_generator_params": None, "overlap_generator_params": None,
        "id": ["", "0", "00", "10", "1", "some long identifier 1", "some long identifier 2", "01"],
        "largest_to_smallest_publisher_ratio": [0.1, 0.5, 1, 0.9, 0.90001, 0.9000000001, 1e-9, 2e-9],
        "largest_publisher_size": [1, 10, 1000, 1001, 10 ** 6, 10 ** 6 + 1, 123456789],
        "num_publishers": [1, 2, 11, 12, 100],
    }
    gens = [G("A", None, {}), G("B", None, {}), G("A", None, {"x": 0}), G("A", None, {"y": 0}), G("A", None, {"x": 1}), G("A", None, {"y": 1}), G("A", None, {"x": None}), G("A", None, {"x": False}),
            G("A", None, {"x": 1, "y": 2}), G("A", None, {"x": 2, "y": 1}), G("A", None, {"x": 1, "z": 2}), G("A", None, {"x": 1, "y": 2, "z": 3}), G("A", None, {"x": 1, "y": 2, "z": 4}), G("A", None, {"x": 0.1}), G("A", None, {"x": 0.10001}), G("A", None, {"x": 0.100000001}),
            G("A", None, {"x": "s"}), G("A", None, {"x": "t"}), G("A longer name of a generator", None, {"x": 1}), G("A longer name of a generators", None, {"x": 1}), G("a", None, {"x": 1})]
    seen = {}
    for field, values in places.items():
        for v in values or gens:
            if field == "id" and not v:
                continue
            p = DataSetParameters(**{field: v})
            if p == DataSetParameters():
                continue
            key = str(p)
            ctx.check(key not in seen, "data sets with different parameters have different names (%s)" % field)
            seen[key] = p
    ctx.check(str(DataSetParameters()) not in seen, "data sets with different parameters have different names")
    for nm in ("x" * 300 + "a", "x" * 300 + "b", "a,b=c", " a", "A.b"):
        ctx.check(str(DataSetParameters(name=nm)) == nm, "a name given is used as it is")


def naming(ctx, cfg):
    """Different parameters have different names."""
    kinds = [("Homogeneous", {"poisson_lambda": 0}), ("Heavy", {})]

    def make(tag):
        P = ctx.int("P" + tag, 1, 1000)
        N = ctx.int("N" + tag, 1, 10 ** 9)
        r = ctx.real("r" + tag, 0, 1, lo_strict=True)
        lam = ctx.real("lam" + tag, 0, 100)
        c = ctx.real("cpi" + tag, 0, 100)
        u = ctx.int("u" + tag, 1, 10 ** 9)
        nm = ctx.choose("gen" + tag, ["Homogeneous", "Heavy"])
        i = ctx.choose("id" + tag, ["", "0", "12"])
        p = DataSetParameters(
            num_publishers=P, largest_publisher_size=N, largest_to_smallest_publisher_ratio=r,
            pricing_generator_params=GeneratorParameters("Fixed", None, {"cost_per_impression": c}),
            impression_generator_params=GeneratorParameters(nm, None, {"lambda": lam}),
            overlap_generator_params=GeneratorParameters("Ind", None, {"universe_size": u}),
            id=i,
        )
        return p, [P, N, r, lam, c, u], (nm, i)

    a, va, ka = make("a")
    b, vb, kb = make("b")
    same = same_text(ctx, str(a), str(b))
    for x, y in zip(va, vb):
        ctx.assume(lor(x == y, x - y >= cfg["gap"], y - x >= cfg["gap"]))
    alike = land(ka == kb, *[x == y for x, y in zip(va, vb)])
    ctx.check(imp(same, alike), "data sets with different parameters have different names")
    ctx.check(imp(alike, same), "the name is a function of the parameters")
    nm = ctx.choose("name", ["x", "some name"])
    ctx.check(str(DataSetParameters(name=nm, num_publishers=va[0])) == nm, "a name given is used as it is")


ASSUMPTIONS = ["impression, pricing and overlap generators are stand-ins that record what they are given", "roots are exact real roots; sizes may be off by the rounding of one floor per publisher"]
OUTSIDE = "arbitrary ratios beyond 7 publishers (fixed ratios at 12 and 20); arbitrary intermediate sizes for 5 to 7 publishers with an arbitrary ratio"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for P in (1, 2, 3) + ((4,) if T else ()):
        out.append(Scenario("sizes-%d" % P, sizes, {"P": P}, "%d publishers, arbitrary size and ratio" % P))
    for P, r in ((4, 0.1), (5, 0.5), (12, 0.3), (20, 0.01), (3, 1)) + (((40, 0.05), (11, 0.9)) if T else ()):
        out.append(Scenario("sizes-%d-%s" % (P, r), sizes, {"P": P, "ratio": r}, "%d publishers, ratio %s, arbitrary size" % (P, r)))
    out.append(Scenario("several", several, {}, "0, 1, 3, 12 data sets"))
    out.append(Scenario("unnamed", unnamed, {}, "4 data sets without names, sharing generators"))
    out.append(Scenario("repeated", repeated, {}, "a name used twice"))
    out.append(Scenario("alternatives", alternatives, {}, "all pairs of some 80 parameter sets that differ in one place (a finite list, evaluated completely)"))
    out.append(Scenario("seeds", seeds, {}, "4 seeds"))
    out.append(Scenario("naming", naming, {"gap": 1e-6}, "two arbitrary parameter sets, numbers that differ by at least a millionth"))
    return out
