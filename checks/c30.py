"""C30: the designs shipped with the framework are complete, valid, free of duplicates and reproducible."""
import importlib
import itertools

import numpy as np

from symex.api import *
from checks import trials as TR
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_cardinality_estimation_evaluation_framework.simulations import set_generator as SG

B = "wfa_planning_evaluation_framework."
DATA = ["simple_data_design_example", "analysis_example_data_design", "single_publisher_design", "lhs_data_design_example", "m3_data_design"]
EXP = ["sample_experimental_design", "m3_first_round_experimental_design", "analysis_example_experimental_design", "single_publisher_design"]
D, X = "data design: ", "experimental design: "


def data_module(name):
    return importlib.import_module(B + "data_generators." + name)


def exp_module(name):
    return importlib.import_module(B + "driver." + name)


def entry(cfg, i, j, samples):
    if cfg.get("diagonal"):  # neighbouring samples then have the same levels
        return (i + 0.5) / samples
    return ((i * (2 * j + 1) + j) % samples + 0.5) / samples


def cube(ctx, cfg, seen):
    """Any Latin hypercube: one row has an arbitrary entry, the others run through their column's slices."""

    def lhs(n, samples=None, criterion=None, **kw):
        samples = samples or n
        seen.append((n, samples))
        out = []
        for i in range(samples):
            out.append([entry(cfg, i, j, samples) for j in range(n)])
        row = cfg.get("row", 0)
        out[row][cfg["col"] % n] = ctx.real("u", 0, 1, hi_strict=True)
        return np.array(out, dtype=object if ctx.sym else None)

    return lhs


def valid_data(ctx, p):
    ctx.check(p.num_publishers >= 1 and int(p.num_publishers) == p.num_publishers, D + "there are publishers")
    ctx.check(p.largest_publisher_size >= 1 and int(p.largest_publisher_size) == p.largest_publisher_size, D + "publishers reach someone")
    ctx.check(0 < p.largest_to_smallest_publisher_ratio <= 1, D + "publishers' sizes decrease")
    ok = p.overlap_generator_params.params
    if "universe_size" in ok:
        ctx.check(ok["universe_size"] >= p.largest_publisher_size, D + "the universe holds the largest publisher")
    if "shared_prop" in ok:
        ctx.check(0 <= ok["shared_prop"] <= 1, D + "shares of common users are shares")


BUILT = {}
MADE = {}


def buildable(ctx, p):
    """The generators named can be made with the arguments named and give data (on a small scale)."""
    key = (str(p.impression_generator_params), str(p.pricing_generator_params), str(p.overlap_generator_params).split("universe_size")[0])
    if ctx.sym and key in BUILT:
        return
    BUILT[key] = True
    rng = np.random.default_rng(1)
    pubs = []
    for k in range(2):
        imp = p.impression_generator_params.generator(**dict(dict(n=4, random_generator=rng), **p.impression_generator_params.params))
        pubs.append(PublisherData.generate_publisher_data(imp, p.pricing_generator_params.generator(**p.pricing_generator_params.params), str(k + 1)))
    kw = dict(p.overlap_generator_params.params)
    if "random_generator" in kw:
        kw["random_generator"] = rng
    if "universe_size" in kw:
        kw["universe_size"] = 8
    SG.HOOK[0] = lambda kind, sizes, params: [list(range(int(n))) for n in sizes]
    ds = p.overlap_generator_params.generator(pubs, name="x", **kw)
    ctx.check(ds.publisher_count == 2 and ds.maximum_reach >= 4, D + "the generators can be made with their arguments")


def signature(p):
    return tuple([str(v) for v in p])


def factors(m, names):
    for n in names:
        if not hasattr(m, n):
            return None
    return [getattr(m, n) for n in names]


def product_data(ctx, cfg):
    """A design that is a product has every combination once."""
    name = ctx.choose("design", ["simple_data_design_example", "analysis_example_data_design", "single_publisher_design"])
    m = data_module(name)
    ps = list(m.generate_data_design_config(np.random.default_rng(1)))
    names = [str(p) for p in ps]
    ctx.check(len(set(names)) == len(names), D + "data sets have different names")
    for p in ps:
        valid_data(ctx, p)
        buildable(ctx, p)
    # every factor, seen from the outside: all combinations of the values that occur
    fs = {
        "simple_data_design_example": ["num_publishers", "largest_publisher_size", "largest_to_smallest_publisher_ratio"],
        "analysis_example_data_design": ["num_publishers", "largest_publisher_size", "largest_to_smallest_publisher_ratio", "pricing_generator_params", "impression_generator_params", "overlap_generator_params"],
        "single_publisher_design": ["largest_publisher_size", "impression_generator_params"],
    }[name]
    sizes = {"simple_data_design_example": [3, 3, 3], "analysis_example_data_design": [3, 2, 2, 1, 2, 3], "single_publisher_design": [5, 16]}[name]
    values = [sorted(set([str(getattr(p, f)) for p in ps])) for f in fs]
    ctx.check([len(v) for v in values] == sizes, D + "every level of every factor occurs")
    got = sorted([tuple([str(getattr(p, f)) for f in fs]) for p in ps])
    ctx.check(got == sorted(itertools.product(*values)), D + "every combination of levels occurs once")


def sampled_data(ctx, cfg):
    """A sampled design takes each sample's level of each factor, in range."""
    m = data_module(cfg["design"])
    seen = []
    if not hasattr(m, "lhs") or not hasattr(m, "LEVELS"):
        return
    rows, cols = {"lhs_data_design_example": (10, 6), "m3_data_design": (100, 6)}[cfg["design"]]
    col = ctx.choose("col", list(range(cols)))
    with patched((m, "lhs", cube(ctx, dict(cfg, col=col), seen))):
        ps = list(m.generate_data_design_config(np.random.default_rng(1)))
    ctx.check(seen == [(cols, rows)], D + "one sample per data set and factor")
    ctx.check(len(ps) == rows, D + "one data set per sample")
    names = [str(p) for p in ps]
    ctx.check(len(set(names)) == len(names), D + "data sets have different names")
    for p in ps:
        valid_data(ctx, p)
    for p in ps[: cfg.get("build", 3)]:
        buildable(ctx, p)
    keys = ["num_publishers", "largest_publisher_size", "largest_to_smallest_publisher_ratio", "pricing_generator_params", "impression_generator_params", "overlap_generator_params"]
    for i, p in enumerate(ps):
        for j, key in enumerate(keys):
            levels = m.LEVELS[key]
            if (i, j) == (cfg.get("row", 0), col):
                u = ctx_value(ctx)
            else:
                u = entry(cfg, i, j, rows)
            v = getattr(p, key)
            if key == "overlap_generator_params" and "universe_size" in v.params and "universe_size" not in str(levels):
                idx = [k for k, l in enumerate(levels) if l.name == v.name and int(p.largest_publisher_size / l.params["largest_pub_to_universe_ratio"]) == v.params["universe_size"]]
            else:
                idx = [k for k, l in enumerate(levels) if l == v]
            ctx.check(len(idx) >= 1, D + "a sample's level is one of its factor's")
            ctx.check(lor(*[land(u * len(levels) >= k, u * len(levels) < k + 1) for k in idx]), D + "a sample has the level of its slice")


def ctx_value(ctx):
    return ctx.real("u", 0, 1, hi_strict=True)


def valid_exp(ctx, t):
    ctx.check(t.experiment_params.privacy_budget.epsilon > 0 and 0 <= t.experiment_params.privacy_budget.delta < 1, X + "budgets are budgets")
    ctx.check(t.experiment_params.max_frequency >= 1, X + "frequencies are modeled")
    ctx.check(0 < t.system_params.liquid_legions.decay_rate < t.system_params.liquid_legions.sketch_size, X + "sketches can be made")
    key = str(t.modeling_strategy)
    if key not in MADE or not ctx.sym:
        MADE[key] = t.modeling_strategy.instantiate_strategy() is not None
    ctx.check(MADE[key], X + "strategies and models exist")


def product_exp(ctx, cfg):
    name = cfg["design"]
    seed = ctx.choose("seed", [1, 9])
    m = exp_module(name)
    ts = list(m.generate_experimental_design_config(seed=seed))
    p = 1 if name == "single_publisher_design" else ctx.choose("p", [1, 2, 5])
    ds = TR.data_set([2] * p, "ds")
    us = [t.update_from_dataset(ds) for t in ts]
    parts = {
        "strategy": lambda u: str(u.modeling_strategy),
        "spends": lambda u: str(list(u.system_params.campaign_spend_fractions)),
        "sketch": lambda u: str(u.system_params.liquid_legions),
        "budget": lambda u: str(u.experiment_params.privacy_budget),
        "replica": lambda u: str(u.experiment_params.replica_id),
        "frequency": lambda u: str(u.experiment_params.max_frequency),
        "points": lambda u: u.experiment_params.test_point_strategy + str(u.experiment_params.test_point_strategy_kwargs),
    }
    sizes = {
        "m3_first_round_experimental_design": [3, 2 if p > 1 else 2, 1, 4, 3, 2, 2],
        "analysis_example_experimental_design": [2, 2, 1, 2, 3, 2, 2],
        "single_publisher_design": [5, 9, 1, 5, 1, 1, 1],
    }[name]
    order = ["strategy", "spends", "sketch", "budget", "replica", "frequency", "points"]
    values = [sorted(set([parts[k](u) for u in us])) for k in order]
    ctx.check([len(v) for v in values] == sizes, X + "every level of every factor occurs")
    got = sorted([tuple([parts[k](u) for k in order]) for u in us])
    ctx.check(got == sorted(itertools.product(*values)), X + "every combination of levels occurs once")
    ctx.check(len(set([str(u) for u in us])) == len(us), X + "trials have different names")
    made = {}
    for u in us:
        fr = u.system_params.campaign_spend_fractions
        ctx.check(len(fr) == p and all([0 < f <= 1 for f in fr]), X + "one spend fraction per publisher, between nothing and everything")
        valid_exp(ctx, u)
        ctx.check(u.system_params.generator.random() == np.random.default_rng(seed).random(), X + "trials are seeded with the seed given")
        kw = u.experiment_params.test_point_strategy_kwargs
        ctx.check(kw.get("npublishers", p) == p, X + "test points are made for the publishers of the data set")
        key = parts["points"](u)
        if key not in made and p <= 2 and seed == 1:
            made[key] = 1
            pts = list(u.experiment_params.generate_test_points(ds, np.random.default_rng(2)))
            ctx.check(len(pts) >= 1 and all([len(q) == p for q in pts]), X + "test points can be made")


def sampled_exp(ctx, cfg):
    m = exp_module("sample_experimental_design")
    if not hasattr(m, "lhs") or not hasattr(m, "LEVELS"):
        return
    seen = []
    col = ctx.choose("col", list(range(7)))
    with patched((m, "lhs", cube(ctx, dict(cfg, col=col), seen))):
        ts = list(m.generate_experimental_design_config(seed=4))
    rows = 100
    ctx.check(seen == [(7, rows)] and len(ts) == rows, X + "one trial per sample")
    look = [
        ("modeling_strategies", lambda t: t.modeling_strategy),
        ("campaign_spend_fractions", lambda t: t.system_params.campaign_spend_fractions),
        ("liquid_legions_params", lambda t: t.system_params.liquid_legions),
        ("privacy_budgets", lambda t: t.experiment_params.privacy_budget),
        ("replica_ids", lambda t: t.experiment_params.replica_id),
        ("max_frequencies", lambda t: t.experiment_params.max_frequency),
        ("test_point_strategies", lambda t: (t.experiment_params.test_point_strategy, t.experiment_params.test_point_strategy_kwargs)),
    ]
    for i, t in enumerate(ts):
        valid_exp(ctx, t)
        ctx.check(len(t.system_params.campaign_spend_fractions) == 2 and all([0 < f <= 1 for f in t.system_params.campaign_spend_fractions]), X + "one spend fraction per publisher, between nothing and everything")
        ctx.check(t.system_params.generator.random() == np.random.default_rng(4).random(), X + "trials are seeded with the seed given")
        for j, (key, get) in enumerate(look):
            levels = m.LEVELS[key]
            u = ctx_value(ctx) if (i, j) == (cfg.get("row", 0), col) else entry(cfg, i, j, rows)
            idx = [k for k, l in enumerate(levels) if l == get(t)]
            ctx.check(len(idx) >= 1, X + "a sample's level is one of its factor's")
            ctx.check(lor(*[land(u * len(levels) >= k, u * len(levels) < k + 1) for k in idx]), X + "a sample has the level of its slice")


def repeat(ctx, cfg):
    """With the real sampler: the same seed gives the same design, whatever was drawn before."""
    seed = ctx.choose("seed", [1, 5])
    runs = []
    m = exp_module(cfg["design"]) if cfg["kind"] == "exp" else data_module(cfg["design"])
    for state in (None, 3, 8):
        if cfg["kind"] == "exp":
            np.random.seed(state if state is not None else 100)
            np.random.random(5)
            runs.append([str(t) for t in m.generate_experimental_design_config(seed=seed)])
        else:
            np.random.seed(seed)
            runs.append([str(p) for p in m.generate_data_design_config(np.random.default_rng(seed))])
    ctx.check(runs[0] == runs[1] == runs[2] and len(runs[0]) > 0, (X if cfg["kind"] == "exp" else D) + "the same seed gives the same design")


ASSUMPTIONS = [
    "the Latin hypercube sampler (pyDOE) is a stand-in with an arbitrary entry at an arbitrary place of one row; the reproducibility scenarios run the real one",
    "sampled data designs are reproducible given numpy's global random state, which the data design generator seeds",
]
OUTSIDE = "user-written designs; the statistical adequacy of the designs; sizes of the data sets themselves (generators are built at a small scale)"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("data-product", product_data, {}, "all shipped product data designs"),
        Scenario("data-lhs", sampled_data, {"design": "lhs_data_design_example", "row": 0}, "every factor, any sample in the first row"),
        Scenario("data-lhs-9", sampled_data, {"design": "lhs_data_design_example", "row": 9}, "every factor, any sample in the last row"),
        Scenario("data-m3", sampled_data, {"design": "m3_data_design", "row": 0}, "every factor, any sample in the first row"),
        Scenario("data-m3-57", sampled_data, {"design": "m3_data_design", "row": 57}, "every factor, any sample in another row"),
        Scenario("data-m3-same", sampled_data, {"design": "m3_data_design", "row": 3, "diagonal": True}, "neighbouring samples have the same levels"),
        Scenario("data-lhs-same", sampled_data, {"design": "lhs_data_design_example", "row": 3, "diagonal": True}, "neighbouring samples have the same levels"),
        Scenario("exp-m3", product_exp, {"design": "m3_first_round_experimental_design"}, "1 to 5 publishers"),
        Scenario("exp-analysis", product_exp, {"design": "analysis_example_experimental_design"}, "1 to 5 publishers"),
        Scenario("exp-single", product_exp, {"design": "single_publisher_design"}, "1 publisher"),
        Scenario("exp-sample", sampled_exp, {"row": 0}, "every factor, any sample in the first row", budget=300),
        Scenario("repeat-sample", repeat, {"kind": "exp", "design": "sample_experimental_design"}, "2 seeds, 3 earlier states"),
        Scenario("repeat-m3", repeat, {"kind": "data", "design": "m3_data_design"}, "2 seeds"),
        Scenario("repeat-lhs", repeat, {"kind": "data", "design": "lhs_data_design_example"}, "2 seeds"),
    ]
    if T:
        out += [Scenario("exp-sample-%d" % r, sampled_exp, {"row": r}, "every factor, any sample in row %d" % r, budget=300) for r in (33, 99)]
    return out
