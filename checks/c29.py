"""C29: the name of a trial identifies its configuration, and the configuration is what is run."""
import numpy as np

from symex.api import *
from checks import trials as TR
from checks.curves import refuses
from checks.memfs import MemFS
from checks.naming import same_text
from checks import halo as H
from wfa_planning_evaluation_framework.driver import modeling_strategy_descriptor as MD
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import RestrictedPairwiseUnionReachSurface
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

M = "names: "
BASE = dict(
    strategy="m3strategy", skw={}, single="goerg", single_kw={}, multi="pairwise_union", multi_kw={},
    spends=[0.5, 0.25], decay=12, size=1000, seed=1, eps=1.0, delta=0.25, replica=1, F=5, points="grid", points_kw={"grid_size": 3}, dataset="ds",
)
# alternatives for the parts of a name that are words or collections
WORDS = {
    "strategy": ["m3strategy", "single_publisher"],
    "skw": [{}, {"use_ground_truth_for_reach_curves": True}, {"use_ground_truth_for_reach_curves": False}],
    "single": ["goerg", "gamma_poisson", "kinflated_gamma_poisson"],
    "single_kw": [{}, {"extrapolation_multiplier": 2.0}, {"extrapolation_multiplier": 20.0}, {"a": 1, "b": 2, "c": 3}, {"a": 1, "b": 2, "c": 4}, {"a": 1, "b": 3, "c": 3}, {"a": 2, "b": 2, "c": 3}],
    "multi": ["pairwise_union", "restricted_pairwise_union", "none"],
    "multi_kw": [{}, {"x": 1}, {"y": 1}, {"x": 1, "y": 1}, {"x": 1, "y": 1, "z": 1}, {"x": 1, "y": 1, "z": 2}, {"x": 1, "y": 2, "z": 1}, {"x": 2, "y": 1, "z": 1}, {"x": True}, {"X": 1}],
    "spends": [[0.5], [0.25], [0.5, 0.25], [0.25, 0.5], [0.5, 0.5], [0.5, 0.25, 0.25], [0.5, 0.25, 0.25, 0.5, 0.25], [0.5, 0.25, 0.5, 0.25, 0.25], [0.5, 0.25, 0.25, 0.25, 0.5]],
    "points": ["grid", "uniformly_random", "latin_hypercube"],
    "points_kw": [{}, {"grid_size": 3}, {"npoints": 3}, {"npoints": 3, "npublishers": 2}, {"npoints": 32}, {"npoints": 3, "npublishers": 2, "minimum_points_per_publisher": 5}, {"npoints": 3, "npublishers": 2, "minimum_points_per_publisher": 6}, {"npoints": 4, "npublishers": 2, "minimum_points_per_publisher": 5}, {"npoints": 3, "npublishers": 3, "minimum_points_per_publisher": 5}],
    "dataset": ["ds", "ds2", "d", "DS", "2ds"],
}


def descriptor(v):
    return TrialDescriptor(
        ModelingStrategyDescriptor(v["strategy"], v["skw"], v["single"], v["single_kw"], v["multi"], v["multi_kw"]),
        SystemParameters(v["spends"], LiquidLegionsParameters(v["decay"], v["size"], v["seed"])),
        ExperimentParameters(PrivacyBudget(v["eps"], v["delta"]), v["replica"], v["F"], v["points"], v["points_kw"]),
    )


def where(ctx, v):
    """The file a trial writes its result to."""
    fs = MemFS()
    d = descriptor(v)

    class Stop(BaseException):
        pass

    class Data(object):
        def by_name(self, name):
            raise Stop()

    seen = []
    fs.is_file = lambda p: seen.append(p) or False
    try:
        ExperimentalTrial("/x/exp", Data(), v["dataset"], d).evaluate(1, fs)
    except Stop:
        pass
    ctx.check(len(seen) >= 1, M + "a trial looks for its earlier result")
    return seen[0]


def numbers(ctx, cfg):
    """Two trials that differ in a number have different names."""
    a, b = dict(BASE), dict(BASE)
    diff = []
    for f in cfg["fields"]:
        lo, hi, kind = {"decay": (1, 100, "int"), "size": (1, 10 ** 6, "int"), "seed": (0, 10 ** 6, "int"), "eps": (0, 1000, "real"), "delta": (0, 1, "real"), "replica": (0, 10 ** 6, "int"), "F": (1, 100, "int"), "spends": (0, 1, "real"), "grid_size": (1, 1000, "int"), "multiplier": (1, 100, "real")}[f]
        x = ctx.int(f + "a", lo, hi) if kind == "int" else ctx.real(f + "a", lo, hi)
        y = ctx.int(f + "b", lo, hi) if kind == "int" else ctx.real(f + "b", lo, hi)
        diff.append(lnot(x == y))
        if f == "spends":
            a["spends"], b["spends"] = [0.5, x, 0.25], [0.5, y, 0.25]
        elif f == "grid_size":
            a["points_kw"], b["points_kw"] = {"grid_size": x}, {"grid_size": y}
        elif f == "multiplier":
            a["single_kw"], b["single_kw"] = {"extrapolation_multiplier": x}, {"extrapolation_multiplier": y}
        else:
            a[f], b[f] = x, y
    ctx.assume(lor(*diff))
    label = M + ("trials that differ in the seed of their sketches" if cfg["fields"] == ["seed"] else "trials that differ in a number") + " keep their results apart"
    ctx.check(lnot(same_text(ctx, str(descriptor(a)), str(descriptor(b)))), label)
    if cfg.get("files", True):
        ctx.check(lnot(same_text(ctx, where(ctx, a), where(ctx, b))), label)


def words(ctx, cfg):
    """Two trials that differ in a word, list or set of arguments have different names."""
    a, b = dict(BASE), dict(BASE)
    f = ctx.choose("field", sorted(WORDS))
    i = ctx.choose("a", list(range(len(WORDS[f]))))
    j = ctx.choose("b", list(range(len(WORDS[f]))))
    a[f], b[f] = WORDS[f][i], WORDS[f][j]
    x, y = where(ctx, a), where(ctx, b)
    ctx.check((x == y) == (i == j), M + "trials that differ in what is run keep their results apart, others share them")
    ctx.check(("/" + a["dataset"] + "/") in x and x.endswith(".csv") and x.startswith("/x/exp/"), M + "results are kept by data set")


def swapped(ctx, cfg):
    """Values do not move between the parts of a name."""
    a, b = dict(BASE), dict(BASE)
    x, y = ctx.real("x", 0, 1), ctx.real("y", 0, 1)
    ctx.assume(lnot(x == y))
    p = ctx.choose("pair", ["eps-delta", "spends", "decay-size", "replica-F"])
    if p == "eps-delta":
        a["eps"], a["delta"], b["eps"], b["delta"] = x, y, y, x
    elif p == "spends":
        a["spends"], b["spends"] = [x, y], [y, x]
    elif p == "decay-size":
        a["decay"], a["size"], b["decay"], b["size"] = x, y, y, x
    else:
        a["replica"], a["F"], b["replica"], b["F"] = x, y, y, x
    ctx.check(lnot(same_text(ctx, str(descriptor(a)), str(descriptor(b)))), M + "trials that differ in a number keep their results apart")


def runs(ctx, cfg):
    """The strategy instantiated is the one named, with the models and arguments named."""
    R = "strategies: "
    made = []

    class Spy(object):
        def __init__(self, *a, **kw):
            made.append((a, kw))

    sp = ctx.choose("strategy", ["m3strategy", "single_publisher"])
    s = ctx.choose("single", ["goerg", "gamma_poisson", "kinflated_gamma_poisson"])
    m = ctx.choose("multi", ["pairwise_union", "restricted_pairwise_union", "none"])
    skw, mkw = {"p": 1}, {"q": 2}
    kw = {"use_ground_truth_for_reach_curves": True} if sp == "m3strategy" else {}
    d = ModelingStrategyDescriptor(sp, kw, s, skw, m, mkw)
    real = d.instantiate_strategy()
    ctx.check(type(real) is {"m3strategy": M3Strategy, "single_publisher": SinglePublisherStrategy}[sp], R + "the strategy named is the one used")
    if hasattr(MD, "MODELING_STRATEGIES"):
        table = dict(MD.MODELING_STRATEGIES)
        MD.MODELING_STRATEGIES[sp] = Spy
        try:
            d.instantiate_strategy()
        finally:
            MD.MODELING_STRATEGIES[sp] = table[sp]
        names = ["single_pub_model", "single_pub_model_kwargs", "multi_pub_model", "multi_pub_model_kwargs"]
        a, k = made[0]
        got = dict(zip(names, a))
        got.update(k)
        ctx.check(got.get(names[0]) is {"goerg": GoergModel, "gamma_poisson": GammaPoissonModel, "kinflated_gamma_poisson": KInflatedGammaPoissonModel}[s], R + "the single publisher model named is the one used")
        ctx.check(got.get(names[2]) is {"pairwise_union": PairwiseUnionReachSurface, "restricted_pairwise_union": RestrictedPairwiseUnionReachSurface, "none": None}[m], R + "the multi publisher model named is the one used")
        ctx.check(got.get(names[1]) == skw and got.get(names[3]) == mkw, R + "models get their own arguments")
        ctx.check({x: k[x] for x in k if x not in names} == kw, R + "the strategy gets its arguments")
    for f in ("strategy", "single", "multi"):
        bad = dict(strategy=sp, single=s, multi=m)
        bad[f] = "nonesuch"
        refuses(ctx, lambda: ModelingStrategyDescriptor(bad["strategy"], kw, bad["single"], skw, bad["multi"], mkw).instantiate_strategy(), R + "an unknown name is refused", (KeyError, ValueError))


def updated(ctx, cfg):
    """Parameters made for a data set keep everything that does not depend on it."""
    p = cfg["p"]
    x, seed, decay, size = ctx.real("x", 0, 1), ctx.int("seed", 0, 1000), ctx.int("decay", 1, 100), ctx.int("size", 1, 10 ** 6)
    eps, dlt, rep, F = ctx.real("eps", 0, 100), ctx.real("delta", 0, 1), ctx.int("rep", 0, 100), ctx.int("F", 1, 100)
    ds = TR.data_set([3] * p, "ds")
    fixed = ctx.choose("fixed", [False, True])
    n = ctx.int("npoints", 1, 1000)
    kw = ctx.choose("kw", ["with", "without"])
    kwargs = {"npoints": n, "npublishers": 99} if kw == "with" else {"npoints": n}
    asked = []
    sysp = SystemParameters([x] * p, LiquidLegionsParameters(decay, size, seed), np.random.default_rng(3), None if fixed else (lambda d: asked.append(d) or [x / (i + 1) for i in range(d.publisher_count)]))
    t = TrialDescriptor(ModelingStrategyDescriptor("m3strategy", {"a": 1}, "goerg", {"b": 2}, "none", {"c": 3}), sysp, ExperimentParameters(PrivacyBudget(eps, dlt), rep, F, "uniformly_random", kwargs))
    u = t.update_from_dataset(ds)
    L = "parameters for a data set: "
    ctx.check(len(u.system_params.campaign_spend_fractions) == p, L + "one spend fraction per publisher")
    for i, f in enumerate(u.system_params.campaign_spend_fractions):
        ctx.check_eq(f, x if fixed else x / (i + 1), L + "the spend fractions are those for the data set")
    if not fixed:
        ctx.check(all([d is ds for d in asked]) and asked, L + "the spend fractions are those for the data set")
    l = u.system_params.liquid_legions
    for got, want in [(l.decay_rate, decay), (l.sketch_size, size), (l.random_seed, seed), (u.experiment_params.privacy_budget.epsilon, eps), (u.experiment_params.privacy_budget.delta, dlt), (u.experiment_params.replica_id, rep), (u.experiment_params.max_frequency, F), (u.experiment_params.test_point_strategy_kwargs["npoints"], n)]:
        ctx.check_eq(got, want, L + "the rest is kept")
    ctx.check(u.experiment_params.test_point_strategy == "uniformly_random" and tuple(u.modeling_strategy) == tuple(t.modeling_strategy), L + "the rest is kept")
    ctx.check(u.experiment_params.test_point_strategy_kwargs.get("npublishers") == (p if kw == "with" else None), L + "the number of publishers is that of the data set, where it is asked for")
    ctx.check(t.experiment_params.test_point_strategy_kwargs.get("npublishers") == (99 if kw == "with" else None) and len(t.system_params.campaign_spend_fractions) == p, L + "the design is not changed")
    ref = np.random.default_rng(3).random(4).tolist()
    ctx.check([float(v) for v in u.system_params.generator.random(4)] == ref, L + "the generator is in the state given")
    ctx.check([float(v) for v in t.update_from_dataset(ds).system_params.generator.random(4)] == ref, L + "trials do not share a generator")


ASSUMPTIONS = ["two printed numbers are the same text exactly when the numbers (after the rounding their format asks for) are the same"]
OUTSIDE = "names of data sets and arguments that contain separators such as commas or slashes; results of runs with different seeds or analysis types in the same directory (documented to be shared: only the configuration is in the name)"


def scenarios(tier):
    nums = ["decay", "size", "eps", "delta", "replica", "F", "spends", "grid_size", "multiplier"]
    out = [Scenario("number-" + f, numbers, {"fields": [f]}, "any two values") for f in nums]
    out += [
        Scenario("number-seed", numbers, {"fields": ["seed"], "files": False}, "any two seeds"),
        Scenario("number-all", numbers, {"fields": nums, "files": False}, "any two values of all numbers at once"),
        Scenario("words", words, {}, "any two of the alternatives, in one place"),
        Scenario("swapped", swapped, {}, "values exchanged between two places"),
        Scenario("runs", runs, {}, "every strategy and model"),
        Scenario("updated-1", updated, {"p": 1}, "1 publisher"),
        Scenario("updated-3", updated, {"p": 3}, "3 publishers"),
        Scenario("updated-12", updated, {"p": 12}, "12 publishers"),
    ]
    return out
