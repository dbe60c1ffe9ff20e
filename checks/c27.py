"""C27: results of trials survive crashes, are computed once, and do not depend on other trials."""
import numpy as np

from symex.api import *
from checks import trials as TR

from checks import halo as H
from checks.memfs import Crash, MemFS
from checks.naming import same_text
from checks.trials import cell, isnan
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.simulator.privacy_tracker import NoisingEvent, PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

M = "kept results: "


class Boom(Exception):
    pass


def same_rows(ctx, a, b, label):
    """Equal up to the rounding of numbers read from text; an empty text is read as no value."""
    ctx.check(len(a) == len(b), label)
    ctx.check(list(a.columns) == list(b.columns), label)
    for c in a.columns:
        for x, y in zip(a[c].tolist(), b[c].tolist()):
            x = "" if isnan(x) else x
            y = "" if isnan(y) else y
            if isinstance(x, float) and isinstance(y, float):
                ctx.check(x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x)), label)
            else:
                ctx.check(same_text(ctx, str(x), str(y)), label)


def make(ctx, cfg, fs):
    """A trial whose fitted reaches are arbitrary (cfg['sym']) or fixed."""
    ds = TR.data_set(cfg.get("sizes", (4,)), "ds")

    def answer(spends, k):
        return [cfg["value"] / (j + 1) for j in range(k)]

    surface = TR.Surface(answer, [ReachPoint([2], [2, 1], [1.0])])

    def fit(halo, params, budget):
        if cfg.get("fail"):
            raise Boom('first line\n"quoted", second line\n\nthird\n')
        return surface

    st = TR.Strategy(fit)
    TR.Params.script = staticmethod(lambda d, rng: [[1.5] * len(cfg.get("sizes", (4,)))])
    desc = TrialDescriptor(st, SystemParameters([0.5] * len(cfg.get("sizes", (4,))), LiquidLegionsParameters(), H.Generator(ctx)), TR.Params(PrivacyBudget(1.0, 0.25), 1, cfg.get("F", 2), "grid", {}))
    return st, ExperimentalTrial(cfg.get("dir", "/x/exp"), TR.Design([ds]), "ds", desc, cfg.get("analysis", "")), cfg.get("dir", "/x/exp") + "/ds/" + str(desc) + ".csv"


class Once(object):
    """Stops the process at the n-th operation, after a prefix of what it writes."""

    def __init__(self, n, keep):
        self.n, self.keep, self.seen = n, keep, 0

    def __call__(self, fs):
        def hook(kind, path, data=None):
            self.seen += 1
            if self.seen - 1 == self.n:
                if kind == "write" and self.keep:
                    fs.files[path] += data[: self.keep]
                raise Crash()
            return None

        return hook


def operations(ctx, cfg):
    """The file system operations of an undisturbed run."""
    fs = MemFS()
    ops = []
    fs.on_event = lambda kind, path, data=None: ops.append((kind, path, len(data) if data else 0)) and None
    st, trial, path = make(ctx, cfg, fs)
    df = trial.evaluate(1, fs)
    return df, ops, fs, path


def pick(ctx, name, xs):
    """Any one of them (two arbitrary digits)."""
    blocks = [xs[i : i + 32] for i in range(0, len(xs), 32)]
    return ctx.choose(name + "_lo", ctx.choose(name, blocks))


def crash(ctx, cfg):
    """A run stops anywhere in its writing; the next run gives the full result."""
    cfg = dict(cfg, value=cfg.get("value", 3.7251))
    ref, ops, rfs, path = operations(ctx, cfg)
    points = []
    for i, (kind, p, n) in enumerate(ops):
        if kind == "write" and p == path:
            lo, hi = int(n * cfg["part"][0]), int(n * cfg["part"][1]) + 1
            points += [(i, k) for k in range(lo, min(hi, n))]
        elif cfg.get("rest"):
            points += [(i, k) for k in ([0] if kind != "write" else [0, 1, n // 2, n - 1])]
    if cfg.get("rest"):
        points.append((10 ** 6, 0))
    crashes = [pick(ctx, "at", points)]
    if cfg.get("twice"):
        crashes.append(pick(ctx, "at2", points))
    fs = MemFS()
    for at in crashes:
        fs.on_event = Once(*at)(fs)
        st, trial, _ = make(ctx, cfg, fs)
        try:
            trial.evaluate(1, fs)
        except Crash:
            pass
    fs.on_event = None
    st, trial, _ = make(ctx, cfg, fs)
    df = trial.evaluate(1, fs)
    same_rows(ctx, ref, df, M + "after a crash anywhere in writing it, the result is the one of an undisturbed run")
    st, trial, _ = make(ctx, cfg, fs)
    again = trial.evaluate(1, fs)
    ctx.check(st.fits == 0, M + "a finished result is not computed again")
    same_rows(ctx, ref, again, M + "a finished result is returned as it was computed")


def once(ctx, cfg):
    """Arbitrary values are saved and read back; the model is not fitted again."""
    v = ctx.real("value", 0, 1000)
    fs = MemFS()
    c = dict(cfg, value=v)
    st, trial, path = make(ctx, c, fs)
    a = trial.evaluate(1, fs)
    ctx.check(st.fits == 1, M + "the model is fitted once")
    for _ in range(cfg.get("times", 2)):
        st, trial, _ = make(ctx, c, fs)
        b = trial.evaluate(ctx.choose("seed", [1, 2]) if _ else 1, fs)
        ctx.check(st.fits == 0, M + "a finished result is not computed again")
        same_rows(ctx, a, b, M + "a finished result is returned as it was computed")
    ctx.check(sorted(fs.files) == [path], M + "nothing but results is left behind")


def garbage(ctx, cfg):
    """A file that is no result at its place is replaced."""
    fs = MemFS()
    c = dict(cfg, value=2.5)
    ref, _, rfs, path = operations(ctx, c)
    fs.mkdir("/x/exp/ds", parents=True)
    fs.files[path] = ctx.choose("junk", ["", "\n", "a,b,c", "a,b\n", 'a,"b', rfs.files[path].split("\n")[0] + "\n", rfs.files[path] * 2, rfs.files[path][:-1]])
    st, trial, _ = make(ctx, c, fs)
    df = trial.evaluate(1, fs)
    same_rows(ctx, ref, df, M + "a file that is not a complete result is replaced by one")
    ctx.check(fs.files[path] == rfs.files[path], M + "a file that is not a complete result is replaced by one")


def others(ctx, cfg):
    """What a trial gives does not depend on the trials run before it."""
    n = cfg["n"]

    def design(fs):
        ds = [TR.data_set((4,), "a"), TR.data_set((5,), "b")][: cfg.get("sets", 1)]
        if cfg.get("shared") == "default":
            params = [SystemParameters([0.5])] * n
        else:
            gen = np.random.default_rng(9)
            params = [SystemParameters([0.25 * (1 + i)], LiquidLegionsParameters(), gen) for i in range(n)]
        TR.Params.script = staticmethod(lambda d, rng: [[1.5], [2.0 * float(rng.random())]])
        drawn = {}

        def fit(halo, prm, budget):
            a, b = float(prm.generator.random()), float(np.random.random())
            return TR.Surface(lambda spends, k: [8 * a + b] * k, [ReachPoint([2], [1], [1.0])])

        descs = [TrialDescriptor(TR.Strategy(fit, "s%d" % i), params[i], TR.Params(PrivacyBudget(1.0, 0.25), i, 1, "grid", {})) for i in range(n)]
        d = ExperimentalDesign("/x/exp", TR.Design(ds), descs, seed=3, filesystem=fs)
        return d.generate_trials()

    compare(ctx, design, n * cfg.get("sets", 1))


def compare(ctx, design, total):
    """One of the trials, run in a process of its own and after any of the others."""
    target = ctx.choose("target", list(range(total)))
    ref_fs = MemFS()
    ref = design(ref_fs)[target].evaluate(3, ref_fs)
    fs = MemFS()
    # some were finished by an earlier process, some run before the target in this one
    how = [ctx.choose("how%d" % i, ["not", "before", "earlier"]) for i in range(total) if i != target]
    how.insert(target, "not")
    if "earlier" in how:
        fresh()
        first = design(fs)
        for i, h in enumerate(how):
            if h == "earlier":
                first[i].evaluate(3, fs)
    fresh()
    ts = design(fs)
    ctx.check(len(ts) == total, M + "one trial per data set and descriptor")
    order = list(range(total))
    if ctx.choose("order", ["up", "down"]) == "down":
        order.reverse()
    for i in order:
        if how[i] in ("before", "earlier"):
            ts[i].evaluate(3, fs)
    got = ts[target].evaluate(3, fs)
    same_rows(ctx, ref, got, M + "the result of a trial does not depend on the trials run before it")


# what two trials may differ in
PARTS = {
    "points": [("grid", {"grid_size": 3}), ("grid", {"grid_size": 4})],
    "strategy of points": [("grid", {"grid_size": 3}), ("uniformly_random", {"npoints": 2, "minimum_points_per_publisher": 3})],
    "number of points": [("uniformly_random", {"npoints": 101, "minimum_points_per_publisher": 3}), ("uniformly_random", {"npoints": 103, "minimum_points_per_publisher": 3})],
    "F": [2, 5],
    "eps": [1.0, 2.0],
    "delta": [0.25, 0.125],
    "replica": [1, 2],
    "spends": [0.25, 0.75],
    "decay": [12, 10],
    "size": [1000, 500],
    "seed": [1, 2],
    "strategy": ["s", "t"],
    "single": ["curve", "curve2"],
    "multi": ["surface", "surface2"],
    "data": [0, 1],
}


def alike(ctx, cfg):
    """Two trials that are the same but for one part; the strategy measures and models by all its parts."""
    part = ctx.choose("part", sorted(PARTS))

    def design(fs):
        sets = [TR.data_set((4,), "a"), TR.data_set((5,), "b")]
        out = []
        for i in range(2):
            v = {k: (PARTS[k][i] if k == part else PARTS[k][0]) for k in PARTS}
            pts = v["points"] if part == "points" else v["number of points"] if part == "number of points" else v["strategy of points"]

            def fit(halo, params, budget, v=v):
                p = halo.campaign_spends
                halo.privacy_tracker.append(NoisingEvent(budget, "m", {}))
                x = params.liquid_legions.decay_rate + params.liquid_legions.sketch_size + params.liquid_legions.random_seed + float(params.generator.random()) + float(np.random.random()) + budget.epsilon + budget.delta + sum(p)
                x += len(v["strategy"] + v["single"] + v["multi"])
                return TR.Surface(lambda spends, k: [x / (j + 1) + sum(spends) for j in range(k)], [ReachPoint([2], [1], [1.0])])

            desc = TrialDescriptor(
                TR.Strategy(fit, v["strategy"], v["single"], v["multi"]),
                SystemParameters([v["spends"]], LiquidLegionsParameters(v["decay"], v["size"], v["seed"]), np.random.default_rng(9)),
                ExperimentParameters(PrivacyBudget(v["eps"], v["delta"]), v["replica"], v["F"], pts[0], pts[1]),
            )
            d = ExperimentalDesign("/x/exp", TR.Design(sets[v["data"] : v["data"] + 1]), [desc], seed=3, filesystem=fs, analysis_type=cfg.get("analysis", ""))
            out += d.generate_trials()
        return out

    compare(ctx, design, 2)


ASSUMPTIONS = [
    "a file written is a prefix of its text after a crash; files are held in memory; directories survive",
    "the modeling strategy is scripted (it draws from the generators of the trial in the independence scenarios)",
]
OUTSIDE = "concurrent evaluation of the same trial by two processes; crash points inside the pending marker are sampled at its start, middle and end; more than two crashes; file systems that lose or reorder completed writes"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    parts = 6 if not T else 12
    for i in range(parts):
        out.append(Scenario("crash-%d" % i, crash, {"part": (i / parts, (i + 1) / parts)}, "every prefix of the result's text, part %d of %d" % (i + 1, parts)))
    out += [
        Scenario("crash-rest", crash, {"part": (0, 0), "rest": True}, "every other operation"),
        Scenario("crash-rest-2", crash, {"part": (0.9, 1.0), "rest": True, "twice": True} if T else {"part": (0.998, 1.0), "rest": True, "twice": True}, "two crashes"),
        Scenario("crash-fail", crash, {"part": (0.35, 1.0), "fail": True} if T else {"part": (0.9, 1.0), "fail": True}, "a failed trial with a text of several lines"),
        Scenario("once", once, {"F": 3}, "an arbitrary value"),
        Scenario("once-fail", once, {"fail": True}, "a failed trial"),
        Scenario("once-single", once, {"analysis": "single_pub"}, "single publisher analysis"),
        Scenario("garbage", garbage, {}, "8 broken files"),
        Scenario("others-2", others, {"n": 2}, "2 trials, one generator given to both"),
        Scenario("others-3", others, {"n": 3}, "3 trials, one generator given to all"),
        Scenario("others-default", others, {"n": 2, "shared": "default"}, "2 trials, the default generator"),
        Scenario("alike", alike, {}, "2 trials that differ in any one part of their configuration"),
        Scenario("alike-single", alike, {"analysis": "single_pub"}, "the same with the single publisher analysis"),
        Scenario("others-sets", others, {"n": 1, "sets": 2}, "2 data sets"),
    ]
    return out
