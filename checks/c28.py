"""C28: an experimental design runs every trial on every data set once, however it is run."""
import csv
import io
import os

import numpy as np

from symex.api import *
from checks import trials as TR
from checks.memfs import MemFS
from checks.trials import cell, isnan
import apache_beam as beam
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.driver import experiment_driver as ED
from wfa_planning_evaluation_framework.driver import experimental_design as XD
from wfa_planning_evaluation_framework.driver.experiment import Experiment
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

M = "design: "
CONFIG = os.path.join(os.path.dirname(os.path.abspath(__file__)), "experiment_config.py")
CURRENT = [None]
PUBS = {"a": (4,), "b": (5, 3), "c": (2, 2, 3), "d": (3,), "A": (4,), "a1": (4,), "a ": (4,), "1": (4,), "01": (4,)}


def descriptor(fit, strategy, fraction, eps, replica, F=2, points=("grid", {"grid_size": 2}), decay=12, log=None):
    """A descriptor whose spends and test points depend on the data set."""

    def fractions(ds):
        if log is not None:
            log.append(ds.publisher_count)
        return [fraction] * ds.publisher_count

    return TrialDescriptor(
        TR.Strategy(fit, strategy),
        SystemParameters(liquid_legions=LiquidLegionsParameters(decay, 1000), generator=np.random.default_rng(5), campaign_spend_fractions_generator=fractions),
        ExperimentParameters(PrivacyBudget(eps, 0.25), replica, F, *points),
    )


def fitter(fits, value=None):
    def fit(halo, params, budget):
        fits.append(1)
        x = float(params.generator.random()) if value is None else value
        return TR.Surface(lambda spends, k: [x * (len(spends) + 1)] * k, [ReachPoint([2], [1], [1.0])])

    return fit


def trials(ctx, cfg):
    """Every data set meets every descriptor once, with parameters made for it."""
    sets = cfg["sets"]
    design = TR.Design([TR.data_set(PUBS[n], n) for n in sets])
    asked = []
    eps = [ctx.choose("eps%d" % i, [1.0, 2.0]) for i in range(cfg["n"])]
    rep = [ctx.choose("rep%d" % i, [1, 2]) if i < cfg.get("reps", 2) else 1 for i in range(cfg["n"])]
    points = ("uniformly_random", {"npoints": 7, "npublishers": 1})
    ds = [descriptor(fitter([]), "s", 0.5, eps[i], rep[i], points=points, log=asked) for i in range(cfg["n"])]
    before = [str(d) for d in ds]
    x = XD.ExperimentalDesign("/x/exp", design, ds, filesystem=MemFS())
    ts = x.generate_trials()
    want = {}
    for name in sets:
        for i in range(cfg["n"]):
            n = len(PUBS[name])
            want.setdefault("%s::s,curve,surface,spends=(%s),decay_rate=12,sketch_size=1000,epsilon=%s,delta=0.25,replica_id=%d,max_frequency=2,test_point_strategy=uniformly_random(npoints=7,npublishers=%d)" % (name, ",".join(["0.5"] * n), eps[i], rep[i], n), []).append(i)
    got = sorted([t._compute_trial_results_path() for t in ts]) if all([hasattr(t, "_compute_trial_results_path") for t in ts]) else None
    ctx.check(len(ts) == len(want), M + "every data set meets every descriptor once; the same trial is not run twice")
    if got is not None:
        ctx.check(got == sorted(["/x/exp/%s.csv" % k.replace("::", "/") for k in want]), M + "spends and test points are those for the trial's data set")
    ctx.check([str(d) for d in ds] == before, M + "making trials for a data set does not change the design")


def fill(fs, sets):
    d = DataDesign("/data", fs)
    for n in sets:
        d.add(TR.data_set(PUBS[n], n))
    return d


class Pool(object):
    """Stands for the pool of processes: tasks run in any order, results are not shared."""

    order = None
    used = 0

    def __init__(self, nodes=None, *a, **kw):
        Pool.used += 1
        if nodes is not None and nodes < 1:
            raise ValueError("Number of processes must be at least 1")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def uimap(self, f, xs, *a):
        return [f(x) for x in Pool.order(list(xs))]

    imap = map = uimap


def rows(df):
    out = []
    names = list(df.columns)
    cols = [df[c].tolist() for c in names]
    for i in range(len(df)):
        r = {}
        for c, col in zip(names, cols):
            v = col[i]
            r[c] = "" if isnan(v) else round(v, 9) if isinstance(v, float) else v
        out.append(r)
    return sorted(out, key=lambda r: (str(r.get("dataset")), str(r.get("trial"))))


def permute(ctx, name, n):
    ps = [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0], list(range(0, n, 2)) + list(range(1, n, 2))]
    return ctx.choose(name, ps)


def run(ctx, cfg):
    """Results do not depend on whether trials run one by one, in parallel or distributed, or on what was finished before."""
    sets, n = cfg["sets"], cfg["n"]
    total = len(sets) * n

    def design(fs, cores=1):
        fits = []
        fit = fitter(fits)

        def odd(halo, params, budget):
            fits.append(1)
            raise ValueError("no, model\nhere")

        ds = [descriptor(odd if i == cfg.get("failing") else fit, "s%d" % i, 0.25 * (i + 1), 1.0, 1, points=("uniformly_random", {"npoints": 3, "npublishers": 1, "minimum_points_per_publisher": 4})) for i in range(n)]
        return fits, XD.ExperimentalDesign("/x/exp", fill(fs, sets) if not fs.exists("/data") else DataDesign("/data", fs), ds, seed=3, cores=cores, filesystem=fs)

    quiet = [(XD, "tqdm", lambda xs, *a, **kw: xs)] if hasattr(XD, "tqdm") else []
    with patched(*(quiet + ([(XD, "ProcessPool", Pool)] if hasattr(XD, "ProcessPool") else []))):
        fs = MemFS()
        fits, d = design(fs)
        ref = d.load()
        ctx.check(len(ref) == total, M + "one row per data set and descriptor")
        keys = set([(r["dataset"], r["trial"]) for r in rows(ref)])
        ctx.check(len(keys) == total, M + "one row per data set and descriptor")
        ctx.check(sorted(set([k[0] for k in keys])) == sorted(sets), M + "every data set has its rows")
        ctx.check(len(fits) == total, M + "every trial is run once")
        for r in rows(ref):
            ctx.check(r["ncampaigns"] == len(PUBS[r["dataset"]]), M + "a row is about its data set")
            ctx.check(r["model_succeeded"] == (0 if r["strategy"] == "s%s" % cfg.get("failing") else 1), M + "a failing trial does not affect others")
        how = ctx.choose("how", cfg["how"])
        fs2 = MemFS()
        pre = ctx.choose("finished", cfg.get("finished", [0]))
        if pre:
            _, d0 = design(fs2)
            for t in d0.generate_trials()[:pre]:
                t.evaluate(3, fs2)
        Pool.used = 0
        if how == "pool":
            order = permute(ctx, "order", total)
            Pool.order = staticmethod(lambda xs: [xs[i] for i in order])
            fits2, d2 = design(fs2, cores=ctx.choose("cores", [0, 3]))
            got = d2.load()
            if hasattr(XD, "ProcessPool"):
                ctx.check(Pool.used == 1, M + "parallel runs use a pool")
        elif how == "beam":
            cut = ctx.choose("cut", list(range(total + 1)))
            order = permute(ctx, "order", total)
            swap = ctx.choose("swap", [False, True])

            def split(es):
                es = [es[i] for i in order]
                parts = [es[:cut], es[cut:]]
                return parts[::-1] if swap else parts

            beam.SPLITS[0] = split
            fits2, d2 = design(fs2)
            opts = XD.PipelineOptions(["--temp_location=/x/exp"])
            fs2.mkdir("/x/exp", parents=True, exist_ok=True)
            got = d2.load(use_apache_beam=True, pipeline_options=opts)
            beam.SPLITS[0] = None
        else:
            fits2, d2 = design(fs2)
            got = d2.load()
        ctx.check(len(fits2) == total - pre, M + "finished trials are not run again")
        same(ctx, rows(ref), rows(got), M + "the results are the same however the trials are run")
        again = design(fs2)
        same(ctx, rows(ref), rows(again[1].load()), M + "a second run gives the same results")
        ctx.check(len(again[0]) == 0, M + "finished trials are not run again")


def same(ctx, a, b, label):
    ctx.check(len(a) == len(b), label)
    for x, y in zip(a, b):
        for c in x:
            u, v = x[c], y.get(c)
            if isinstance(u, float) and isinstance(v, float):
                ctx.check(u == v or abs(u - v) <= 1e-8 * max(1, abs(u)), label)
            else:
                ctx.check(str(u) == str(v) or (c == "model_exception" and str(u)[:9] == str(v)[:9] == "Traceback"), label)


def driver(ctx, cfg):
    """The driver runs the design named on the data named and writes what it returns."""
    fs = MemFS()
    sets = cfg["sets"]
    fill(fs, sets)
    seeds = []
    seed = ctx.choose("seed", [1, 42])
    fits = []
    value = cfg.get("value", 2.5)
    CURRENT[0] = lambda s: seeds.append(s) or iter([descriptor(fitter(fits, value), "s%d" % i, 0.5, 1.0 + i, 1) for i in range(cfg["n"])])
    analysis = cfg.get("analysis", "")
    d = ED.ExperimentDriver("/data", CONFIG, "/out.csv", "/x/exp", seed, 1, analysis)
    use = ctx.choose("beam", [False, True])
    if use:
        fs.mkdir("/x/exp", parents=True, exist_ok=True)
        df = d.execute(True, XD.PipelineOptions(["--temp_location=/x/exp"]), fs)
    else:
        df = d.execute(filesystem=fs)
    ctx.check(seeds == [seed], M + "the design is made with the seed given")
    ctx.check(len(df) == len(sets) * cfg["n"] and len(fits) == len(sets) * cfg["n"], M + "one row per data set and descriptor")
    text = fs.files.get("/out.csv", "")
    got = list(csv.reader(io.StringIO(text)))
    ctx.check(len(got) == len(df) + 1 and got[0] == list(df.columns), M + "the output file holds the results")
    for c, name in enumerate(got[0]):
        for i, v in enumerate(df[name].tolist()):
            ctx.check(got[i + 1][c] == ("NaN" if isnan(v) else str(v)), M + "the output file holds the results")
    ctx.check(("relative_error_at_100" in df.columns) == (analysis == "single_pub"), M + "the analysis asked for is done")
    for f in fs.files:
        ctx.check(f.startswith("/x/exp/") or f.startswith("/data/") or f == "/out.csv", M + "intermediate results go where they are asked to")
    ctx.check(count([f.startswith("/data/") for f in fs.files]) == sum([len(PUBS[n]) for n in sets]), M + "the data design is not changed")


def command(ctx, cfg):
    """The command line reaches the driver."""
    calls = []

    class Driver(object):
        def __init__(self, *a, **kw):
            calls.append((a, kw))

        def execute(self, *a, **kw):
            calls.append((a, kw))

    seed, cores = ctx.choose("seed", [None, 7]), ctx.choose("cores", [None, 3])
    an, bm = ctx.choose("analysis", [None, "single_pub"]), ctx.choose("beam", [False, True])
    argv = ["prog", "--data_design_dir=DD", "--experimental_design=XD", "--output_file=OF", "--intermediates_dir=ID"]
    argv += ["--seed=%d" % seed] if seed is not None else []
    argv += ["--cores=%d" % cores] if cores is not None else []
    argv += ["--analysis_type=" + an] if an else []
    argv += ["--use_apache_beam"] if bm else []
    with patched((ED, "ExperimentDriver", Driver)):
        ED.main(argv)
    names = ["data_design_dir", "experimental_design", "output_file", "intermediate_dir", "random_seed", "cores", "analysis_type"]
    a = dict(zip(names, calls[0][0]))
    a.update(calls[0][1])
    ctx.check((a["data_design_dir"], a["experimental_design"], a["output_file"], a["intermediate_dir"]) == ("DD", "XD", "OF", "ID"), M + "the command line names data, design, output and intermediates")
    ctx.check((a["random_seed"], a.get("cores", 1), a.get("analysis_type", "")) == (1 if seed is None else seed, 1 if cores is None else cores, an or ""), M + "the command line gives seed, cores and analysis")
    b = dict(zip(["use_apache_beam", "pipeline_options", "filesystem"], calls[1][0]))
    b.update(calls[1][1])
    ctx.check(bool(b.get("use_apache_beam", False)) == bm, M + "the command line says whether to use Beam")
    ctx.check(b["pipeline_options"].get_all_options().get("temp_location") == "ID", M + "Beam keeps its temporary files with the intermediates")


ASSUMPTIONS = [
    "Apache Beam, which is not installed, and the pool of processes are stand-ins that run tasks in any order and combine them in any bundles; files are held in memory",
    "the modeling strategy is scripted and draws from the trial's generator",
]
OUTSIDE = "real distributed runners and process pools (pickling, concurrent file access); more than 6 data sets and 5 descriptors"


def scenarios(tier):
    T = tier == "thorough"
    return [
        Scenario("trials-1", trials, {"sets": ["a"], "n": 3}, "1 data set, 3 descriptors, possibly alike"),
        Scenario("trials-3", trials, {"sets": ["a", "b", "c"], "n": 2}, "3 data sets of 1 to 3 publishers, 2 descriptors"),
        Scenario("trials-2", trials, {"sets": ["a", "d"], "n": 2}, "2 data sets of 1 publisher, 2 descriptors"),
        Scenario("trials-alike", trials, {"sets": ["1", "01", "A", "a", "a1"], "n": 2}, "5 data sets with the same publishers whose names are alike, 2 descriptors"),
        Scenario("run-alike", run, {"sets": ["A", "a", "a1"], "n": 1, "how": ["plain", "pool"]}, "3 data sets with the same publishers whose names are alike"),
        Scenario("trials-0", trials, {"sets": ["b"], "n": 0}, "no descriptors"),
        Scenario("trials-6", trials, {"sets": ["a", "d", "1", "01", "A", "a1"], "n": 5}, "6 data sets, 5 descriptors"),
        Scenario("run-2x2", run, {"sets": ["a", "b"], "n": 2, "how": ["pool", "plain"], "finished": [0, 1, 3] if T else [0, 3]}, "2 data sets, 2 descriptors", budget=400),
        Scenario("run-2x2-beam", run, {"sets": ["a", "b"], "n": 2, "how": ["beam"], "finished": [0]}, "2 data sets, 2 descriptors", budget=400),
        Scenario("run-2x2-beam-finished", run, {"sets": ["a", "b"], "n": 2, "how": ["beam"], "finished": [1, 3] if T else [3]}, "2 data sets, 2 descriptors, some finished", budget=400),
        Scenario("run-3x1", run, {"sets": ["a", "b", "c"], "n": 1, "how": ["pool", "beam"]}, "3 data sets, 1 descriptor"),
        Scenario("run-1x3", run, {"sets": ["b"], "n": 3, "how": ["beam", "plain"], "failing": 1, "finished": [0, 2]}, "1 data set, 3 descriptors, one of which fails"),
        Scenario("driver-2", driver, {"sets": ["a", "c"], "n": 2}, "2 data sets, 2 descriptors"),
        Scenario("driver-single", driver, {"sets": ["a"], "n": 2, "analysis": "single_pub"}, "single publisher analysis"),
        Scenario("command", command, {}, "every combination of options"),
    ]
