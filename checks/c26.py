"""C26: the row of a trial says what was run and how it did, or that it failed and why."""
import csv
import io

import numpy as np

from symex.api import *
from checks import trials as TR

from checks.memfs import MemFS
from checks.naming import same_text
from checks.trials import cell, isnan
from wfa_cardinality_estimation_evaluation_framework.estimators import same_key_aggregator as SK
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters
from checks import halo as H

M = "trial: "
TOL = 1e-3


class Boom(Exception):
    pass


def setup(ctx, cfg, analysis=""):
    sizes = cfg.get("sizes", (5, 4))
    ds = TR.data_set(sizes, cfg.get("name", "ds"))
    p = len(sizes)
    F = cfg.get("F", 3)
    fr = [ctx.real("f%d" % i, 0, 1, lo_strict=True) if i in cfg.get("sym_f", ()) else 0.5 + 0.25 * i for i in range(p)]
    eps, dlt = ctx.real("eps", 0, 100), ctx.real("delta", 0, 1)
    share = ctx.real("share", 0, 1)
    points = cfg.get("points") or [[0.5 * (1 + (i + j) % 3) for j in range(p)] for i in range(cfg.get("npoints", 3))]
    log = {"budget": None, "rng": None, "ds": None, "fitted": {}}

    def answer(spends, k):
        key = (tuple(spends), k) if not any([is_sym(s) for s in spends]) else len(log["fitted"])
        if key not in log["fitted"]:
            n = len(log["fitted"])
            log["fitted"][key] = [ctx.real("r%d_%d" % (n, j), 0, 1000) if (n, j) in cfg.get("sym_r", ()) else 7.0 - n % 4 - j * 0.5 for j in range(k)]
        return log["fitted"][key]

    fail = cfg.get("fail")
    training = cfg.get("training", [3, 2, 0])
    surface = TR.Surface(answer, [ReachPoint([5], list(training), [1.0])])

    def by_spend(spends, k=1):
        if fail == "predict" and len(surface.asked) >= cfg.get("after", 1):
            raise Boom("predict failed")
        return TR.Surface.by_spend(surface, spends, k)

    if fail == "predict":
        surface.by_spend = by_spend

    def fit(halo, params, budget):
        log["budget"], log["halo"], log["params"] = budget, halo, params
        if fail == "fit-first":
            raise Boom("no measurement")
        SK.HOOK[0] = lambda est, sketch: [2] + [0] * (est.kw["max_freq"] - 1)
        halo.simulated_reach_by_spend(halo.max_spends, PrivacyBudget(budget.epsilon * share, budget.delta * share), max_frequency=2)
        SK.HOOK[0] = None
        if fail == "fit":
            raise Boom('did not, "converge"\nat all')
        return surface

    def test_points(d, rng):
        log["ds"], log["rng"] = d, rng.random(3).tolist()
        if fail == "points":
            raise Boom("no points")
        for q in points:
            yield list(q)

    TR.Params.script = staticmethod(test_points)
    desc = TrialDescriptor(
        TR.Strategy(fit, "strat", "single", "multi"),
        SystemParameters(fr, LiquidLegionsParameters(cfg.get("decay", 11), cfg.get("size", 64), 5), H.Generator(ctx)),
        TR.Params(PrivacyBudget(eps, dlt), cfg.get("replica", 4), F, "grid", {}),
    )
    fs = cfg["fs"] if "fs" in cfg else MemFS()
    trial = ExperimentalTrial("/x/exp", TR.Design([ds, TR.data_set((2,), "other")]), cfg.get("name", "ds"), desc, analysis)
    return dict(ds=ds, fr=fr, eps=eps, dlt=dlt, share=share, points=points, log=log, surface=surface, desc=desc, fs=fs, trial=trial, F=F, p=p, sizes=sizes)


def described(ctx, s, df, measured):
    """The columns that say what was run."""
    L = M + "the row says what was run"
    ctx.check(len(df) == 1, M + "one row")
    ctx.check(cell(df, "dataset") == s["ds"].name, L)
    ctx.check(same_text(ctx, cell(df, "trial"), str(s["desc"])), L)
    ctx.check(cell(df, "replica_id") == s["desc"].experiment_params.replica_id, L)
    ctx.check(cell(df, "max_frequency") == s["F"], L)
    ctx.check((cell(df, "strategy"), cell(df, "single_pub_model"), cell(df, "multi_pub_model")) == ("strat", "single", "multi"), L)
    ctx.check(cell(df, "liquid_legions_sketch_size") == s["desc"].system_params.liquid_legions.sketch_size, L)
    ctx.check(cell(df, "liquid_legions_decay_rate") == s["desc"].system_params.liquid_legions.decay_rate, L)
    ctx.check(cell(df, "ncampaigns") == s["p"], L)
    users = [set([u for u, _ in l]) for l in s["ds"].logs_given]
    ctx.check(cell(df, "maximum_reach") == len(set.union(*users)), L)
    ctx.check(cell(df, "largest_pub_reach") == max([len(u) for u in users]), L)
    ctx.check_eq(cell(df, "average_spend_fraction"), ssum(s["fr"]) / s["p"], L)
    B = M + "the row says what privacy budget was given and used"
    ctx.check_eq(cell(df, "privacy_budget_epsilon"), s["eps"], B)
    ctx.check_eq(cell(df, "privacy_budget_delta"), s["dlt"], B)
    used = s["share"] if measured else 0
    ctx.check_eq(cell(df, "privacy_used_epsilon"), s["eps"] * used, B)
    ctx.check_eq(cell(df, "privacy_used_delta"), s["dlt"] * used, B)
    ctx.check((cell(df, "privacy_mechanisms") != "") == measured, B)


def saved(ctx, s, df):
    """The result is on disk as it was returned, and nothing else is."""
    fs = s["fs"]
    path = "/x/exp/%s/%s.csv" % (s["ds"].name, s["desc"])
    ctx.check([f for f in fs.files] == [path], M + "a finished trial leaves its result and nothing else")
    rows = list(csv.reader(io.StringIO(fs.files[path])))
    ctx.check(len(rows) == 2 and rows[0] == list(df.columns), M + "the saved result has the columns of the one returned")
    for name, text in zip(rows[0], rows[1]):
        v = cell(df, name)
        if isnan(v):
            ctx.check(text == "NaN", M + "the saved result has the values of the one returned")
        else:
            ctx.check(same_text(ctx, text, str(v)), M + "the saved result has the values of the one returned")


def row(ctx, cfg):
    s = setup(ctx, cfg)
    seed = ctx.choose("seed", cfg.get("seeds", [1, 77]))
    df = s["trial"].evaluate(seed, s["fs"])
    log, F = s["log"], s["F"]
    ctx.check(cell(df, "model_succeeded") == 1, M + "a trial without an exception succeeds")
    ctx.check(cell(df, "npoints") == len(s["points"]), M + "every test point counts")
    described(ctx, s, df, True)
    ctx.check_eq(log["budget"].epsilon, s["eps"], M + "the model is fitted with the budget of the experiment")
    ctx.check_eq(log["budget"].delta, s["dlt"], M + "the model is fitted with the budget of the experiment")
    ctx.check(land(same_text(ctx, str(log["params"]), str(s["desc"].system_params)), log["params"].generator is s["desc"].system_params.generator, log["params"].liquid_legions == s["desc"].system_params.liquid_legions), M + "the model is fitted with the system parameters of the trial")
    for got, want, log_ in zip(log["halo"].campaign_spends, s["fr"], s["ds"].logs_given):
        ctx.check_eq(got, want * max([x for _, x in log_]), M + "the model is fitted to the data set of the trial")
    ctx.check(log["ds"] is s["ds"], M + "test points are those of the data set")
    ctx.check(log["rng"] == np.random.default_rng(seed).random(3).tolist(), M + "test points are drawn with the seed given")
    asked = [a for a in s["surface"].asked]
    for q in s["points"]:
        ctx.check(any([list(a) == list(q) and k == F for a, k in asked]), M + "the model is asked about every test point at all frequencies")
    true = [TR.true_counts(s["ds"], q, F) for q in s["points"]]
    fit = [log["fitted"][(tuple(q), F)] for q in s["points"]]
    n = len(true)

    def near(name, want):
        v = cell(df, name)
        ctx.check(not isnan(v), M + "metrics compare the true with the modeled reach, point by point")
        ctx.check_le(abs(v - want) - TOL, 0, M + "metrics compare the true with the modeled reach, point by point")

    near("mean_error", ssum([t[0] - f[0] for t, f in zip(true, fit)]) / n)
    near("mean_abs_error", ssum([abs(t[0] - f[0]) for t, f in zip(true, fit)]) / n)
    near("mean_squared_error", ssum([(t[0] - f[0]) * (t[0] - f[0]) for t, f in zip(true, fit)]) / n)
    for k in range(1, F + 1):
        if all([t[k - 1] for t in true]):
            near("mean_abs_relative_error" if k == 1 else "mare_freq_at_least_%d" % k, ssum([abs(t[k - 1] - f[k - 1]) / t[k - 1] for t, f in zip(true, fit)]) / n)
    ctx.check(isnan(cell(df, "mare_freq_at_least_%d" % (F + 1))), M + "frequencies beyond the maximum are not modeled")
    saved(ctx, s, df)


def failing(ctx, cfg):
    """A trial whose model fails anywhere still has its row."""
    analysis = cfg.get("analysis", "")
    good = setup(ctx, dict(cfg, fail=None), analysis)
    ok = good["trial"].evaluate(1, good["fs"])
    fail = ctx.choose("fail", cfg.get("fails", ["fit-first", "fit", "points", "predict"]))
    s = setup(ctx, dict(cfg, fail=fail), analysis)
    df = s["trial"].evaluate(1, s["fs"])
    ctx.check(list(df.columns) == list(ok.columns), M + "a failed trial has the columns of a successful one")
    ctx.check(cell(df, "model_succeeded") == 0, M + "a failed trial says so")
    msg = {"fit-first": "no measurement", "fit": "converge", "points": "no points", "predict": "predict failed"}[fail]
    ctx.check(msg in cell(df, "model_exception") and "Boom" in cell(df, "model_exception"), M + "a failed trial says why")
    described(ctx, s, df, fail != "fit-first")
    names = [c for c in df.columns if "error" in c or "shuffle" in c or "mare" in c or c == "npoints" or "nonzero" in c]
    ctx.check(len(names) > 20, M + "a failed trial has no metrics")
    for c in names:
        ctx.check(isnan(cell(df, c)), M + "a failed trial has no metrics")
    saved(ctx, s, df)


def alone(ctx, cfg):
    """Single publisher analysis: errors at multiples of the campaign's spend."""
    s = setup(ctx, cfg, "single_pub")
    df = s["trial"].evaluate(1, s["fs"])
    log, F = s["log"], s["F"]
    S = M + "single publisher analysis: "
    ctx.check(cell(df, "model_succeeded") == 1, S + "succeeds")
    top = max([x for _, x in s["ds"].logs_given[0]])
    spend = s["fr"][0] * top
    want = ["relative_error_at_%03d" % (10 * i) for i in range(1, 31)]
    cols = [c for c in df.columns if "relative_error_at_" in c]
    for f in range(1, F):
        want += ["freq_%d_relative_error_at_%03d" % (f, 10 * i) for i in range(1, 31)]
    ctx.check(sorted(cols) == sorted(want), S + "one error per multiple of the spend and frequency")
    for f in range(0, F):
        for i in cfg.get("multiples", range(1, 31)):
            k = max(f, 1)
            name = ("freq_%d_" % f if f else "") + "relative_error_at_%03d" % (10 * i)
            x = (float(np.arange(1, 31)[i - 1] * 0.1)) * spend
            true = TR.true_counts(s["ds"], [x], k)[k - 1]
            if true == 0:
                ctx.check(isnan(cell(df, name)), S + "no error where no one is reached")
                continue
            near = [key for key in log["fitted"] if key[1] == k and abs(key[0][0] - x) < 1e-6]
            ctx.check(len(near) >= 1, S + "the model is asked about every multiple of the spend")
            fit = log["fitted"][near[0]][k - 1]
            ctx.check(not isnan(cell(df, name)), S + "the error of the modeled reach at that spend and frequency")
            ctx.check_le(abs(cell(df, name) - abs(true - fit) / true) - TOL, 0, S + "the error of the modeled reach at that spend and frequency")
    tr = cfg.get("training", [3, 2, 0])
    ctx.check(cell(df, "max_nonzero_frequency_from_halo") == max([0] + [i + 1 for i, v in enumerate(tr) if v]), S + "the highest frequency measured")
    tc = TR.true_counts(s["ds"], [spend], F)
    ctx.check(cell(df, "max_nonzero_frequency_from_data") == max([0] + [i + 1 for i, v in enumerate(tc) if v]), S + "the highest frequency in the data")
    described(ctx, s, df, True)


ASSUMPTIONS = [
    "the modeling strategy is a scripted one with arbitrary fitted reaches; the file system is held in memory; the external sketching package is a stand-in",
]
OUTSIDE = "exceptions that do not derive from Exception (interrupts); data sets without publishers; more than 6 publishers"


def scenarios(tier):
    T = tier == "thorough"
    return [
        Scenario("row-2", row, {"sym_r": [(0, 0), (1, 1), (2, 0)], "sym_f": (0, 1)}, "2 publishers, 3 test points, arbitrary fitted reaches, budgets and spends"),
        Scenario("row-1", row, {"sizes": (6,), "F": 1, "npoints": 3, "sym_r": [(0, 0), (2, 0)], "replica": 0}, "1 publisher"),
        Scenario("row-3", row, {"sizes": (3, 6, 4), "F": 4, "npoints": 3, "sym_r": [(1, 0), (2, 1)], "name": "other set"}, "3 publishers"),
        Scenario("row-6", row, {"sizes": (3, 2, 4, 1, 2, 3), "F": 2, "npoints": 2, "sym_r": [(1, 0)]}, "6 publishers"),
        Scenario("row-same", row, {"sizes": (5,), "F": 2, "points": [[1.5], [2.5]], "sym_r": [(0, 0), (1, 1)], "decay": 3, "size": 10}, "2 test points"),
        Scenario("failing", failing, {}, "a failure at any step"),
        Scenario("failing-late", failing, {"fails": ["predict"], "after": 2}, "a failure at the last test point"),
        Scenario("failing-single", failing, {"sizes": (5,), "analysis": "single_pub", "F": 2}, "a failure at any step, single publisher analysis"),
        Scenario("failing-single-late", failing, {"sizes": (5,), "analysis": "single_pub", "F": 2, "fails": ["predict"], "after": 20}, "a failure during single publisher analysis"),
        Scenario("single", alone, {"sizes": (7,), "F": 3, "sym_r": [(3, 0), (5, 0), (12, 0), (40, 0), (70, 1)]}, "1 publisher, arbitrary fitted reaches"),
        Scenario("single-1", alone, {"sizes": (4,), "F": 1, "sym_r": [(3, 0), (32, 0)]}, "frequency 1 only"),
        Scenario("single-zero", alone, {"sizes": (4,), "F": 2, "training": [0, 0, 0]}, "a measurement of no one"),
        Scenario("single-none", alone, {"sizes": (4,), "F": 4, "training": [], "npoints": 1}, "a measurement without frequencies"),
    ]
