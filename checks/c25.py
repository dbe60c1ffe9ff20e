"""C25: the metrics of a trial are the statistics their names say, over all test points."""
import numpy as np

from symex.api import *
from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate, aggregate_on_exception
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

M = "metrics: "
QS = ["relative_error_q%d" % q for q in range(10, 100, 10)]
NAMES = (
    ["npoints", "mean_error", "mean_abs_error", "mean_squared_error", "mean_abs_relative_error"]
    + ["mare_freq_at_least_%d" % k for k in range(2, 10)]
    + ["mean_squared_relative_error", "var_error", "var_relative_error"] + QS
    + ["mean_shuffle_distance", "mean_squared_shuffle_distance", "var_shuffle_distance"]
)


def isnan(v):
    return not is_sym(v) and isinstance(v, float) and v != v


def close(ctx, a, b, scale, label):
    """Equal up to rounding."""
    ctx.check(not isnan(a), label)
    ctx.check_le(abs(a - b) - scale, 0, label)


def cell(df, name):
    return df[name].tolist()[0]


def shape(ctx, df, ok):
    ctx.check(len(df) == 1, M + "one row per trial")
    for n in NAMES:
        ctx.check(n in df.columns, M + "every metric is reported, by name")
    ctx.check(len(set(df.columns)) == len(df.columns), M + "no metric is reported twice")
    ctx.check(cell(df, "model_succeeded") == (1 if ok else 0), M + "success is reported as such")


def points(ctx, cfg):
    """(true, fitted) k+ reach vectors; the reaches in cfg are arbitrary, the others fixed."""
    n, F = cfg["n"], cfg["F"]
    true, fit = [], []
    for i in range(n):
        base = [64, 16, 128, 32, 8, 256][i % 6]
        t = [base / 2.0 ** k for k in range(F)]
        f = [(base + 3 * i - 4) / 2.0 ** k for k in range(F)]
        for k in cfg.get("sym_true", {}).get(i, ()):
            t[k] = ctx.real("t%d_%d" % (i, k), 1, 1000)
        for k in cfg.get("sym_fit", {}).get(i, ()):
            f[k] = ctx.real("f%d_%d" % (i, k), 0, 1000)
        true.append(t)
        fit.append(f)
    return true, fit


def stats(ctx, cfg):
    true, fit = points(ctx, cfg)
    n, F = cfg["n"], cfg["F"]
    df = aggregate([ReachPoint([1], t, [1.0]) for t in true], [ReachPoint([1], f, [1.0]) for f in fit])
    shape(ctx, df, True)
    ctx.check(cell(df, "npoints") == n, M + "the number of test points is reported")
    e = [t[0] - f[0] for t, f in zip(true, fit)]
    tol = 1e-3

    def mean(xs):
        return ssum(xs) / len(xs)

    close(ctx, cell(df, "mean_error"), mean(e), tol, M + "mean error")
    close(ctx, cell(df, "mean_abs_error"), mean([abs(x) for x in e]), tol, M + "mean absolute error")
    if cfg.get("squares", True):
        close(ctx, cell(df, "mean_squared_error"), mean([x * x for x in e]), tol, M + "mean squared error")
        close(ctx, cell(df, "var_error"), mean([x * x for x in e]) - mean(e) * mean(e), tol, M + "variance of the error")
        r = [x / t[0] for x, t in zip(e, true)]
        close(ctx, cell(df, "mean_squared_relative_error"), mean([x * x for x in r]), tol, M + "mean squared relative error")
        close(ctx, cell(df, "var_relative_error"), mean([x * x for x in r]) - mean(r) * mean(r), tol, M + "variance of the relative error")
    for k in range(1, 10):
        name = "mean_abs_relative_error" if k == 1 else "mare_freq_at_least_%d" % k
        if k > F:
            ctx.check(isnan(cell(df, name)), M + "a frequency that was not modeled has no error")
        else:
            close(ctx, cell(df, name), mean([abs(t[k - 1] - f[k - 1]) / t[k - 1] for t, f in zip(true, fit)]), tol, M + "mean absolute relative error at each frequency")
    if cfg.get("quantiles", True):
        rel = shims._sorted_terms([abs(x) / t[0] for x, t in zip(e, true)])
        for q in range(1, 10):
            h = (n - 1) * q  # tenths
            lo, frac = h // 10, (h % 10)
            hi = min(lo + 1, n - 1)
            close(ctx, cell(df, "relative_error_q%d0" % q), (rel[lo] * (10 - frac) + rel[hi] * frac) / 10, tol, M + "quantiles of the relative error")
    shuffles(ctx, cfg, df, true, fit, tol)


def shuffles(ctx, cfg, df, true, fit, tol):
    F = cfg["F"]
    d = []
    for t, f in zip(true, fit):
        if F <= 5:
            d.append(1.0)
            continue
        st, sf = t[0] - t[5], f[0] - f[5]
        if cfg.get("zero"):
            d.append(0.5)
            continue
        if sf == 0:  # branches when the fitted reaches are arbitrary
            d.append(0.5)
            continue
        dist = ssum([abs((t[k] - t[k + 1]) / st - (f[k] - f[k + 1]) / sf) for k in range(5)]) / 2
        d.append(dist)
    m = ssum(d) / len(d)
    close(ctx, cell(df, "mean_shuffle_distance"), m, tol, M + "mean shuffle distance of the first five frequencies")
    if cfg.get("squares", True):
        m2 = ssum([x * x for x in d]) / len(d)
        close(ctx, cell(df, "mean_squared_shuffle_distance"), m2, tol, M + "mean squared shuffle distance")
        close(ctx, cell(df, "var_shuffle_distance"), m2 - m * m, tol, M + "variance of the shuffle distance")


def shuffle(ctx, cfg):
    """Shuffle distance alone, for k+ reaches with arbitrary frequencies."""
    F = cfg["F"]
    fixed = [8, 4, 2, 1, 1]
    freq = [ctx.real("q%d" % k, 0, 100) if k in cfg["sym"] else v for k, v in enumerate(fixed)]
    top = 3.0
    f = [ssum(freq[k:]) + top for k in range(5)] + [top] * (F - 5)
    t = [16.0, 12.0, 8.0, 4.0, 4.0] + [0.0] * (F - 5)
    ctx.assume(ssum(freq) > 0)
    df = aggregate([ReachPoint([1], t, [1.0])], [ReachPoint([1], f, [1.0])])
    s = ssum(freq)
    # 2 * s * distance = sum |w_k s - freq_k|
    w = [0.25, 0.25, 0.25, 0.0, 0.25]
    got = cell(df, "mean_shuffle_distance")
    ctx.check_le(abs(2 * s * got - ssum([abs(w[k] * s - freq[k]) for k in range(5)])) - 1e-3 - s * 1e-6, 0, M + "mean shuffle distance of the first five frequencies")
    ctx.check(land(got >= -1e-9, got <= 1 + 1e-9), M + "a shuffle distance lies between 0 and 1")


def unequal(ctx, cfg):
    """The model and the truth may be known up to different frequencies."""
    FT, FF = cfg["FT"], cfg["FF"]
    a = ctx.real("a", 0, 1000)
    t = [64.0 / 2 ** k for k in range(FT)]
    f = [a + 100 - k for k in range(FF)]
    df = aggregate([ReachPoint([1], t, [1.0])], [ReachPoint([1], f, [1.0])])
    shape(ctx, df, True)
    for k in range(1, 10):
        name = "mean_abs_relative_error" if k == 1 else "mare_freq_at_least_%d" % k
        if k > min(FT, FF):
            ctx.check(isnan(cell(df, name)), M + "a frequency that was not modeled has no error")
        else:
            close(ctx, cell(df, name), abs(t[k - 1] - f[k - 1]) / t[k - 1], 1e-3, M + "mean absolute relative error at each frequency")
    if min(FT, FF) <= 5:
        close(ctx, cell(df, "mean_shuffle_distance"), 1.0, 1e-6, M + "mean shuffle distance of the first five frequencies")


def mixed(ctx, cfg):
    """Test points need not all be known up to the same frequency."""
    n = cfg["n"]
    FT = [ctx.choose("FT%d" % i, cfg["F"]) for i in range(n)]
    FF = [ctx.choose("FF%d" % i, cfg["F"]) for i in range(n)]
    a = ctx.real("a", 0, 1000)
    true = [[64.0 / 2 ** k + i for k in range(FT[i])] for i in range(n)]
    fit = [[(a if i == n - 1 else 7.0) + 100 - k for k in range(FF[i])] for i in range(n)]
    df = aggregate([ReachPoint([1], t, [1.0]) for t in true], [ReachPoint([1], f, [1.0]) for f in fit])
    shape(ctx, df, True)
    for k in range(1, 10):
        name = "mean_abs_relative_error" if k == 1 else "mare_freq_at_least_%d" % k
        if k > min(FT + FF):
            ctx.check(isnan(cell(df, name)), M + "a frequency that was not modeled has no error")
        else:
            close(ctx, cell(df, name), ssum([abs(t[k - 1] - f[k - 1]) / t[k - 1] for t, f in zip(true, fit)]) / n, 1e-3, M + "mean absolute relative error at each frequency")
    near = [i for i in range(n) if min(FT[i], FF[i]) > 5]
    if not near:
        close(ctx, cell(df, "mean_shuffle_distance"), 1.0, 1e-6, M + "mean shuffle distance of the first five frequencies")
    else:
        v = cell(df, "mean_shuffle_distance")
        ctx.check(land(v >= (n - len(near)) / n - 1e-9, v <= 1 + 1e-9), M + "a shuffle distance lies between 0 and 1")


def perfect(ctx, cfg):
    """A perfect model has no error of any kind."""
    n, F = cfg["n"], cfg["F"]
    pts = []
    for i in range(n):
        r = [ctx.real("r%d_%d" % (i, k), 1, 10 ** 6) if k < 2 else 1.0 / (1 << (k - 2)) for k in range(F)]
        pts.append(ReachPoint([1], r, [1.0]))
    df = aggregate(pts, list(pts))
    shape(ctx, df, True)
    for name in NAMES:
        v = cell(df, name)
        if name == "npoints":
            continue
        if isnan(v):
            ctx.check(name.startswith("mare_freq") and int(name[-1]) > F, M + "only frequencies that were not modeled have no error")
        elif "shuffle" in name and F <= 5:
            continue
        else:
            ctx.check_le(abs(v), 1e-6, M + "a perfect model has no error")


def failed(ctx, cfg):
    good = aggregate([ReachPoint([1], [2.0, 1.0], [1.0])], [ReachPoint([1], [2.0, 1.0], [1.0])])
    msg = ctx.choose("msg", ["boom", "Traceback (most recent call last):\n  File \"x\", line 1\nValueError: a, \"b\"\n", ""])
    bad = aggregate_on_exception(msg)
    shape(ctx, bad, False)
    ctx.check(list(bad.columns) == list(good.columns), M + "a failed trial has the same columns as a successful one")
    ctx.check(cell(bad, "model_exception") == msg, M + "a failed trial says why")
    for n in NAMES:
        ctx.check(isnan(cell(bad, n)), M + "a failed trial has no metrics")


ASSUMPTIONS = ["every test point reaches someone (true reach above zero): relative errors of a point that reaches no one are not defined"]
OUTSIDE = "more than 40 test points; test points that reach no one; more than 4 arbitrary reaches at once"


def scenarios(tier):
    T = tier == "thorough"
    out = [
        Scenario("fit-1", stats, {"n": 1, "F": 1, "sym_fit": {0: (0,)}}, "1 point, 1 frequency"),
        Scenario("fit-3", stats, {"n": 3, "F": 3, "sym_fit": {0: (0, 1), 2: (0,)}}, "3 points, 3 frequencies, arbitrary fitted reaches"),
        Scenario("fit-6", stats, {"n": 6, "F": 12, "sym_fit": {1: (0,), 4: (1, 8)}}, "6 points, 12 frequencies, arbitrary fitted reaches", budget=200),
        Scenario("fit-40", stats, {"n": 40, "F": 5, "sym_fit": {1: (0,), 24: (1,)}, "quantiles": False}, "40 points, 5 frequencies, arbitrary fitted reaches", budget=200),
        Scenario("fit-25q", stats, {"n": 25, "F": 7, "sym_fit": {24: (0,)}, "squares": False}, "25 points, 7 frequencies, one arbitrary fitted reach", budget=200),
        Scenario("true-2", stats, {"n": 2, "F": 2, "sym_true": {0: (0,), 1: (1,)}, "quantiles": False}, "2 points, arbitrary true reaches"),
        Scenario("true-fit", stats, {"n": 2, "F": 1, "sym_true": {0: (0,)}, "sym_fit": {0: (0,)}, "squares": False}, "2 points, one with arbitrary true and fitted reach"),
        Scenario("true-q", stats, {"n": 3, "F": 1, "sym_true": {1: (0,)}, "squares": False}, "quantiles, one arbitrary true reach"),
        Scenario("f5", stats, {"n": 2, "F": 5, "sym_fit": {0: (3,), 1: (4,)}}, "5 frequencies"),
        Scenario("f9", stats, {"n": 2, "F": 9, "sym_fit": {0: (8,), 1: (7,)}}, "9 frequencies"),
        Scenario("shuffle-1", shuffle, {"F": 6, "sym": (0,)}, "one arbitrary frequency"),
        Scenario("shuffle-3", shuffle, {"F": 8, "sym": (0, 3, 4)}, "3 arbitrary frequencies"),
        Scenario("shuffle-2", shuffle, {"F": 6, "sym": (1, 2)}, "2 arbitrary frequencies"),
        Scenario("perfect-3", perfect, {"n": 3, "F": 3}, "3 points"),
        Scenario("perfect-4", perfect, {"n": 4, "F": 10}, "4 points, 10 frequencies"),
        Scenario("unequal-1", unequal, {"FT": 5, "FF": 8}, "truth up to 5, model up to 8"),
        Scenario("unequal-2", unequal, {"FT": 9, "FF": 5}, "truth up to 9, model up to 5"),
        Scenario("unequal-3", unequal, {"FT": 2, "FF": 1}, "truth up to 2, model up to 1"),
        Scenario("mixed-2", mixed, {"n": 2, "F": [1, 2, 6]}, "2 points, each known up to 1, 2 or 6 frequencies"),
        Scenario("failed", failed, {}, "3 messages"),
    ]
    return out
