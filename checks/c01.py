"""C01: the views of a reach point (k+ reach, exact frequency, histogram) agree."""
import numpy as np

from symex.api import *
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

BIG = 10 ** 9


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def views(ctx, cfg):
    n = cfg["n"]
    if cfg.get("real"):
        kp = reals(ctx, "kplus", n, 0, BIG)
        imps = reals(ctx, "imp", cfg["pubs"], 0, BIG)
    else:
        kp = ints(ctx, "kplus", n, 0, BIG)
        imps = ints(ctx, "imp", cfg["pubs"], 0, BIG)
    spends = reals(ctx, "spend", cfg["pubs"], 0, BIG)
    universe = ctx.int("universe", 0, BIG)
    container = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=object if ctx.sym else None)}[cfg.get("as", "list")]
    with_spends = cfg.get("spends", True)
    p = ReachPoint(container(imps) if cfg.get("as") != "array" else list(imps), container(kp), list(spends) if with_spends else None, universe)
    ctx.check(p.max_frequency == n, "max frequency is the number of k+ reaches")
    for k in range(1, n + 1):
        ctx.check_eq(p.reach(k), kp[k - 1], "k+ reach is the value given")
    ctx.check_eq(p.reach(), kp[0], "default reach is 1+")
    freqs = p.frequencies
    ctx.check(len(freqs) == n - 1, "one exact frequency fewer than k+ reaches")
    for k in range(1, n):
        ctx.check_eq(p.frequency(k), kp[k - 1] - kp[k], "exact frequency is a difference of k+ reaches")
        ctx.check_eq(freqs[k - 1], kp[k - 1] - kp[k], "frequency list agrees")
    b = p.frequencies_with_kplus_bucket
    ctx.check(len(b) == n, "bucket list length")
    for k in range(n):
        ctx.check_eq(b[k], kp[k] - kp[k + 1] if k + 1 < n else kp[k], "bucketed frequencies")
    ctx.check_eq(ssum(b), kp[0], "bucketed frequencies sum to the reach")
    h = p.zero_included_histogram
    ctx.check(len(h) == n + 1, "histogram length")
    ctx.check_eq(h[0], universe - kp[0], "histogram starts with the unreached")
    ctx.check_eq(ssum(h), universe, "histogram sums to the universe")
    for k in range(n):
        ctx.check_eq(h[k + 1], b[k], "histogram continues with the frequencies")
    back = ReachPoint.frequencies_to_kplus_reaches(list(b))
    ctx.check(len(back) == n, "round trip length")
    for k in range(n):
        ctx.check_eq(back[k], kp[k], "k+ reaches survive the round trip through frequencies")
    ctx.check_eq(p.universe_size, universe, "universe kept")
    for i in range(cfg["pubs"]):
        ctx.check_eq(p.impressions[i], imps[i], "impressions kept")
        if with_spends:
            ctx.check_eq(p.spends[i], spends[i], "spends kept")
    if not with_spends:
        ctx.check(p.spends is None, "no spends given, none reported")
    ctx.check(len(p.impressions) == cfg["pubs"], "one impression count per publisher")
    q = ReachPoint(list(imps), list(kp))
    ctx.check(raises(ValueError, lambda: q.universe_size), "unknown universe is refused")
    ctx.check(raises(ValueError, lambda: q.zero_included_histogram), "histogram without universe is refused")
    ctx.check(raises(ValueError, lambda: ReachPoint(list(imps), list(kp), list(spends) + [1.0])), "spend vector of another length is refused")
    ctx.check(raises(ValueError, lambda: ReachPoint(list(imps) + [1], list(kp), list(spends))), "spend vector of another length is refused")


def ranges(ctx, cfg):
    n = cfg["n"]
    kp = ints(ctx, "kplus", n, 0, BIG)
    p = ReachPoint([1], kp)
    k = ctx.int("k", -3, n + 4)
    try:
        r = p.reach(k)
        ok = True
    except ValueError:
        ok = False
    ctx.check(iff(land(k >= 1, k <= n), ok), "k+ reach is defined exactly for 1..max_frequency")
    if ok:
        ctx.check_eq(r, ssum([ite(k == i + 1, kp[i], 0) for i in range(n)]), "k+ reach by index")
    try:
        r = p.frequency(k)
        ok = True
    except ValueError:
        ok = False
    ctx.check(iff(land(k >= 1, k < n), ok), "frequency is defined exactly for 1..max_frequency-1")
    if ok:
        ctx.check_eq(r, ssum([ite(k == i + 1, kp[i] - kp[i + 1], 0) for i in range(n - 1)]), "frequency by index")


def counts(ctx, cfg):
    n, F = cfg["n"], cfg["F"]
    cs = ints(ctx, "count", n, 1, BIG) + cfg.get("more", [])
    n = len(cs)
    d = {100 + 7 * i: c for i, c in enumerate(cs)}
    f = ReachPoint.user_counts_to_frequencies(d, F)
    kp = ReachPoint.user_counts_to_kplus_reaches(d, F)
    ctx.check(len(f) == F and len(kp) == F, "one entry per frequency")
    for i in range(F):
        ctx.check_eq(kp[i], count([c >= i + 1 for c in cs]), "k+ reach counts the users reached at least k times")
        if i < F - 1:
            ctx.check_eq(f[i], count([c == i + 1 for c in cs]), "frequency counts the users reached exactly k times")
        else:
            ctx.check_eq(f[i], count([c >= F for c in cs]), "last bucket counts everything above")
    ctx.check(len(d) == n, "counts untouched")
    for i, c in enumerate(cs):
        ctx.check_eq(d[100 + 7 * i], c, "counts untouched")


def suffix(ctx, cfg):
    n = cfg["n"]
    f = ints(ctx, "freq", n, 0, BIG)
    given = list(f)
    kp = ReachPoint.frequencies_to_kplus_reaches(given)
    ctx.check(len(kp) == n, "length kept")
    for i in range(n):
        ctx.check_eq(kp[i], ssum(f[i:]), "k+ reach is the sum of the frequencies from k on")
        ctx.check_eq(given[i], f[i], "argument untouched")


ASSUMPTIONS = []
OUTSIDE = "more than 30 frequencies, more than 120 users in a count table, non-numeric entries"


def scenarios(tier):
    out = []
    for n in (1, 2, 3, 5, 11, 30, 120):
        out.append(Scenario("views-%d" % n, views, {"n": n, "pubs": min(n, 3)}, "%d k+ reaches, integers in 0..1e9, any order" % n))
    out.append(Scenario("views-real", views, {"n": 4, "pubs": 12, "real": True}, "4 real k+ reaches, 12 publishers"))
    out.append(Scenario("views-tuple", views, {"n": 3, "pubs": 2, "as": "tuple", "spends": False}, "tuples, no spends"))
    out.append(Scenario("views-array", views, {"n": 3, "pubs": 1, "as": "array"}, "numpy k+ reaches"))
    for n in (1, 2, 5, 12):
        out.append(Scenario("ranges-%d" % n, ranges, {"n": n}, "%d k+ reaches, k in -3..n+4" % n))
        out.append(Scenario("suffix-%d" % n, suffix, {"n": n}, "%d frequencies" % n))
    for n, F in ((0, 3), (1, 1), (4, 3), (2, 12), (3, 1)) + (((5, 4), (3, 10), (2, 30)) if tier == "thorough" else ()):
        out.append(Scenario("counts-%d-%d" % (n, F), counts, {"n": n, "F": F}, "%d users with counts in 1..1e9, max frequency %d" % (n, F)))
    out.append(Scenario("counts-151", counts, {"n": 1, "F": 12, "more": [1 + (i * i) % 14 for i in range(150)]}, "151 users, one with an arbitrary count"))
    return out
