"""C04: a data set's ground truth reach counts every user once, over all publishers."""
from symex.api import *
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel

MAXSPEND = 10 ** 6


def build(ctx, cfg):
    """Logs [[(id, spend)...]...] with strictly increasing spends per publisher, shuffled as cfg says."""
    logs = []
    for p, m in enumerate(cfg["events"]):
        log = []
        for i in range(m):
            if cfg.get("ids") is None or cfg["ids"][p][i] is None:
                u = ctx.int("id%d_%d" % (p, i), -5, cfg.get("maxid", 10 ** 18))
            else:
                u = cfg["ids"][p][i]
            if cfg.get("sym_spend", True):
                s = ctx.real("s%d_%d" % (p, i), 0, MAXSPEND)
            else:
                s = 1.5 * (i + (0 if cfg.get("free") and p % 2 == 0 else 1)) + (0.25 * p if not cfg.get("free") else 0)
            log.append((u, s))
        if cfg.get("sym_spend", True):
            for i in range(m - 1):
                ctx.assume(log[i][1] < log[i + 1][1])
        logs.append(log)
    return logs


def expected(ctx, logs, included, F):
    """k+ reaches when event (p, i) is included iff included[p][i]."""
    ev = [(u, inc) for log, incs in zip(logs, included) for (u, _), inc in zip(log, incs)]
    out = []
    per_event = []
    for a, (u, inc) in enumerate(ev):
        first = land(*[lnot(ev[b][0] == u) for b in range(a)]) if a else True
        c = count([land(v == u, i2) for v, i2 in ev])
        per_event.append((first, c))
    for k in range(1, F + 1):
        out.append(count([land(first, c >= k) for first, c in per_event]))
    return out


def make(ctx, cfg, logs, universe=None):
    pubs = []
    for p, log in enumerate(logs):
        given = list(log)
        if cfg.get("reverse"):
            given = given[::-1]
        pubs.append(PublisherData(given, "p%d" % p))
    return DataSet(pubs, "ds", universe)


def common(ctx, cfg, ds, logs, universe):
    ctx.check(ds.publisher_count == len(logs), "number of publishers")
    ids = [u for log in logs for u, _ in log]
    total = count([land(*[ids[i] != ids[j] for j in range(i)]) if i else True for i in range(len(ids))])
    ctx.check_eq(ds.maximum_reach, total, "maximum reach counts the distinct users of all publishers")
    ctx.check_eq(ds.universe_size, universe if universe is not None else 2 * total, "universe size as given, by default twice the maximum reach")


def check_point(ctx, point, want, F, imps, spends, ds, label):
    ctx.check(point.max_frequency == F, label + ": as many k+ reaches as asked for")
    for k in range(1, F + 1):
        ctx.check_eq(point.reach(k), want[k - 1], label + ": k+ reach counts the users with k or more impressions over all publishers")
    for i in range(len(imps)):
        ctx.check_eq(point.impressions[i], imps[i], label + ": impressions reported")
        ctx.check_eq(point.spends[i], spends[i], label + ": spends reported")
    ctx.check_eq(point.universe_size, ds.universe_size, label + ": universe reported")


def by_impressions(ctx, cfg):
    if cfg.get("hash", "const") == "const":
        ctx.hash_mode = "const"
    logs = build(ctx, cfg)
    universe = ctx.int("universe", 1, 10 ** 9) if cfg.get("universe") else None
    ds = make(ctx, cfg, logs, universe)
    common(ctx, cfg, ds, logs, universe)
    ks = []
    for p, log in enumerate(logs):
        if p in cfg.get("sym_query", range(len(logs))):
            ks.append(ctx.int("k%d" % p, 0, len(log) + 1))
        else:
            ks.append(cfg["query"][p])
    F = cfg["F"]
    pt = ds.reach_by_impressions(ks, F) if F else ds.reach_by_impressions(ks)
    F = F or 10
    inc = [[k > i for i in range(len(log))] for k, log in zip(ks, logs)]
    want = expected(ctx, logs, inc, F)
    sp = [ssum([0] + [ite(smin(k, len(log)) == i + 1, log[i][1], 0) for i in range(len(log))]) for k, log in zip(ks, logs)]
    check_point(ctx, pt, want, F, ks, sp, ds, "reach by impressions")
    vec = ds.spend_by_impressions(ks)
    for i in range(len(logs)):
        ctx.check_eq(vec[i], sp[i], "spend vector for an impression vector")
    ctx.check(len(vec) == len(logs), "one spend per publisher")
    if cfg.get("cross"):
        p2 = ds.reach_by_spend(vec, F)
        for k in range(1, F + 1):
            # (paying nothing also buys impressions that cost nothing)
            free = lor(*[land(q == 0, log[0][1] == 0) for q, log in zip(ks, logs)])
            ctx.check(lor(free, p2.reach(k) == pt.reach(k)), "buying k impressions or paying for them reaches the same users")
    if cfg.get("curve"):
        gt = GroundTruthReachCurveModel(ds, cfg["curve"] - 1)
        j = cfg["curve"] - 1
        one = gt.by_impressions([ks[j]], F)
        w1 = expected(ctx, [logs[j]], [inc[j]], F)
        for k in range(1, F + 1):
            ctx.check_eq(one.reach(k), w1[k - 1], "ground truth curve of a publisher counts its own users")
        ctx.check_eq(gt.max_reach, count([land(*[logs[j][a][0] != logs[j][b][0] for b in range(a)]) if a else True for a in range(len(logs[j]))]), "ground truth curve: maximum reach")


def by_spend(ctx, cfg):
    if cfg.get("hash", "const") == "const":
        ctx.hash_mode = "const"
    logs = build(ctx, cfg)
    ds = make(ctx, cfg, logs)
    common(ctx, cfg, ds, logs, None)
    ss = []
    for p, log in enumerate(logs):
        if p in cfg.get("sym_query", range(len(logs))):
            ss.append(ctx.real("q%d" % p, 0, MAXSPEND + 1))
        else:
            ss.append(cfg["query"][p])
    F = cfg["F"]
    pt = ds.reach_by_spend(ss, F) if F else ds.reach_by_spend(ss)
    F = F or 10
    inc = [[sp <= s for _, sp in log] for s, log in zip(ss, logs)]
    want = expected(ctx, logs, inc, F)
    imps = [count(i) for i in inc]
    check_point(ctx, pt, want, F, imps, ss, ds, "reach by spend")
    vec = ds.impressions_by_spend(ss)
    for i in range(len(logs)):
        ctx.check_eq(vec[i], imps[i], "impression vector for a spend vector")
    ctx.check(len(vec) == len(logs), "one impression count per publisher")
    if cfg.get("curve"):
        j = cfg["curve"] - 1
        gt = GroundTruthReachCurveModel(ds, j)
        one = gt.by_spend([ss[j]], F)
        w1 = expected(ctx, [logs[j]], [inc[j]], F)
        for k in range(1, F + 1):
            ctx.check_eq(one.reach(k), w1[k - 1], "ground truth curve by spend counts the publisher's own users")
        ctx.check_eq(gt.impressions_for_spend(ss[j]), imps[j], "ground truth curve: impressions for a spend")


def lengths(ctx, cfg):
    logs = [[(1, 1.0), (2, 2.0)], [(2, 1.0)]]
    ds = make(ctx, {}, logs)
    n = ctx.choose("n", [0, 1, 3, 4])
    for f, v in ((ds.reach_by_impressions, 1), (ds.reach_by_spend, 1.0)):
        try:
            f([v] * n)
            ctx.fail("a query with the wrong number of publishers is refused")
        except ValueError:
            ctx.check(True, "a query with the wrong number of publishers is refused")
    a = DataSet([PublisherData(list(l)) for l in logs])
    ctx.check(isinstance(a.name, str) and len(a.name) > 0, "an unnamed data set gets a name")


ASSUMPTIONS = ["spends within one publisher's log are distinct (ties between events are covered by C02)"]
OUTSIDE = "more than 40 publishers; more than 4 events whose users are all arbitrary; more than 75 frequencies"

IDS12 = [[(7 * p + 3 * i * i) % 11 for i in range(2 + p % 3)] for p in range(12)]


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for tag, fn in (("imp", by_impressions), ("spend", by_spend)):
        out.append(Scenario(tag + "-1x3", fn, {"events": [3], "F": 3, "cross": True, "curve": 1, "universe": True}, "1 publisher, 3 events, arbitrary users", merge=False))
        out.append(Scenario(tag + "-2+2", fn, {"events": [2, 2], "F": 3, "sym_spend": False, "curve": 2}, "2 publishers, 2 events each, arbitrary users"))
        out.append(Scenario(tag + "-spends", fn, {"events": [2, 3], "F": 4, "ids": [[1, 2], [2, 3, 2]], "cross": True, "reverse": True, "hash": "enum", "curve": 2}, "2 publishers, fixed users, arbitrary spends, log given in reverse"))
        out.append(Scenario(tag + "-3pub", fn, {"events": [1, 2, 1], "F": 2, "sym_spend": False, "universe": True}, "3 publishers, arbitrary users"))
        out.append(Scenario(tag + "-cap", fn, {"events": [4, 3], "F": 1, "ids": [[1, 2, 1, 1], [1, 2, 3]], "sym_spend": False, "hash": "enum"}, "frequency cap 1"))
        out.append(Scenario(tag + "-default", fn, {"events": [12, 2], "F": None, "ids": [[5] * 12, [5, 6]], "sym_spend": False, "hash": "enum"}, "a user seen up to 13 times, default maximum frequency"))
        out.append(Scenario(tag + "-F30", fn, {"events": [3, 2], "F": 30, "ids": [[1, 1, 2], [1, 2]], "sym_spend": False, "hash": "enum"}, "30 frequencies"))
        out.append(Scenario(tag + "-free", fn, {"events": [2, 2, 1], "F": 3, "ids": [[1, 2], [2, 3], [3]], "sym_spend": False, "free": True, "hash": "enum", "curve": 1}, "impressions that cost nothing"))
        q = ([1] * 12) if tag == "imp" else [2.0] * 12
        for a, b in ((0, 11), (5, 10)):
            out.append(Scenario("%s-12pub-%d" % (tag, a), fn, {"events": [len(x) for x in IDS12], "F": 12, "ids": IDS12, "sym_spend": False, "sym_query": (a, b), "query": q, "hash": "enum", "curve": b + 1}, "12 publishers, two of them queried arbitrarily"))
        n = 40
        ids = [[(7 * p + 3 * i * i) % 53 for i in range(1 + p % 4)] for p in range(n)]
        for a in (0, 21, 39):
            out.append(Scenario("%s-40pub-%d" % (tag, a), fn, {"events": [len(x) for x in ids], "F": 20, "ids": ids, "sym_spend": False, "sym_query": (a,), "query": ([2] * n) if tag == "imp" else [3.0] * n, "hash": "enum", "curve": a + 1}, "40 publishers, one of them queried arbitrarily"))
        out.append(Scenario(tag + "-long", fn, {"events": [60, 40], "F": 8, "ids": [[(i * i) % 29 for i in range(60)], [(3 * i) % 31 for i in range(40)]], "sym_spend": False, "sym_query": (0,), "query": [0, 30] if tag == "imp" else [0.0, 45.0], "hash": "enum", "curve": 1}, "100 events, one arbitrary query"))
        out.append(Scenario(tag + "-wide", fn, {"events": [25, 130], "F": 2, "ids": [[2 * i + 5 for i in range(25)], [i if i % 9 else 3 for i in range(130)]], "sym_spend": False, "sym_query": (0,), "query": [0, 120] if tag == "imp" else [0.0, 180.0], "hash": "enum"}, "more than a hundred users"))
        out.append(Scenario(tag + "-F75", fn, {"events": [70, 3], "F": 75, "ids": [[1] * 66 + [2] * 4, [1, 2, 1]], "sym_spend": False, "sym_query": (1,), "query": [66, 0] if tag == "imp" else [99.0, 0.0], "hash": "enum"}, "75 frequencies, a user seen up to 68 times"))
        if T:
            out.append(Scenario(tag + "-3+2", fn, {"events": [3, 2], "F": 4, "sym_spend": False, "curve": 1}, "2 publishers, 5 events, arbitrary users"))
            out.append(Scenario(tag + "-2+2s", fn, {"events": [2, 2], "F": 3, "cross": True}, "2 publishers, arbitrary users and spends"))
    out.append(Scenario("lengths", lengths, {}, "query vectors of 0, 1, 3, 4 entries for 2 publishers"))
    return out
