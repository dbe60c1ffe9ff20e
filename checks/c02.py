"""C02: a publisher's log answers every spend / impression query by one prefix semantics."""
from symex.api import *
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

MAXSPEND = 10 ** 6


def make_log(ctx, cfg):
    """(ids, spends): symbolic at the positions cfg asks for."""
    n = cfg["n"]
    ids = []
    for i in range(n):
        if i in cfg.get("sym_ids", range(n)):
            ids.append(ctx.int("id%d" % i, -(10 ** 9), 10 ** 18))
        else:
            ids.append(cfg["ids"][i])
    spends = []
    for i in range(n):
        if i in cfg.get("sym_spends", range(n)):
            spends.append(ctx.real("spend%d" % i, 0, MAXSPEND))
        else:
            spends.append(cfg["spends"][i])
    return ids, spends


def users(ids):
    """Representatives of the distinct users (branches on equality of symbolic ids)."""
    out = []
    for u in ids:
        if not any([bool(u == v) for v in out]):
            out.append(u)
    return out


def number_of_users(ids):
    return count([land(*[ids[i] != ids[j] for j in range(i)]) if i else True for i in range(len(ids))])


def check_counts(ctx, d, ids, cond, label):
    """d maps exactly the users with a positive count to the number of i with cond[i]."""
    for i, u in enumerate(ids):
        want = count([land(ids[j] == u, cond[j]) for j in range(len(ids))])
        ctx.check_eq(d.get(u, 0), want, label)
    ctx.check_eq(ssum(list(d.values())), count(cond), label + " (total)")
    for v in d.values():
        ctx.check(v >= 1, label + " (no empty entries)")


def by_spend(ctx, cfg):
    if cfg.get("hash", "const") == "const":
        ctx.hash_mode = "const"
    ids, spends = make_log(ctx, cfg)
    n = cfg["n"]
    log = list(zip(ids, spends))
    pub = PublisherData(log, "pub")
    s = ctx.real("s", 0, MAXSPEND + 1)
    d = pub.user_counts_by_spend(s)
    check_counts(ctx, d, ids, [sp <= s for sp in spends], "users reached for a spend are those of the events up to it")
    k = pub.impressions_by_spend(s)
    ctx.check_eq(k, count([sp <= s for sp in spends]), "impressions for a spend count the events up to it")
    ctx.check_eq(ssum(list(d.values())), k, "user counts and impressions agree for a spend")
    ctx.check(pub.max_impressions == n, "total impressions")
    ctx.check_eq(pub.max_spend, smax(*spends), "total spend is the largest")
    ctx.check_eq(pub.max_reach, number_of_users(ids), "total reach counts the distinct users")
    ctx.check(pub.name == "pub", "name kept")
    for i in range(n):
        ctx.check(land(log[i][0] == ids[i], log[i][1] == spends[i]), "the caller's log is left alone")
    if n and not cfg.get("light"):
        back = pub.spend_by_impressions(k)
        ctx.check_le(back, s, "the spend for the impressions a spend buys does not exceed it")


def by_impressions(ctx, cfg):
    ctx.hash_mode = "const"
    ids, spends = make_log(ctx, cfg)
    n = cfg["n"]
    pub = PublisherData(list(zip(ids, spends)), "pub")
    k = ctx.int("k", 0, cfg.get("kmax", n + 2))
    d = pub.user_counts_by_impressions(k)
    lo_rank = [count([spends[j] <= spends[i] for j in range(n)]) for i in range(n)]
    hi_rank = [count([spends[j] < spends[i] for j in range(n)]) for i in range(n)]
    for i, u in enumerate(ids):
        got = d.get(u, 0)
        ctx.check_le(count([land(ids[j] == u, lo_rank[j] <= k) for j in range(n)]), got, "a purchase of k impressions includes every event among the first k")
        ctx.check_le(got, count([land(ids[j] == u, hi_rank[j] < k) for j in range(n)]), "a purchase of k impressions includes no event after the first k")
    ctx.check_eq(ssum(list(d.values())), smin(k, n), "a purchase of k impressions shows k impressions")
    v = pub.spend_by_impressions(k)
    if k == 0:
        ctx.check_eq(v, 0, "no impressions cost nothing")
    else:
        kk = smin(k, n)
        ctx.check(land(count([sp < v for sp in spends]) < kk, count([sp <= v for sp in spends]) >= kk), "the spend for k impressions is the k-th smallest")
        ctx.check_le(smin(k, n), pub.impressions_by_spend(v), "paying for k impressions buys at least k")


ASSUMPTIONS = ["spends are finite and non-negative; user ids are integers; dictionaries keyed by symbolic ids compare them for equality on every lookup"]
OUTSIDE = "logs of more than 60 events (12 with more than two arbitrary); more than 3 events with ids and spends both arbitrary"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        out.append(Scenario("spend-%d" % n, by_spend, {"n": n}, "%d events, arbitrary ids and spends" % n))
        out.append(Scenario("impressions-%d" % n, by_impressions, {"n": n}, "%d events, arbitrary ids and spends" % n))
    n = 5 if T else 4
    fixed_ids = [5, 9, 5, 9, 7]
    out.append(Scenario("spend-order", by_spend, {"n": n, "sym_ids": (), "ids": fixed_ids, "hash": "enum"}, "%d events, arbitrary spends, two users" % n))
    out.append(Scenario("impressions-order", by_impressions, {"n": n, "sym_ids": (), "ids": fixed_ids}, "%d events, arbitrary spends" % n))
    n = 5 if T else 4
    sp = [3.0, 1.0, 2.0, 2.0, 0.5]
    out.append(Scenario("spend-users", by_spend, {"n": n, "sym_spends": (), "spends": sp}, "%d events, arbitrary users" % n))
    out.append(Scenario("impressions-users", by_impressions, {"n": n, "sym_spends": (), "spends": sp}, "%d events, arbitrary users" % n))
    long_ids = [11, 2, 3, 11, 5, 6, 2, 8, 9, 10, 11, 12]
    for tag, sps in (("up", [float(i + 1) for i in range(12)]), ("down", [float(12 - i) for i in range(12)]), ("mixed", [5.0, 1.0, 9.5, 2.0, 2.0, 11.0, 0.25, 7.0, 3.0, 3.0, 12.0, 1.5])):
        out.append(Scenario("spend-12-" + tag, by_spend, {"n": 12, "sym_ids": (), "ids": long_ids, "sym_spends": (4,), "spends": sps, "hash": "enum"}, "12 events, one arbitrary spend among fixed ones, arbitrary query"))
        out.append(Scenario("impressions-12-" + tag, by_impressions, {"n": 12, "sym_ids": (), "ids": long_ids, "sym_spends": (7,), "spends": sps, "kmax": 14}, "12 events, one arbitrary spend among fixed ones, k in 0..14"))
    close = [0.3, 0.1 + 0.2, 1.0, 1.0 - 2.0 ** -50, 1.0, 1e-300, 0.0, 123456.7890625, 123456.7890626, 1.0 + 2.0 ** -50, 1e5, 99999.99999999]
    for tag, sps in (("close", close), ("close-rev", close[::-1])):
        out.append(Scenario("spend-" + tag, by_spend, {"n": 12, "sym_ids": (), "ids": long_ids, "sym_spends": (), "spends": sps, "hash": "enum"}, "12 events whose prices nearly coincide, arbitrary query"))
        out.append(Scenario("impressions-" + tag, by_impressions, {"n": 12, "sym_ids": (), "ids": long_ids, "sym_spends": (), "spends": sps, "kmax": 14}, "12 events whose prices nearly coincide"))
    n = 200 if T else 60
    sps = [float((i * 37) % 101) / 4 for i in range(n)]
    far = [(i * i) % 31 for i in range(n)]
    out.append(Scenario("spend-large", by_spend, {"n": n, "sym_ids": (), "ids": far, "sym_spends": (), "spends": sps, "hash": "enum"}, "%d events with ties in no order, arbitrary query" % n))
    out.append(Scenario("impressions-large", by_impressions, {"n": n, "sym_ids": (), "ids": far, "sym_spends": (), "spends": sps}, "%d events with ties in no order, any number of impressions" % n))
    return out
