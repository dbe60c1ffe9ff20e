"""C06: imposing a cross-publisher overlap keeps each publisher's own reach curve."""
import numpy as np

from symex.api import *
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators import sequentially_correlated_overlap_data_set as SEQ
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_cardinality_estimation_evaluation_framework.simulations import set_generator as SG

BIG = 10 ** 9


def build(ctx, cfg):
    """Original logs (concrete users, arbitrary increasing spends) and the sets of labels."""
    logs, sets = [], []
    for p, ids in enumerate(cfg["ids"]):
        if cfg.get("sym_spend", True):
            sp = [ctx.real("s%d_%d" % (p, i), 0, BIG, lo_strict=True) for i in range(len(ids))]
            for a, b in zip(sp, sp[1:]):
                ctx.assume(a < b)
        else:
            sp = cfg["spends"][p] if "spends" in cfg else [0.5 * (i + 1) for i in range(len(ids))]
        logs.append(list(zip(ids, sp)))
        n = len(set(ids))
        if p in cfg.get("sym_labels", range(len(cfg["ids"]))):
            labels = [ctx.int("label%d_%d" % (p, i), 0, BIG) for i in range(n)]
        else:
            labels = [const(ctx, (5 * p + 3 * i) % cfg.get("span", 17) + cfg.get("base", 0)) for i in range(n)]
        for i in range(n):
            for j in range(i):
                ctx.assume(labels[i] != labels[j])
        sets.append(labels)
    return logs, sets


def relabel(ctx, cfg):
    ctx.hash_mode = "const"
    logs, sets = build(ctx, cfg)
    seen = {}

    def hook(kind, set_sizes, kw):
        seen["kind"], seen["sizes"], seen["kw"] = kind, list(set_sizes), kw
        return [np.array(s, dtype=object) if ctx.sym else np.array(s) for s in sets]

    SG.HOOK[0] = hook
    given = [list(l) for l in logs]
    if cfg.get("reverse"):
        given = [l[::-1] for l in given]
    names = cfg.get("names") or ["pub%d" % p for p in range(len(given))]
    pubs = [PublisherData(l, names[p]) for p, l in enumerate(given)]
    kind = cfg["kind"]
    rng = np.random.default_rng(7)
    if kind == "plain":
        class Gen(object):
            def __init__(self, set_sizes, **kw):
                self.sets = hook("plain", set_sizes, kw)

            def __iter__(self):
                return iter(self.sets)

        ds = OverlapDataSet(pubs, Gen, {"a": 1, "b": "x"}, name="N")
        ctx.check(seen["kw"] == {"a": 1, "b": "x"}, "overlap generator gets the parameters given")
    elif kind == "independent":
        u = ctx.int("universe", 1, BIG)
        ds = IndependentOverlapDataSet(pubs, u, rng, name="N")
        ctx.check(seen["kind"] == "independent", "independent overlap uses the independent generator")
        ctx.check_eq(seen["kw"]["universe_size"], u, "independent overlap: universe size")
        ctx.check(isinstance(seen["kw"]["random_state"], np.random.RandomState), "independent overlap: random state")
    else:
        sh = ctx.real("shared", 0, 1)
        order = ctx.choose("order", list(SEQ.OrderOptions))
        corr = ctx.choose("corr", list(SEQ.CorrelatedSetsOptions))
        ds = SEQ.SequentiallyCorrelatedOverlapDataSet(pubs, order, corr, sh, rng if ctx.choose("rng", [0, 1]) else None, name="N")
        ctx.check(seen["kind"] == "sequential", "sequentially correlated overlap uses its generator")
        ctx.check(seen["kw"]["order"] == order and seen["kw"]["correlated_sets"] == corr, "sequentially correlated overlap: order and correlation as given")
        ctx.check_eq(seen["kw"]["shared_prop"], sh, "sequentially correlated overlap: shared proportion")
        ctx.check(isinstance(seen["kw"]["random_state"], np.random.RandomState), "sequentially correlated overlap: random state")
    ctx.check(seen["sizes"] == [len(set(i)) for i in cfg["ids"]], "overlap generator is told each publisher's reach")
    ctx.check(ds.publisher_count == len(logs), "no publisher is lost")
    ctx.check(ds.name == "N", "the data set keeps its name")
    for p, log in enumerate(logs):
        pd = ds._data[p]
        ctx.check(pd.name == names[p], "publishers keep their names and order")
        ctx.check(pd.max_impressions == len(log), "publishers keep their number of impressions")
        ctx.check_eq(pd.max_reach, len(set(cfg["ids"][p])), "publishers keep their reach")
        for k in range(len(log) + 1):
            ctx.check_eq(pd.spend_by_impressions(k), log[k - 1][1] if k else 0, "publishers keep the price of every impression")
            if "spends" in cfg and k:
                ctx.check(pd.spend_by_impressions(k) == log[k - 1][1], "publishers keep the price of every impression, exactly")
            counts = pd.user_counts_by_impressions(k)
            orig = {}
            for u, _ in log[:k]:
                orig[u] = orig.get(u, 0) + 1
            ctx.check(sorted([int(c) for c in counts.values()]) == sorted(orig.values()), "publishers keep the frequency distribution of every number of impressions")
            for u in counts:
                ctx.check(lor(*[u == s for s in sets[p]]), "every user of a publisher is one of the labels generated for it")
        full = pd.user_counts_by_impressions(len(log))
        for s in sets[p]:
            ctx.check(lor(*[u == s for u in full]), "every label generated for a publisher is reached by it")
    ids = [s for ss in sets for s in ss]
    total = count([land(*[ids[i] != ids[j] for j in range(i)]) if i else True for i in range(len(ids))])
    ctx.check_eq(ds.maximum_reach, total, "the users of the data set are the union of the labels")
    # the originals are left alone
    for p, log in enumerate(logs):
        ctx.check_eq(pubs[p].max_reach, len(set(cfg["ids"][p])), "the publishers given are not changed")


def seeding(ctx, cfg):
    """The overlap drawn is a function of the generator given."""
    states = []

    def hook(kind, set_sizes, kw):
        states.append(kw["random_state"])
        return [np.arange(n) for n in set_sizes]

    SG.HOOK[0] = hook
    pubs = [PublisherData([(1, 1.0), (2, 2.0)], "a"), PublisherData([(1, 1.0)], "b")]
    seed = ctx.choose("seed", [0, 1, 12345])
    for s in (seed, seed, seed + 1):
        rng = np.random.default_rng(s)
        if cfg["kind"] == "independent":
            IndependentOverlapDataSet(pubs, 100, rng)
            IndependentOverlapDataSet(pubs, 100, rng)
        else:
            for _ in range(2):
                SEQ.SequentiallyCorrelatedOverlapDataSet(pubs, SEQ.OrderOptions.original, SEQ.CorrelatedSetsOptions.all, 0.5, rng)
    draws = [list(st.randint(0, 10 ** 9, 4)) for st in states]
    ctx.check(draws[0] == draws[2] and draws[1] == draws[3], "the same generator gives the same overlap")
    ctx.check(draws[0] != draws[1], "successive data sets drawn from one generator get different overlaps")
    ctx.check(draws[0] != draws[4], "another seed gives another overlap")


def mismatch(ctx, cfg):
    pubs = [PublisherData([(1, 1.0), (2, 2.0)], "a")]
    n = ctx.choose("n", [0, 1, 3])

    class Gen(object):
        def __init__(self, set_sizes):
            pass

        def __iter__(self):
            return iter([np.array(list(range(n)))])

    try:
        OverlapDataSet(pubs, Gen, {}, name="N")
        ctx.fail("labels that do not fit a publisher's reach are refused")
    except Exception:
        ctx.check(True, "labels that do not fit a publisher's reach are refused")


ASSUMPTIONS = [
    "the set generators of the cardinality-estimation framework (not installed) are replaced by a stand-in that returns arbitrary sets of distinct labels of the sizes asked for",
    "spends within one log are distinct and positive",
]
OUTSIDE = "more than 40 publishers; more than 5 labels arbitrary at once per data set in two-publisher scenarios"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    ids12 = [[(3 * p + i * i) % 4 for i in range(1 + p % 4)] for p in range(12)]
    for kind in ("plain", "independent", "sequential"):
        out.append(Scenario(kind + "-1", relabel, {"kind": kind, "ids": [[5, 3, 5, 9]]}, "1 publisher, 4 events, arbitrary labels and spends"))
        out.append(Scenario(kind + "-2", relabel, {"kind": kind, "ids": [[0, 1, 0], [1, 0]], "reverse": kind == "plain"}, "2 publishers, 5 events, arbitrary labels and spends"))
    out.append(Scenario("plain-3", relabel, {"kind": "plain", "ids": [[0], [7, 7, 7, 2], [4]], "sym_spend": False}, "3 publishers"))
    out.append(Scenario("plain-order", relabel, {"kind": "plain", "ids": [[9, 8, 7, 7, 8]], "sym_spend": False}, "1 publisher, users in descending order"))
    if T:
        out.append(Scenario("plain-4", relabel, {"kind": "plain", "ids": [[0, 1], [7, 7, 2], [4, 9]]}, "3 publishers, 2 labels each"))
        out.append(Scenario("plain-5u", relabel, {"kind": "plain", "ids": [[1, 2, 3, 4, 5, 1]]}, "1 publisher, 5 users"))
    for a, b in ((0, 8), (4, 4), (9, 9)):
        out.append(Scenario("plain-12-%d" % a, relabel, {"kind": "plain", "ids": ids12, "sym_spend": False, "sym_labels": (a, b)}, "12 publishers, labels of two of them arbitrary"))
    ids40 = [[(3 * p + i * i) % 4 for i in range(1 + p % 4)] for p in range(40)]
    out.append(Scenario("plain-40", relabel, {"kind": "plain", "ids": ids40, "sym_spend": False, "sym_labels": (33,)}, "40 publishers, labels of one of them arbitrary"))
    out.append(Scenario("plain-60u", relabel, {"kind": "plain", "ids": [[(i * i) % 61 for i in range(50)], [1, 1]], "sym_spend": False, "sym_labels": (1,), "span": 10 ** 6}, "a publisher of 50 impressions"))
    out.append(Scenario("plain-odd", relabel, {"kind": "plain", "names": ["a", "a", "A.b", " "], "ids": [[5, -3, 5], [2 ** 40, 1], [0], [7, 2 ** 40]], "sym_spend": False, "sym_labels": (2,), "base": 2 ** 33, "span": 10 ** 9, "spends": [[1e-12, 1.0 / 3, 0.1 + 0.2 + 1e5], [1e-300, 1e22], [0.7], [1.0, 1.0 + 2.0 ** -50]]}, "names used twice, large labels, prices of many digits"))
    for kind in ("independent", "sequential"):
        out.append(Scenario("seeding-" + kind, seeding, {"kind": kind}, "3 seeds"))
    out.append(Scenario("mismatch", mismatch, {}, "label sets of 0, 1, 3 for a reach of 2"))
    return out
