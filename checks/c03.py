"""C03: publisher logs and data sets survive being written and read back."""
import io

from symex.api import *
from checks.memfs import MemFS
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign

SMALL = 10 ** 6


def same_log(ctx, a, b, label, s, k):
    """Two publishers answer every query alike (s, k arbitrary)."""
    ctx.check(a.max_impressions == b.max_impressions, label + ": number of events")
    ctx.check_eq(a.max_spend, b.max_spend, label + ": total spend")
    ctx.check_eq(a.max_reach, b.max_reach, label + ": total reach")
    for q in range(a.max_impressions + 1):
        ctx.check_eq(a.spend_by_impressions(q), b.spend_by_impressions(q), label + ": spend for a number of impressions")
        da, db = a.user_counts_by_impressions(q), b.user_counts_by_impressions(q)
        ctx.check(len(da) == len(db), label + ": users for a number of impressions")
        for u, c in da.items():
            ctx.check_eq(db.get(u, 0), c, label + ": users for a number of impressions")
    if s is not None:
        ctx.check_eq(a.impressions_by_spend(s), b.impressions_by_spend(s), label + ": impressions for a spend")
        da, db = a.user_counts_by_spend(s), b.user_counts_by_spend(s)
        ctx.check(len(da) == len(db), label + ": users for a spend")
        for u, c in da.items():
            ctx.check_eq(db.get(u, 0), c, label + ": users for a spend")


def log_round_trip(ctx, cfg):
    n = cfg["n"]
    ctx.hash_mode = "const"
    ids = ints(ctx, "id", n, -(10 ** 6), 10 ** 18)
    spends = reals(ctx, "spend", n, 0, cfg.get("max", SMALL))
    for i, v in enumerate(cfg.get("more", [])):
        ids.append([0, 1, -1, 2 ** 60 + 1, 2 ** 60][i % 5])
        spends.append(v)
    if cfg.get("sorted"):
        for i in range(n - 1):
            ctx.assume(spends[i] < spends[i + 1])
            ctx.assume(ids[i] < ids[i + 1])
    a = PublisherData(list(zip(ids, spends)), "p")
    f = io.StringIO()
    a.write_publisher_data(f)
    f.seek(0)
    b = PublisherData.read_publisher_data(f)
    s = ctx.real("s", 0, SMALL) if cfg.get("query") else None
    same_log(ctx, a, b, "log read back", s, None)
    if cfg.get("more") and not n:
        ctx.check(a._spends == b._spends and [u for u, _ in a._data] == [u for u, _ in b._data], "log read back: exactly the same")


def permuter(ctx, name, n):
    def order(xs):
        xs = list(xs)
        out = []
        i = 0
        while xs:
            out.append(xs.pop(ctx.choose("%s%d_%d" % (name, len(out), len(xs)), list(range(len(xs)))) if len(xs) > 1 and len(out) < n else 0))
        return out

    return order


def build(ctx, names, events, tag=""):
    pubs = []
    for j, name in enumerate(names):
        m = events[j] if isinstance(events, (list, tuple)) else events
        log = [(1000 * j + i, ctx.real("%ss%d_%d" % (tag, j, i), i + 1, i + 2)) for i in range(m)]
        pubs.append(PublisherData(log, name))
    return pubs


def data_set_round_trip(ctx, cfg):
    names = cfg["names"]
    pubs = build(ctx, names, cfg["events"])
    ds = DataSet(pubs, "theset")
    fs = MemFS(permuter(ctx, "order", cfg.get("shuffle", 0)))
    fs.mkdir("/data/other", parents=True)
    fs.files["/data/other/keep"] = "1,1.0\n"
    ds.write_data_set("/data", cfg.get("dir"), filesystem=fs)
    d = "/data/" + (cfg.get("dir") or "theset")
    back = DataSet.read_data_set(d, fs)
    ctx.check(back.name == (cfg.get("dir") or "theset"), "a data set read is named after its directory")
    check_same(ctx, ds, back, names, "data set read back")
    ctx.check(fs.files["/data/other/keep"] == "1,1.0\n", "other files untouched")
    before = dict(fs.files)
    # a second generation: what was read can be written elsewhere and read again
    back.write_data_set("/copy", filesystem=fs)
    for p, text in before.items():
        ctx.check(fs.files.get(p) == text, "writing a copy leaves the original alone")
    again = DataSet.read_data_set("/copy/" + back.name, fs)
    check_same(ctx, ds, again, names, "copy of a data set read back")


def rewritten(ctx, cfg):
    """Writing a data set where one was read before: the next reading gives the one written last."""
    names = cfg["names"]
    fs = MemFS(permuter(ctx, "order", 0))
    for step in range(cfg["steps"]):
        ds = DataSet(build(ctx, names, [1 + (step + j) % 3 for j in range(len(names))], "w%d" % step), "theset")
        ds.write_data_set("/data", filesystem=fs)
        if step == cfg["steps"] - 1 or ctx.choose("read%d" % step, [False, True]):
            back = DataSet.read_data_set("/data/theset", fs)
            check_same(ctx, ds, back, names, "data set written again and read back")


def check_same(ctx, ds, back, names, label):
    ctx.check(back.publisher_count == len(names), label + ": number of publishers")
    if back.publisher_count != len(names):
        return
    by_name = {p.name: p for p in back._data}
    ctx.check(sorted(by_name) == sorted(names), label + ": publisher names")
    if sorted(by_name) != sorted(names):
        return
    ctx.check([p.name for p in back._data] == sorted(names), label + ": publishers in the order of their names")
    for p in ds._data:
        same_log(ctx, p, by_name[p.name], label, None, None)
    ctx.check_eq(back.maximum_reach, ds.maximum_reach, label + ": maximum reach")


def malformed(ctx, cfg):
    """A line that is not id,spend makes reading fail with the line number."""
    n = cfg["n"]
    bad_at = ctx.choose("bad_at", list(range(n)))
    lines = []
    for i in range(n):
        lines.append("%d,%s\n" % (i, 0.5 * i))
    lines[bad_at] = cfg["bad"]
    try:
        PublisherData.read_publisher_data(io.StringIO("".join(lines)))
        ctx.fail("a malformed line is refused")
    except RuntimeError as e:
        ctx.check(str(bad_at + 1) in str(e), "the error names the line")


ASSUMPTIONS = ["text of a number is an opaque token that int() / float() read back exactly (Python's repr round-trips floats); rounding formats keep the rounded value", "file system: in-memory implementation of the framework's own file system interface, listing directories in an arbitrary order"]
OUTSIDE = "more than 40 publishers; file names that the file system refuses; concurrent writers"


def scenarios(tier):
    T = tier == "thorough"
    out = [Scenario("log-%d" % n, log_round_trip, {"n": n, "query": n <= 2}, "%d events, arbitrary ids and spends up to 1e6" % n) for n in (1, 2, 3)]
    out.append(Scenario("log-12", log_round_trip, {"n": 12, "sorted": True, "max": 10 ** 9}, "12 events, increasing ids and spends up to 1e9"))
    out.append(Scenario("set-1", data_set_round_trip, {"names": ["a"], "events": 3}, "1 publisher"))
    out.append(Scenario("set-3", data_set_round_trip, {"names": ["b", "a", "c"], "events": [2, 1, 3], "shuffle": 3}, "3 publishers, directory listed in any order"))
    out.append(Scenario("set-dir", data_set_round_trip, {"names": ["pub_2.csv", "pub_1.csv"], "events": 2, "dir": "elsewhere", "shuffle": 2}, "2 publishers, directory name given"))
    out.append(Scenario("set-12", data_set_round_trip, {"names": ["publisher_%d" % i for i in range(1, 13)], "events": [1, 2, 1, 2, 1, 1, 1, 3, 1, 1, 1, 1], "shuffle": 1}, "12 publishers"))
    out.append(Scenario("set-40", data_set_round_trip, {"names": ["%d" % i for i in range(90, 130)], "events": 1, "shuffle": 1}, "40 publishers with numbers for names"))
    out.append(Scenario("log-25", log_round_trip, {"n": 25, "sorted": True, "max": 10 ** 9}, "25 events, increasing ids and spends up to 1e9"))
    out.append(Scenario("rewritten", rewritten, {"names": ["a", "b"], "steps": 4 if T else 3}, "2 publishers, written up to %d times to the same place, read in between or not" % (4 if T else 3)))
    for i, bad in enumerate(["1\n", "1,2,3\n", "x,1.0\n", "1,y\n", "\n", "1.5,2\n"]):
        out.append(Scenario("malformed-%d" % i, malformed, {"n": 3, "bad": bad}, "3 lines, one of them %r" % bad))
    awkward = [0.0, 0.1 + 0.2, 1.0 / 3, 1e22, 1e-300, 5e-324, 2.0 ** 53 + 2, 123456.789012345, 1e16, 0.3, 99999.99999999999]
    out.append(Scenario("log-awkward", log_round_trip, {"n": 1, "query": True, "more": awkward}, "%d events at prices of many digits or great size, one arbitrary" % (len(awkward) + 1)))
    out.append(Scenario("log-exact", log_round_trip, {"n": 0, "query": True, "more": awkward}, "%d events at prices of many digits or great size" % len(awkward)))
    odd = [".hidden", "a.b", "a", "A", "Z", " x ", "_y", "-1", "b", "a b.csv", "\u00fc", "#1", "a~", "B.txt"]
    out.append(Scenario("set-odd", data_set_round_trip, {"names": odd, "events": 1, "dir": "v1.2 x", "shuffle": 1}, "publisher names with dots, capitals, spaces, signs"))
    return out
