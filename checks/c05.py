"""C05: a data design lists exactly the data sets added to it and gives each back unchanged."""
from symex.api import *
from checks.memfs import MemFS
from checks.c03 import build, check_same, permuter
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet


def make_set(ctx, name, tag, pubs=1, events=2):
    return DataSet(build(ctx, ["pub%d" % j for j in range(pubs)], events, tag), name)


def history(ctx, cfg):
    """An arbitrary sequence of add / reopen over a few names."""
    fs = MemFS(permuter(ctx, "order", cfg.get("shuffle", 1)))
    names = cfg["names"]
    dd = DataDesign("/design", fs)
    ctx.check(dd.count == 0 and dd.names == [], "a new design is empty")
    stored = {}
    for step in range(cfg["steps"]):
        op = ctx.choose("op%d" % step, ["reopen"] + names)
        if op == "reopen":
            dd = DataDesign("/design", fs)
        else:
            ds = make_set(ctx, op, "t%d" % step, 1 + step % 2, 1 + step % 2)
            before = dict(fs.files)
            try:
                dd.add(ds)
                added = True
            except ValueError:
                added = False
            ctx.check(added == (op not in stored), "a data set is refused exactly when its name is taken")
            if added and op not in stored:
                stored[op] = ds
                for p, text in before.items():
                    ctx.check(fs.files.get(p) == text, "adding a data set leaves the others' files alone")
            else:
                ctx.check(fs.files == before, "a refused data set changes nothing")
        ctx.check(dd.names == sorted(stored), "the design lists exactly the data sets added, in order")
        ctx.check(dd.count == len(stored), "the design counts the data sets added")
    for opened in (dd, DataDesign("/design", fs)):
        ctx.check(opened.names == sorted(stored), "reopening lists the same data sets")
        for n, ds in stored.items():
            back = opened.by_name(n)
            ctx.check(back.name == n, "a data set is found under its name")
            check_same(ctx, ds, back, [p.name for p in ds._data], "data set by name")


def handles(ctx, cfg):
    """Two design objects open on one directory: names are taken in the directory, not in the object."""
    fs = MemFS(permuter(ctx, "order", 0))
    dds = [DataDesign("/design", fs), DataDesign("/design", fs)]
    stored = {}
    for step in range(cfg["steps"]):
        dd = dds[ctx.choose("who%d" % step, [0, 1])]
        name = ctx.choose("name%d" % step, cfg["names"])
        ds = make_set(ctx, name, "h%d" % step, 1 + step % 2, 1)
        before = dict(fs.files)
        try:
            dd.add(ds)
            added = True
        except ValueError:
            added = False
        ctx.check(added == (name not in stored), "a name taken through another object is refused too")
        if added:
            stored.setdefault(name, ds)
            for p, text in before.items():
                ctx.check(fs.files.get(p) == text, "adding a data set leaves the others' files alone")
            ctx.check(name in dd.names, "a data set added is listed")
        else:
            ctx.check(fs.files == before, "a refused data set changes nothing")
    back = DataDesign("/design", fs)
    ctx.check(back.names == sorted(stored) and back.count == len(stored), "reopening lists the data sets added by either object")
    for n, ds in stored.items():
        check_same(ctx, ds, back.by_name(n), [p.name for p in ds._data], "data set by name")


def many(ctx, cfg):
    N = cfg.get("n", 12)
    fs = MemFS(permuter(ctx, "order", cfg.get("shuffle", 2)))
    dd = DataDesign("/a/b/design", fs)
    names = cfg.get("names") or ["set_%d" % i for i in range(N)]
    N = len(names)
    sets = {}
    for i, n in enumerate(names):
        sets[n] = make_set(ctx, n, "m%d" % i, 1 + (i % 3), 1)
        dd.add(sets[n])
    ctx.check(dd.names == sorted(names) and dd.count == N, "many data sets are listed")
    for n in names:
        try:
            dd.add(sets[n])
            ctx.fail("a data set is refused exactly when its name is taken")
        except ValueError:
            pass
    fs.files["/a/b/design/README"] = "not a data set"
    other = DataDesign("/a/b/design", fs)
    ctx.check(other.names == sorted(names) and other.count == N, "many data sets are listed")
    i = ctx.choose("i", cfg.get("pick") or list(range(N)))
    back = other.by_name(names[i])
    check_same(ctx, sets[names[i]], back, [p.name for p in sets[names[i]]._data], "data set by name")


ASSUMPTIONS = ["file system: in-memory implementation of the framework's file system interface, listing directories in an arbitrary order"]
OUTSIDE = "histories of more than 4 operations, more than 60 data sets, data sets removed or edited behind the design's back"


def scenarios(tier):
    T = tier == "thorough"
    return [
        Scenario("history-3", history, {"names": ["one", "two"], "steps": 3}, "3 operations (add one of 2 names / reopen), arbitrary spends"),
        Scenario("history-4", history, {"names": ["b10", "b9", "a"], "steps": 4, "shuffle": 0 if not T else 1}, "4 operations over 3 names"),
        Scenario("handles-3", handles, {"names": ["one", "two"], "steps": 3}, "3 additions through two objects open on the same directory"),
        Scenario("many", many, {}, "12 data sets, any of them read back"),
        Scenario("many-60", many, {"n": 60, "shuffle": 0, "pick": [0, 31, 59]}, "60 data sets, three of them read back"),
        Scenario("many-odd", many, {"names": [".hidden", "a.b", "a", "A", "Z", " x ", "_y", "-1", "b", "v1.2.csv", "\u00fc", "p=3,rep=1", "a~", "p=3,rep=10"], "shuffle": 1, "pick": None}, "names with dots, capitals, spaces, signs"),
    ]
