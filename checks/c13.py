"""C13: the local and the cloud file system wrapper give back what was stored through them."""
import io
import os
import shutil
from pathlib import Path
import tempfile

import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import cloudpathlib.local

from symex.api import *
from checks import c27, trials as TR
from checks.c03 import build, check_same
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.filesystem_wrappers import filesystem_cloudpath_wrapper as CW
from wfa_planning_evaluation_framework.filesystem_wrappers import filesystem_pathlib_wrapper as PW


class Bucket(cloudpathlib.local.LocalGSClient):
    """The stand-in, except that it lists a directory without files as empty, as a bucket does, instead of failing."""

    def _list_dir(self, cloud_path, recursive=False):
        if not self._cloud_path_to_local(cloud_path).exists():
            return iter([])
        return super()._list_dir(cloud_path, recursive)

    def _remove(self, cloud_path):
        super()._remove(cloud_path)
        d = self._cloud_path_to_local(cloud_path).parent
        while d.is_dir() and not any(d.iterdir()) and d != Path(self._local_storage_dir):
            d.rmdir()
            d = d.parent


class Store(object):
    """A wrapper over an empty scratch directory (the cloud one over cloudpathlib's local stand-in for a bucket)."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c13.")
        if self.kind == "disk":
            self.root = os.path.join(self.dir, "root")
            os.mkdir(self.root)
            self.fs = PW.FilesystemPathlibWrapper()
        else:
            self.client = Bucket(local_storage_dir=os.path.join(self.dir, "bucket"), local_cache_dir=os.path.join(self.dir, "cache"))
            client = self.client
            self.patch = patched((CW, "CloudPath", lambda p: client.CloudPath(p)), (CW.FilesystemCloudpathWrapper, "set_default_client_to_gs_client", lambda self: None))
            self.patch.__enter__()
            self.root = "gs://bucket/root"
            self.fs = CW.FilesystemCloudpathWrapper()
        return self

    def __exit__(self, *exc):
        if self.kind == "cloud":
            self.patch.__exit__()
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


FILES = ["a", "d/b.csv", "d/c", "d/e/f.csv"]


class Model(object):
    """What the interface says: files with text; directories, in the cloud, are where files are."""

    def __init__(self, kind):
        self.kind, self.files, self.dirs = kind, {}, {""}

    def is_dir(self, p):
        if self.kind == "disk":
            return p in self.dirs
        return any([f.startswith(p + "/") or p == "" for f in self.files])

    def children(self, p, suffix=""):
        out = set()
        for f in list(self.files) + list(self.dirs):
            if f and f != p and (p == "" or f.startswith(p + "/")):
                out.add(f[len(p) + 1 if p else 0:].split("/")[0])
        if self.kind == "cloud" and p == "":
            pass
        return sorted([(p + "/" if p else "") + c for c in out if c.endswith(suffix)])


def refused(f):
    try:
        f()
        return False
    except Exception:
        return True


def read(fs, path):
    with fs.open(path) as f:
        return f.read()


def agree(ctx, st, m, values):
    fs = st.fs
    at = lambda p: st.root + ("/" + p if p else "")
    for p in FILES + ["d", "d/e", "none"]:
        ctx.check(fs.is_file(at(p)) == (p in m.files), "a file is there exactly if it was written and not removed")
        ctx.check(fs.is_dir(at(p)) == m.is_dir(p), "a directory is one")
        ctx.check(fs.exists(at(p)) == (p in m.files or m.is_dir(p)), "what is there exists")
    for p, text in m.files.items():
        got = read(fs, at(p))
        ctx.check(got == text, "what was written is read back")
        for line, v in zip(got.split("\n"), values[p]):
            ctx.check_eq(shims.sx_int(line), v, "numbers written are read back")
    for p in ("", "d", "d/e"):
        if m.is_dir(p):
            got = sorted(list(fs.glob(at(p), "*")))
            ctx.check(got == [at(c) for c in m.children(p)], "a directory lists what is in it, once")
            ctx.check(sorted(list(fs.glob(at(p), "*.csv"))) == [at(c) for c in m.children(p, ".csv")], "a pattern lists what matches it")


def history(ctx, cfg):
    with Store(cfg["kind"]) as st:
        fs = st.fs
        m = Model(cfg["kind"])
        values = {}
        at = lambda p: st.root + "/" + p
        for k in range(cfg["steps"]):
            v = ctx.int("v%d" % k, 0, 10 ** 9)
            op = ctx.choose("op%d" % k, cfg["ops"])
            p = ctx.choose("p%d" % k, cfg.get("paths", FILES))
            parent = "/".join(p.split("/")[:-1])
            if op in ("write", "stream", "append"):
                def put():
                    if op == "write":
                        fs.write_text(at(p), "%s\n" % v)
                    else:
                        with fs.open(at(p), "w" if op == "stream" else "a") as f:
                            f.write("%s\n" % v)
                if not m.is_dir(parent) and m.kind == "disk":
                    ctx.check(refused(put), "a file needs its directory")
                else:
                    put()
                    if op == "append" and p in m.files:
                        m.files[p] += "%s\n" % v
                        values[p] = values[p] + [v]
                    else:
                        m.files[p] = "%s\n" % v
                        values[p] = [v]
            elif op == "mkdir":
                parents, ok = ctx.choose("parents%d" % k, [False, True]), ctx.choose("ok%d" % k, [False, True])
                d = parent or "d"
                kw = dict(([("parents", True)] if parents else []) + ([("exist_ok", True)] if ok else []))
                make = lambda: fs.mkdir(at(d), **kw)
                if m.kind == "disk" and (m.is_dir(d) and not ok or not m.is_dir("/".join(d.split("/")[:-1])) and not parents):
                    ctx.check(refused(make), "a directory is not made twice, or without its parent, unless asked")
                else:
                    make()
                    if m.kind == "disk":
                        for i in range(len(d.split("/"))):
                            m.dirs.add("/".join(d.split("/")[: i + 1]))
            elif op == "unlink":
                ok = ctx.choose("ok%d" % k, [False, True])
                kw = {"missing_ok": True} if ok else ctx.choose("said%d" % k, [{}, {"missing_ok": False}])
                if p in m.files:
                    fs.unlink(at(p), **kw)
                    del m.files[p]
                else:
                    ctx.check(refused(lambda: fs.unlink(at(p), **kw)) == (not ok), "removing what is not there is refused unless asked")
            if p not in m.files and m.kind == "disk":
                ctx.check(refused(lambda: read(fs, at(p))), "what is not there is not read")
        agree(ctx, st, m, values)


def text(ctx, cfg):
    """Encodings and line ends are those asked for."""
    with Store(cfg["kind"]) as st:
        fs = st.fs
        raw = lambda p: open(p, "rb").read() if st.kind == "disk" else st.client.CloudPath(p).read_bytes()
        enc = ctx.choose("enc", ["utf-8", "utf-16-le", "latin-1"])
        body = "h\u00e9llo\nx"
        p = st.root + "/t"
        how = ctx.choose("how", ["write", "open"])
        if how == "write":
            fs.write_text(p, body, encoding=enc)
        else:
            with fs.open(p, "w", encoding=enc, newline=ctx.choose("nl", [None, "", "\r\n"])) as f:
                f.write(body)
            if ctx.choose("nl", [None, "", "\r\n"]) == "\r\n":
                body = body.replace("\n", "\r\n")
        ctx.check(raw(p) == body.encode(enc), "text is stored in the encoding and with the line ends asked for")
        with fs.open(p, "r", encoding=enc, newline="") as f:
            ctx.check(f.read() == body, "text is read in the encoding and with the line ends asked for")
        with fs.open(p, "rb") as f:
            ctx.check(f.read() == body.encode(enc), "bytes are read as they are")
        ctx.check(refused(lambda: fs.write_text(p, "\u4e2d", encoding="ascii")), "text that the encoding cannot express is refused")
        fs.write_text(p, "\u4e2d!", encoding="ascii", errors="replace")
        ctx.check(raw(p) == b"?!", "unless it is asked to be replaced")
        with fs.open(p, "w", encoding="ascii", errors="ignore") as f:
            f.write("\u4e2d!")
        ctx.check(raw(p) == b"!", "or ignored")


def options(ctx, cfg):
    """Buffering and permissions are those asked for."""
    with Store(cfg["kind"]) as st:
        fs = st.fs
        p = st.root + "/t"
        with fs.open(p, "wb", buffering=ctx.choose("buffering", [0, -1, 16])) as f:
            ctx.check(isinstance(f, io.RawIOBase) == (ctx.choose("buffering", [0, -1, 16]) == 0), "buffering is as asked for")
            f.write(b"abc")
        with fs.open(p, "rb") as f:
            ctx.check(f.read() == b"abc", "what was written is read back")
        with fs.open(p) as f:
            ctx.check(f.read() == "abc", "files are opened for reading unless asked otherwise")
        ctx.check(refused(lambda: fs.open(p, "x").close()), "creating a file that exists is refused, if asked to create it")
        if st.kind == "disk":
            mode = ctx.choose("mode", [0o700, 0o750, 0o500])
            fs.mkdir(st.root + "/m", mode=mode)
            ctx.check(os.stat(st.root + "/m").st_mode & 0o777 == mode, "permissions are as asked for")


def names(ctx, cfg):
    with Store(cfg["kind"]) as st:
        fs = st.fs
        parts = [ctx.choose("part%d" % i, ["x", "long.name.csv", "a b"]) for i in range(3)]
        n = ctx.choose("n", [0, 1, 2, 3])
        p = fs.joinpath(st.root, *parts[:n])
        ctx.check(p == "/".join([st.root] + parts[:n]), "paths are joined in order")
        if n:
            ctx.check(fs.name(p) == parts[n - 1], "the name is the last part of a path")
            ctx.check(fs.parent(p) == "/".join([st.root] + parts[: n - 1]), "the parent is the rest of a path")
            ctx.check(fs.joinpath(fs.parent(p), fs.name(p)) == p, "a path is its name in its parent")


def design(ctx, cfg):
    """A data design kept through the wrapper."""
    with Store(cfg["kind"]) as st:
        dd = DataDesign(st.root + "/x/design", st.fs)
        ctx.check(dd.count == 0, "a new design is empty")
        stored = {}
        for k in range(cfg["steps"]):
            name = ctx.choose("name%d" % k, ["one", "two"])
            ds = DataSet(build(ctx, ["p%d" % j for j in range(1 + k % 2)], 1 + k, "t%d" % k), name)
            ctx.check(refused(lambda: dd.add(ds)) == (name in stored), "a data set is refused exactly when its name is taken")
            stored.setdefault(name, ds)
            if ctx.choose("reopen%d" % k, [False, True]):
                dd = DataDesign(st.root + "/x/design", st.fs)
            ctx.check(dd.names == sorted(stored), "a design lists its data sets")
        for n, ds in stored.items():
            check_same(ctx, ds, dd.by_name(n), [p.name for p in ds._data], "data set in a design")
            ctx.check(dd.by_name(n).name == n, "a data set is found under its name")


def trial(ctx, cfg):
    """A trial whose results are kept through the wrapper."""
    with Store(cfg["kind"]) as st:
        v = ctx.real("value", 0, 1000)
        c = dict(value=v, dir=st.root + "/exp")
        s1, t1, path = c27.make(ctx, c, st.fs)
        a = t1.evaluate(1, st.fs)
        s2, t2, _ = c27.make(ctx, c, st.fs)
        b = t2.evaluate(1, st.fs)
        ctx.check(s1.fits == 1 and s2.fits == 0, "a finished trial is not run again")
        c27.same_rows(ctx, a, b, "a finished trial's result is returned")
        ctx.check(st.fs.is_file(path), "a result is kept where it is looked for")


ASSUMPTIONS = [
    "the local wrapper runs on a scratch directory of the real file system, the cloud wrapper on cloudpathlib's own local stand-in for a bucket",
    "text of a number is an opaque token that is read back exactly",
]
OUTSIDE = "real cloud storage and its credentials; links and permissions; other processes; more than 3 operations"


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for kind in ("disk", "cloud"):
        n = 3 if T else 2
        out += [
            Scenario("history-%s" % kind, history, {"kind": kind, "steps": n, "ops": ["write", "stream", "unlink"] + (["append", "mkdir"] if kind == "disk" else []), "paths": ["a", "d/b.csv", "d/e/f.csv"] if T else FILES}, "%d operations, arbitrary numbers" % n, budget=400),
            Scenario("history-3-%s" % kind, history, {"kind": kind, "steps": 3, "ops": ["write", "append", "unlink"] if kind == "disk" else ["write", "stream", "unlink"], "paths": ["a", "d/c"] if kind == "cloud" else ["a", "g"]}, "3 operations on two files, arbitrary numbers", budget=400),
            Scenario("text-%s" % kind, text, {"kind": kind}, "3 encodings, 3 line ends"),
            Scenario("options-%s" % kind, options, {"kind": kind}, "every option"),
            Scenario("names-%s" % kind, names, {"kind": kind}, "up to 3 parts"),
            Scenario("design-%s" % kind, design, {"kind": kind, "steps": 3 if T else 2}, "2 or 3 data sets, arbitrary prices"),
            Scenario("trial-%s" % kind, trial, {"kind": kind}, "an arbitrary result"),
        ]
    return out
