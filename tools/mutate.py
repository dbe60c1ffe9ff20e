#!/usr/bin/python3
"""mutate.py OUT.jsonl [--per N] [--seed S] [--jobs J] [FILE...]: small random source mutations, which of them the checks
anchored at the file miss, and whether the repository's tests pass on those (development aid; scratch copies only)."""
import argparse, ast, collections, json, os, random, shutil, subprocess, sys, tempfile
import warnings
warnings.filterwarnings("ignore")
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--per", type=int, default=12)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("files", nargs="*")
A = ap.parse_args()
CHECKS = collections.defaultdict(list)
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        if d["id"][0] == "C":
            CHECKS[f].append(d["id"])
LEFT = subprocess.run(["bash", "-c", "sed -n '/^LEFT_OUT=(/,/^)/p' /opt/vp/test.sh | grep src/"], stdout=subprocess.PIPE, text=True).stdout.split()


def mutants(text):
    lines = text.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = text.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def rep(n, new):
        a, b = pos(n)
        out.append((n.lineno, src(n), new, a, b))

    def op(l, r, new, n):
        a, b = pos(l)[1], pos(r)[0]
        out.append((n.lineno, src(n), src(l) + " " + new + " " + src(r), a, b, " " + new + " "))

    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.add(a.annotation)
            if n.returns:
                skip.add(n.returns)
        if isinstance(n, ast.AnnAssign):
            skip.add(n.annotation)
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            skip.add(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and src(n.value.func).startswith(("logging", "print", "self.print", "parser.add")):
            skip.add(n)
        if isinstance(n, ast.FunctionDef) and n.name in ("print_fit", "print_fit_header", "create_arg_parser"):
            skip.add(n)

    def walk(n):
        if n in skip:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if m:
                op(n.left, n.comparators[0], m, n)
        if isinstance(n, ast.BinOp):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*"}.get(type(n.op))
            if m and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(n.left, "value", 0), (int, float))):
                if raw[pos(n.left)[1]:pos(n.right)[0]].strip() in (b"+", b"-", b"*", b"/", b"//", b"**"):
                    op(n.left, n.right, m, n)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            v = n.value
            if v is True or v is False:
                rep(n, str(not v))
            elif isinstance(v, int):
                rep(n, str(v + 1))
                if v > 0:
                    rep(n, str(v - 1))
            elif isinstance(v, float):
                rep(n, repr(v * 1.01 if v else 0.01))
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values) - 1):
                op(n.values[i], n.values[i + 1], "or" if isinstance(n.op, ast.And) else "and", n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            rep(n, src(n.operand))
        if isinstance(n, ast.Call):
            f = src(n.func)
            if f in ("min", "max", "any", "all"):
                rep(n.func, {"min": "max", "max": "min", "any": "all", "all": "any"}[f])
            if f in ("copy.deepcopy", "deepcopy", "sorted", "set", "round", "int", "list", "np.abs", "abs", "float") and len(n.args) == 1:
                rep(n, ("list(%s)" if f in ("sorted", "set") else "(%s)") % src(n.args[0]))
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = pos(k)
                    rest = raw[b:b + 1]
                    if rest == b",":
                        out.append((n.lineno, src(n)[:80], "without " + k.arg, a, b + 1, ""))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = pos(n.args[0])
                c, d = pos(n.args[1])
                out.append((n.lineno, src(n)[:120], "swap arguments", a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode()))
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, "True")
            rep(n.test, "False")
        if isinstance(n, ast.IfExp):
            rep(n.test, "True")
            rep(n.test, "False")
        if isinstance(n, ast.AugAssign):
            m = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            if m:
                a, b = pos(n.target)[1], pos(n.value)[0]
                out.append((n.lineno, src(n), m, a, b, " %s " % m))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Break, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom))):
            rep(n, "pass")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            rep(n, "pass")
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                rep(n.lower, "")
            if n.upper is not None:
                rep(n.upper, "")
        for c in ast.iter_child_nodes(n):
            walk(c)

    walk(tree)
    res = []
    for o in out:
        new = o[5] if len(o) > 5 else o[2]
        t = raw[: o[3]] + new.encode() + raw[o[4]:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            continue
        res.append((o[0], o[1], o[2], t.decode()))
    return res


def run(job):
    f, (line, old, new, text) = job
    d = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    try:
        os.makedirs(d + "/pypath")
        subprocess.check_call(["cp", "-a", "/repo", d + "/r"])
        os.symlink(d + "/r/src", d + "/pypath/wfa_planning_evaluation_framework")
        open(d + "/r/" + f, "w").write(text)
        env = ". /opt/vp/env.sh; export PYTHONPATH=${PYTHONPATH//\\/opt\\/pypath/%s/pypath}; " % d
        rec = {"file": f, "line": line, "old": old, "new": new, "caught": None, "odd": []}
        for c in CHECKS[f]:
            p = subprocess.run(["bash", "-c", env + "cd /verif; VERIF_TIER=quick VERIF_EVIDENCE=%s/ev timeout 600 /opt/venv39/bin/python run.py check %s --tier quick" % (d, c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1:
                rec["caught"] = c
                break
            if p.returncode != 0:
                rec["odd"].append((c, p.returncode, p.stdout.strip().splitlines()[-1][:200] if p.stdout.strip() else ""))
        if not rec["caught"]:
            t = subprocess.run(["bash", "-c", env + "cd %s/r; /opt/venv39/bin/python -m pytest -q -x -p no:cacheprovider -o 'python_files=*_test.py' --timeout=300 --continue-on-collection-errors -n 4 --dist loadfile -W ignore %s src 2>&1 | tail -4" % (d, " ".join("--ignore=" + x for x in LEFT))], stdout=subprocess.PIPE, text=True)
            rec["tests"] = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


jobs = []
rng = random.Random(A.seed)
for f in A.files or sorted(CHECKS):
    ms = mutants(open("/repo/" + f).read())
    rng.shuffle(ms)
    jobs += [(f, m) for m in ms[: A.per]]
rng.shuffle(jobs)
print(len(jobs), "mutants")
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        r = json.loads(l)
        done.add((r["file"], r["line"], r["old"], r["new"]))
jobs = [j for j in jobs if (j[0], j[1][0], j[1][1], j[1][2]) not in done]
with ThreadPoolExecutor(A.jobs) as ex:
    for rec in ex.map(run, jobs):
        open(A.out, "a").write(json.dumps(rec) + "\n")
        if not rec["caught"]:
            print(json.dumps(rec))
            sys.stdout.flush()
