#!/usr/bin/python3
"""bugs.py SPEC.py [--jobs N] [--tests]: for each of SPEC's BUGS (property, file under src, old, new), run the property's
check on a scratch copy of /repo/src with that edit and say whether it is caught; --tests: also run the tests of the
ones that are not (development aid)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

spec = {}
exec(open(sys.argv[1]).read(), spec)
jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 3
LEFT = subprocess.run(["bash", "-c", "sed -n '/^LEFT_OUT=(/,/^)/p' /opt/vp/test.sh | grep src/"], stdout=subprocess.PIPE, text=True).stdout.split()


def one(b):
    i, (prop, f, old, new) = b
    d = tempfile.mkdtemp(prefix="bugs.", dir="/tmp")
    try:
        os.makedirs(d + "/pypath")
        os.makedirs(d + "/r")
        shutil.copytree("/repo/src", d + "/r/src", ignore=shutil.ignore_patterns("__pycache__"))
        os.symlink(d + "/r/src", d + "/pypath/wfa_planning_evaluation_framework")
        p = d + "/r/src/" + f
        t = open(p).read()
        if t.count(old) != 1:
            return "%d BAD EDIT %s: %d matches of %r" % (i, f, t.count(old), old[:90])
        open(p, "w").write(t.replace(old, new))
        env = ". /opt/vp/env.sh; export PYTHONPATH=${PYTHONPATH//\\/opt\\/pypath/%s/pypath}; " % d
        q = subprocess.run(["bash", "-c", env + "cd /verif; VERIF_TIER=quick VERIF_EVIDENCE=%s/ev timeout 900 /opt/venv39/bin/python run.py check %s --tier quick" % (d, prop)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l for l in q.stdout.splitlines() if "GLPK" not in l and "glpk" not in l]
        lab = [l.strip() for l in out if l.startswith("  ") and "Traceback" not in l][:1]
        bad = [l.strip()[:100] for l in out if "INCOMPLETE" in l or "UNDECIDED" in l][:2]
        res = {0: "MISSED", 1: "caught"}.get(q.returncode, "RC%d" % q.returncode)
        s = "%d %s %s %s: %r -> %r %s %s" % (i, res, prop, f.split("/")[-1], old[:50], new[:70], lab, bad)
        if res != "caught" and "--tests" in sys.argv:
            t = subprocess.run(["bash", "-c", env + "cd %s/r; /opt/venv39/bin/python -m pytest -q -p no:cacheprovider -o 'python_files=*_test.py' --timeout=300 -n 4 --dist loadfile -W ignore %s src 2>&1 | tail -1" % (d, " ".join("--ignore=" + x for x in LEFT))], stdout=subprocess.PIPE, text=True)
            s += "\n      tests: " + t.stdout.strip()[-120:]
        return s
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    for s in ex.map(one, list(enumerate(spec["BUGS"]))):
        print(s[:420], flush=True)
