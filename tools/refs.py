#!/usr/bin/python3
"""refs.py SPEC.py [-t] CHECK...: apply all of SPEC's EDITS (file under src, old, new) to a scratch copy of /repo/src,
run the tests (-t) and the checks on it, and print what is not quiet (development aid)."""
import os, shutil, subprocess, sys, tempfile

spec = {}
exec(open(sys.argv[1]).read(), spec)
args = sys.argv[2:]
d = tempfile.mkdtemp(prefix="refs.", dir="/tmp")
os.makedirs(d + "/pypath")
subprocess.check_call(["cp", "-a", "/repo", d + "/r"])
os.symlink(d + "/r/src", d + "/pypath/wfa_planning_evaluation_framework")
try:
    for f, old, new in spec["EDITS"]:
        p = d + "/r/src/" + f
        t = open(p).read()
        if t.count(old) != 1:
            print("BAD EDIT %s: %d matches of %r" % (f, t.count(old), old[:90]))
            continue
        open(p, "w").write(t.replace(old, new))
    env = ". /opt/vp/env.sh; export PYTHONPATH=${PYTHONPATH//\\/opt\\/pypath/%s/pypath}; " % d
    if "-t" in args:
        args.remove("-t")
        LEFT = subprocess.run(["bash", "-c", "sed -n '/^LEFT_OUT=(/,/^)/p' /opt/vp/test.sh | grep src/"], stdout=subprocess.PIPE, text=True).stdout.split()
        t = subprocess.run(["bash", "-c", env + "cd %s/r; /opt/venv39/bin/python -m pytest -q -p no:cacheprovider -o 'python_files=*_test.py' --timeout=300 --continue-on-collection-errors -n 8 --dist loadfile -W ignore %s src 2>&1 | tail -8" % (d, " ".join("--ignore=" + x for x in LEFT))], stdout=subprocess.PIPE, text=True)
        print("\n".join(t.stdout.strip().splitlines()[-5:]))
    if args == ["all"]:
        args = ["C%02d" % i for i in range(1, 31)]
    for c in args:
        p = subprocess.run(["bash", "-c", env + "cd /verif; VERIF_TIER=quick VERIF_EVIDENCE=%s/ev timeout 900 /opt/venv39/bin/python run.py check %s --tier quick" % (d, c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l for l in p.stdout.splitlines() if "GLPK" not in l and "glpk" not in l]
        if p.returncode != 0:
            open("/tmp/ref/%s.log" % c, "w").write("\n".join(out))
            print("NOT QUIET", c, "rc=%d" % p.returncode, *[l[:220] for l in out[-6:]], sep="\n    ")
        else:
            bad = [l.strip()[:160] for l in out if "degraded_paths" in l or "INCOMPLETE" in l or "UNDECIDED" in l]
            print(c, "quiet", out[-1][:100] if out else "", *bad[:4], sep="\n      " if bad else " ")
        sys.stdout.flush()
finally:
    shutil.rmtree(d, ignore_errors=True)
