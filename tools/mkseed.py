#!/usr/bin/python3
"""mkseed.py SPEC.py: turn planted-bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy (development aid).

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file under src, old, new)], demo=python text, stubs=bool)].
"""
import json, os, shutil, subprocess, sys

sys.path.insert(0, "/tmp")
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
WT, PY = "/tmp/mkseed_wt", "/tmp/mkseed_py"
for d in (WT, PY):
    shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", WT])
os.makedirs(PY)
os.symlink(WT + "/src", PY + "/wfa_planning_evaluation_framework")
LEFT = subprocess.run(["bash", "-c", "sed -n '/^LEFT_OUT=(/,/^)/p' /opt/vp/test.sh | grep src/"], stdout=subprocess.PIPE, text=True).stdout.split()


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export PYTHONPATH=%s; cd %s; %s" % (PY, WT, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for s in spec["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(s["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\n[ -n "$DEMO_PYPATH" ] && PYTHONPATH=$DEMO_PYPATH\n%sexec /opt/venv39/bin/python -W ignore "$D/demo.py"\n' % ('export PYTHONPATH=$PYTHONPATH:$D/stubs\n' if s.get("stubs") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    if s.get("stubs"):
        shutil.rmtree(d + "/stubs", ignore_errors=True)
        shutil.copytree("/verif/stubs", d + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
    demo = "DEMO_PYPATH=%s timeout 280 bash %s/demo.sh" % (PY, d)
    clean = sh(demo)
    bad = None
    for f, old, new in s["edits"]:
        p = WT + "/src/" + f
        t = open(p).read()
        if t.count(old) != 1:
            bad = "%s: %d matches of %r" % (f, t.count(old), old[:80])
            break
        open(p, "w").write(t.replace(old, new))
    if bad:
        print(s["id"], "BAD EDIT", bad)
        sh("git checkout -q -- .")
        continue
    with open(d + "/patch.diff", "w") as f:
        f.write(subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout)
    dirty = sh(demo)
    t = sh("/opt/venv39/bin/python -m pytest -q -p no:cacheprovider -o 'python_files=*_test.py' --timeout=300 --continue-on-collection-errors -n 8 --dist loadfile -W ignore %s src 2>&1 | tail -8" % " ".join("--ignore=" + x for x in LEFT))
    sh("git checkout -q -- .")
    last = t.stdout.strip().splitlines()
    ok = clean.returncode == 0 and dirty.returncode != 0 and " 180 passed" in " " + (last[-1] if last else "") and "failed" not in last[-1]
    print(s["id"], "OK" if ok else "NOT CONFIRMED", "clean=%d dirty=%d" % (clean.returncode, dirty.returncode), last[-1] if last else "")
    if not ok:
        print("  clean:", clean.stdout[-300:], "\n  dirty:", dirty.stdout[-300:], "\n  ", "\n  ".join(last[-6:]))
        shutil.move(d, "/tmp/rejected_" + s["id"]) if not os.path.exists("/tmp/rejected_" + s["id"]) else shutil.rmtree(d)
for d in (WT, PY):
    shutil.rmtree(d, ignore_errors=True)
