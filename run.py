#!/opt/venv39/bin/python
"""run.py check <property> [--tier quick|thorough] [--only SCENARIO]
run.py replay <file>

check: symbolic exploration of every scenario of the property (checks/<id>.py),
replay of each counterexample in a fresh process on the unmodified code, evidence.
"""
import argparse
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append(os.path.join(HERE, "stubs"))
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")

EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")  # the variable: development aid
REPLAYS = os.path.join(EVIDENCE, "replays")


def enc(v):
    if isinstance(v, bool) or isinstance(v, int):
        return v
    return str(Fraction(v))


def dec(v):
    if isinstance(v, (bool, int)):
        return v
    return Fraction(v)


def load(prop, symbolic):
    if symbolic:
        from symex import shims

        shims.install_importer()
    return importlib.import_module("checks." + prop.lower())


def find(mod, tier, name):
    for s in mod.scenarios(tier):
        if s.name == name:
            return s
    for t in ("quick", "thorough"):
        for s in mod.scenarios(t):
            if s.name == name:
                return s
    raise SystemExit("no scenario " + name)


def do_replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"], False)
    sc = find(mod, r.get("tier", "quick"), r["scenario"])
    from symex.engine import Concrete, run_concrete

    ctx = Concrete({k: dec(v) for k, v in r["values"].items()})
    res = run_concrete(sc.fn, sc.cfg, ctx)
    print(json.dumps({"result": res[0], "label": res[1] if len(res) > 1 else "", "detail": (res[2] if len(res) > 2 else "")[-3000:]}))
    return 1 if res[0] == "failed" else 0


def run_scenario(sc, tier, out_path, budget, deadline):
    """In a forked child: explore one scenario, write the result."""
    from symex import engine, shims, solver

    shims.MERGE[0] = sc.merge
    qt = sc.qtimeout or (20.0 if tier == "quick" else 60.0)
    sv = solver.Solver(qt)
    limit = min(deadline, time.time() + (sc.budget or budget))
    eng = engine.Engine(sc.fn, sc.cfg, sc.name, sv, deadline=limit, max_paths=sc.max_paths, cross_check=(tier == "thorough"))
    err = None
    eng._watch(90 if tier == "quick" else 240)
    try:
        eng.run()
    except Exception:
        import traceback

        err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sv.close()
    res = {
        "scenario": sc.name,
        "error": err,
        "stats": eng.stats,
        "solver": sv.stats,
        "labels": eng.labels,
        "complete": eng.complete and err is None,
        "notes": eng.notes[:20],
        "errors": eng.errors,
        "mismatches": eng.mismatches[:5],
        "functions": sorted(["%s:%s" % f for f in eng.functions]),
        "candidates": [dict(c, values={k: enc(v) for k, v in c["values"].items()}) for c in eng.candidates],
        "wall": getattr(eng, "wall", 0.0),
        "sample": {k: enc(v) for k, v in list(eng._values(eng.model).items())[:40]} if getattr(eng, "model", None) is not None and eng.stats["paths"] else {},
    }
    with open(out_path, "w") as f:
        json.dump(res, f)


def explore(scs, tier, budget, deadline, jobs):
    tmp = tempfile.mkdtemp(prefix="symex")
    pending = list(enumerate(scs))
    running = {}
    results = {}
    try:
        while pending or running:
            while pending and len(running) < jobs:
                i, sc = pending.pop(0)
                path = os.path.join(tmp, "%d.json" % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        run_scenario(sc, tier, path, budget, deadline)
                    except BaseException:
                        import traceback

                        traceback.print_exc()
                        code = 3
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (i, sc, path)
            pid, status = os.wait()
            if pid in running:
                i, sc, path = running.pop(pid)
                if os.path.exists(path):
                    with open(path) as f:
                        results[i] = json.load(f)
                else:
                    results[i] = {"scenario": sc.name, "error": "worker ended with status %d" % status, "complete": False, "stats": {}, "solver": {}, "labels": {}, "notes": [], "errors": [], "mismatches": [], "functions": [], "candidates": [], "wall": 0, "sample": {}}
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return [results[i] for i in range(len(scs))]


def replay_in_fresh_process(path, hang=False):
    """(fails, what it says).  A suspected hang fails when it does not end: a replay ends in seconds."""
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=180 if hang else 240)
    except subprocess.TimeoutExpired:
        return hang, {"label": "comes to an end", "detail": "still running after 180 s"}
    try:
        out = json.loads(p.stdout.decode().strip().split("\n")[-1])
    except Exception:
        return False, {"detail": p.stderr.decode()[-2000:]}
    return p.returncode == 1, out


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches(k, prop, scenario, out, values):
    if k["property"] != prop or k.get("status") != "known":
        return False
    if not re.search(k["scenario"], scenario) or not re.search(k["label"], out.get("label", "")):
        return False
    if k.get("detail") and not re.search(k["detail"], out.get("detail", ""), re.S):
        return False
    if k.get("where"):
        env = {n.replace("-", "_"): (float(dec(v)) if not isinstance(v, (bool, int)) else v) for n, v in values.items()}
        try:
            return bool(eval(k["where"], {"__builtins__": {"abs": abs, "min": min, "max": max}}, env))
        except Exception:
            return False
    return True


def do_check(prop, tier, only=None, jobs=8, keep_evidence=True):
    t0 = time.time()
    mod = load(prop, True)
    scs = [s for s in mod.scenarios(tier) if only is None or re.search(only, s.name)]
    budget = 240 if tier == "quick" else 3600
    total = 640 if tier == "quick" else 3 * 3600
    results = explore(scs, tier, budget, t0 + total, jobs)
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    known = known_findings()
    violations, known_hit, spurious = [], {}, []
    n = 0
    for hangs, sc, r in [(h, sc, r) for h in (False, True) for sc, r in zip(scs, results)]:
        confirmed_here = 0
        for c in r["candidates"]:
            hang = c["kind"] == "hang"
            if hang != hangs or (hang and violations):
                continue
            n += 1
            path = os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
            rec = {"property": prop, "tier": tier, "scenario": sc.name, "label": c["label"], "kind": c["kind"], "detail": c["detail"][-3000:], "values": c["values"], "replay_cmd": "/opt/venv39/bin/python /verif/run.py replay " + path}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            if confirmed_here >= 3:
                continue
            ok, out = replay_in_fresh_process(path, hang)
            rec["replayed"] = ok
            rec["replay_output"] = out
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            if not ok and hang:
                continue
            if not ok:
                spurious.append((sc.name, c["label"], path))
                continue
            k = [k for k in known if matches(k, prop, sc.name, out, c["values"])]
            if k:
                known_hit.setdefault(k[0]["id"], k[0])
                continue
            confirmed_here += 1
            violations.append((sc.name, out.get("label"), out.get("detail", ""), path))
    agg = {}
    solver = {}
    for r in results:
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
        for k, v in r["solver"].items():
            solver[k] = round(solver.get(k, 0) + v, 3)
    hard = [(r["scenario"], r["error"]) for r in results if r["error"]]
    vacuous = [r["scenario"] for r in results if not r["error"] and not r["stats"].get("checks") and not r["stats"].get("degraded_paths") and not r["candidates"]]
    incomplete = [r["scenario"] for r in results if not r["complete"]]
    functions = sorted({f for r in results for f in r["functions"]})
    coverage = {
        "states": agg.get("paths", 0),
        "transitions": agg.get("branches", 0),
        "traces_validated_against_impl": agg.get("validated", 0),
        "samples": [{"scenario": r["scenario"], "model_of_last_path": r["sample"]} for r in results[:6]],
        "explanation": "states = feasible symbolic paths of the real code explored to their end; transitions = branch decisions taken on symbolic conditions; traces validated = path models run through the same harness on plain values in the unmodified arithmetic and compared",
        "exhaustive": not incomplete and not spurious,
        "functions_encoded": functions,
        "bounds": {s.name: s.bounds for s in scs},
        "outside_the_bounds": getattr(mod, "OUTSIDE", ""),
        "queries": solver,
        "checks": {k: agg.get(k, 0) for k in ("checks", "checks_trivial", "checks_solver", "within_tolerance", "reduced_checks", "concretized_reals", "unknown_branches", "degraded_paths", "infeasible")},
        "labels": {r["scenario"]: r["labels"] for r in results},
        "scenario_wall_s": {r["scenario"]: round(r["wall"], 2) for r in results},
        "incomplete_scenarios": incomplete,
        "notes": {r["scenario"]: r["notes"] for r in results if r["notes"]},
        "degraded": {r["scenario"]: [e[-600:] for e in r["errors"]] for r in results if r["errors"]},
        "encoding_mismatches": {r["scenario"]: r["mismatches"] for r in results if r["mismatches"]},
        "unreproduced_counterexamples": ["%s: %s" % s[:2] for s in spurious],
        "known_findings_seen": sorted(known_hit),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ["floating point is modelled by exact real arithmetic (a float constant stands for the simplest rational that rounds to it); counterexamples are replayed in floating point before they are reported"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if keep_evidence:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    for r in results:
        s = r["stats"]
        print("%-28s paths=%d checks=%d queries=%d solver=%.1fs wall=%.1fs%s" % (r["scenario"], s.get("paths", 0), s.get("checks", 0), r["solver"].get("queries", 0), r["solver"].get("solver_s", 0), r["wall"], "" if r["complete"] else "  INCOMPLETE " + "; ".join(r["notes"])))
        if s.get("degraded_paths") or s.get("concretized_reals") or s.get("reduced_checks") or r["mismatches"]:
            print("    degraded_paths=%d concretized_reals=%d reduced_checks=%d mismatches=%s" % (s.get("degraded_paths", 0), s.get("concretized_reals", 0), s.get("reduced_checks", 0), r["mismatches"][:2]))
            for e in r["errors"][:1]:
                print("    " + e.strip().replace("\n", "\n    ")[-1500:])
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for name, label, detail, path in violations:
        print("  %s: %s: %s" % (name, label, detail.strip()[-600:]))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][3]))
        return 1
    if hard:
        for h in hard:
            print("ERROR in %s:\n%s" % h)
        return 2
    if vacuous:
        print("ERROR: scenarios without a check: %s" % vacuous)
        return 2
    for sp in spurious:
        print("UNDECIDED: %s: the solver's counterexample to %r does not fail when replayed on the real code (%s)" % sp)
    print("%s: held on everything explored (%d paths, %d queries, %.1f s)" % (prop, agg.get("paths", 0), solver.get("queries", 0), time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay"])
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.cmd == "replay":
        sys.exit(do_replay(a.what))
    sys.exit(do_check(a.what, a.tier, a.only, a.jobs))


if __name__ == "__main__":
    main()
