#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE]: decide one property against /repo.

exit 0  held on everything explored      exit 1  VIOLATION line printed
exit 2  the check itself could not run
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")

from pbt import boot, engine  # noqa: E402


def known_findings():
    """id -> (property, text) of the open entries of known_findings.txt."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as fh:
        for line in fh:
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--first", action="store_true", help="in this process, stop at the first violation (mutation sweeps)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    t0 = time.time()

    boot.classes()
    import importlib
    mod = importlib.import_module("pbt.props")
    mod.load()
    if a.replay:
        with open(a.replay) as fh:
            rec = json.load(fh)
        try:
            mod.replay(rec["payload"])
        except engine.Violation as v:
            print("reproduced: %s" % v.msg)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1
        print("not reproduced")
        return 0

    tasks = mod.tasks(pid, seed, tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t[1]]
    if not tasks:
        print("no such property %s" % pid)
        return 2
    if a.first:
        for t in sorted(tasks, key=lambda t: t[2]):
            r = mod.run_task(t)
            new = [f for f in r["stats"]["known"] if f not in known_findings()]
            if r["violation"] or new:
                print("  %s: %s" % (r["name"], r["violation"]["msg"][:300] if r["violation"] else new))
                return 1
            if r["error"]:
                print(r["error"])
                return 2
        return 0
    ctx = mp.get_context("fork")
    with ctx.Pool(min(a.j, len(tasks)), maxtasksperchild=4) as pool:
        results = pool.map(mod.run_task, tasks, chunksize=1)

    kf = known_findings()
    errors = [r for r in results if r["error"]]
    viol = [r for r in results if r["violation"]]
    known = {}
    for r in results:
        for fid, c in r["stats"]["known"].items():
            known[fid] = known.get(fid, 0) + c
            if fid not in kf:
                viol.append({"name": r["name"], "mode": r["mode"],
                             "violation": {"msg": "defect %s is not a listed finding" % fid, "payload": None}})
    ev = sum(r["stats"]["evaluations"] for r in results)
    nt = sum(r["stats"]["nontrivial"] for r in results)
    samples = []
    for r in results:
        for s in r["stats"]["samples"][:1]:
            if len(samples) < 12:
                samples.append({"check": r["name"], "case": s})
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("%-46s %s ev=%-7d nt=%-7d skip=%-6d %.1fs" % (
                r["name"], r["mode"], r["stats"]["evaluations"], r["stats"]["nontrivial"],
                r["stats"]["skipped"], r["wall"]))
    layouts = {}
    for r in results:
        for k, c in r["stats"]["layouts"].items():
            layouts[k] = layouts.get(k, 0) + c
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": mod.RULE,
            "samples": samples,
            "subchecks": {"%s/%s" % (r["name"], r["mode"]): {
                "evaluations": r["stats"]["evaluations"], "distinct_nontrivial": r["stats"]["nontrivial"],
                "undecided": r["stats"]["skipped"]} for r in results},
            "layouts": layouts,
            "known_finding_hits": known,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")

    for fid in sorted(known):
        if fid in kf:
            print("KNOWN-FINDING: property=%s id=%s %s" % (pid, fid, kf[fid][1]))
    if errors and not viol:
        for r in errors[:3]:
            print("CHECK-ERROR %s/%s\n%s" % (r["name"], r["mode"], r["error"]))
        return 2
    if viol:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, r in enumerate(viol[:8]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            with open(path, "w") as fh:
                json.dump({"property": pid, "subcheck": r["name"], "mode": r["mode"],
                           "message": r["violation"]["msg"],
                           "payload": engine.jsonable(r["violation"]["payload"])}, fh, indent=1)
                fh.write("\n")
            print("  %s/%s: %s" % (r["name"], r["mode"], r["violation"]["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("ok property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, ev, nt, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
