#!/usr/bin/env python3
"""Decides one property on /repo's current tree: check.py PROP [--tier quick|thorough] [--replay FILE]"""
import sys, os, time, json, argparse, tempfile, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONHASHSEED"] = "0"
from mon import build, runner, props

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    spec = props.PROPS[a.prop]
    outs = {}
    for v in spec.get("variants", ["asan"]):
        outs[v] = build.build(v, spec.get("targets", []))
        if outs[v] is None:
            print("ERROR: the instrumented build (%s) failed" % v)
            return 2
    out = outs
    tb = time.time() - t0
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    if a.replay:
        rp = json.load(open(a.replay))
        scratch = tempfile.mkdtemp(prefix="pfmon.")
        ctx = runner.Ctx(a.prop, out, scratch, rp["tier"])
        try:
            v = runner.run_case(ctx, spec, rp["seed"], a.prop, rp["wi"], rp["case"])
            try:
                ctx.drop(True)
            except runner.Died as e:
                v = v or (runner.tag_of_death(e, "exit"), e.report)
        finally:
            for f in ctx.ends:
                f()
            shutil.rmtree(scratch, ignore_errors=True)
        print("\n".join(str(x) for x in ctx.log[-80:]))
        print(v)
        if v and runner.match(v[0], spec["tags"]):
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0
    budget = spec.get("budget", 300) if a.tier == "quick" else 3000
    scale = a.scale if a.scale is not None else (1.0 if a.tier == "quick" else spec.get("deep", 40))
    res = runner.execute(a.prop, spec, out, a.seed, a.tier, scale, budget)
    known = []
    # deterministic probes of the recorded findings
    rc = 0
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.strip()
        if not line.startswith("finding: property=%s " % a.prop):
            continue
        key = line.split(" key=", 1)[1].split()[0]
        what = line.split(" what=", 1)[1]
        scratch = tempfile.mkdtemp(prefix="pfmon.")
        ctx = runner.Ctx(a.prop, out, scratch, a.tier)
        ctx.op = "probe"
        try:
            r = props.PROBES[key](ctx)          # None: not failing any more; True: fails as recorded; text: fails otherwise
            ctx.drop(True)
        except runner.Died as e:
            r = "died: " + e.report[:2000]
        except runner.Mismatch as e:
            r = "%s %s" % (e.tag, e.detail)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if r is True:
            known.append(what)
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
        elif r:
            res["viol"].append({"workload": "probe", "wi": -1, "case": 0, "tag": "probe:" + key, "detail": str(r), "log": []})
    wall = time.time() - t0
    viol = res["viol"]
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": len(res["fps"]),
            "rule": spec["rule"] + " Counted as distinct: cases whose recorded log (operations with their outcomes, or messages and observations) differs; "
                    "as non-trivial: cases in which the monitors observed at least one of: " + ", ".join(spec["key"]) + ".",
            "samples": res["samples"][:4],
            "observed": {k: res["notes"][k] for k in sorted(res["notes"])},
            "ended_early_by_other_properties": dict(res["foreign"]),
            "cut_by_time": res["cut"], "build_s": round(tb, 1),
        },
        "assumptions": spec.get("assumptions", []) + ([("recorded finding: " + k) for k in known]),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    tmp = os.path.join(ev, a.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(ev, a.prop + ".json"))
    print("%s %s: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs%s" % (
        a.prop, a.tier, res["evaluations"], len(res["fps"]), tb, wall, " (cut by time)" if res["cut"] else ""))
    print("observed: " + ", ".join("%s %d" % (k, res["notes"][k]) for k in sorted(res["notes"]) if not k.startswith("op ")))
    for k, v in res["foreign_first"].items():
        print("note: outside this property: %s (%d): %s" % (k, res["foreign"][k], v[:200]))
    for e in res["errors"]:
        print("ERROR: " + e)
    if viol:
        v = viol[0]
        rp = os.path.join(ev, "replay-%s.json" % a.prop)
        with open(rp, "w") as f:
            json.dump(dict(v, property=a.prop, seed=a.seed, tier=a.tier, command="python3 check.py %s --replay %s" % (a.prop, rp)), f, indent=1)
        print("\n".join(v["log"][-15:]))
        print("%s: %s" % (v["tag"], v["detail"][:2500]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if res["errors"] or res["lost"]:
        print("ERROR: %d harness errors, %d shards lost" % (len(res["errors"]), res["lost"]))
        return 2
    if res["evaluations"] == 0 or not res["fps"]:
        print("ERROR: nothing was observed")
        return 2
    return 0

sys.exit(main())
