#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from mon import props
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if not s:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": s.get("technique", "runtime monitoring: generated histories on the ASan+UBSan build against an executable model, hardware event monitor"),
                   "level": "exploration",
                   "level_note": s.get("note", "No violation in the executions observed (random histories and structures from VERIF_SEED); the verdict rests on the executable "
                                       "model in mon/ stating the documented semantics, and on the sanitizers. Not a proof: other inputs are not covered.")})
m = {"version": 1, "setup_cmd": "python3 -m mon.build " + " ".join(sorted({v for p in props.PROPS.values() for v in p.get("variants", ["asan"])}) + ["asan:pyhost"]),
     "hooks": {"guard": "none", "enable": "no hook is needed in /repo: the monitors observe through a subsystem plugin, the public API and sanitizers", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
