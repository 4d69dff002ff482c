#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run after editing checks/config.py)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.config import PROPERTIES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PROPERTIES:
        continue
    q = PROPERTIES[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py %s --tier quick" % p,
        "thorough_cmd": "python3 run.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": q.get("technique", "property-based testing"),
        "level": "exploration",
        "level_note": q.get("note", "generated-input search against an explicit oracle; see DESIGN.md"),
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")}
      for p in ids if p not in PROPERTIES]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "USML_VERIF_HOOKS", "enable": "no hooks are needed: the checks compile /repo's sources unmodified", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles the library from /repo's working tree into /verif/build and runs generated cases in forked workers. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
