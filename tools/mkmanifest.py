#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        b = "; ".join("%s: %s" % (j["name"], j.get("bounds", "")) for j in s["jobs"])
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the LLVM IR of the real code, decided by z3 within bounds, counterexamples replayed natively",
                       "level": "model_checking", "level_note": ("Holds for every value within the bounds: " + b)[:1900], "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": getattr(specs, "NOT_APPLICABLE", {}).get(i, "no check yet")})
HOOKS = {"guard": "RGRAPH_VERIF", "enable": "vlib.py compiles /repo's sources with -DRGRAPH_VERIF", "source_commits": ["377423b"]}
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": HOOKS, "checks": checks, "not_applicable": na,
           "notes": "Engine llsym/, library models models/, harnesses harness/, native replay replay/. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
