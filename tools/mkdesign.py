#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md, the table of checks (properties.jsonl, specs.py) and tools/seeded.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
o = [open(V + "/tools/design.md").read().rstrip(), "", "## 4. What decides each property", "",
     "For each property: the statement (oracle), the jobs with their entry point, arithmetic and bounds. Costs are in the",
     "evidence files; the quick tier of every check ends within five minutes on eight cores.", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); s = specs.SPECS.get(p["id"])
    o += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Beyond tests:* " + p["why_tests_cant"], ""]
    if not s:
        o += ["Not applicable: " + getattr(specs, "NOT_APPLICABLE", {}).get(p["id"], ""), ""]; continue
    for j in s["jobs"]:
        t = "" if not j.get("tdefs") else "; thorough: " + ", ".join("%s=%s" % x for x in j["tdefs"].items())
        o.append("- `%s` (`harness/%s:%s`, %s%s): %s" % (j["name"], j["src"], j["entry"], j.get("mode", "real"), t, j.get("bounds", "")))
    for a in s.get("assumptions", []):
        o.append("- assumes: " + a)
    o.append("")
o += [open(V + "/tools/seeded.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
