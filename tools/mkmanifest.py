#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for p in props.P:
    s = specs.SPECS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": specs.NOT_APPLICABLE.get(
            p["id"], "no check built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick ./check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": s["technique"], "level": s["level"],
        "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/mkbuild.py --setup",
     "hooks": {"guard": "VERIF_HOOKS (none needed so far)",
               "enable": "no hooks: the checks compile /repo's sources unmodified, "
                         "and replace environment functions at link time",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known findings and repaired defects: known-findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
