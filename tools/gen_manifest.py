#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sim.registry import PROPS, NOT_APPLICABLE, HOOK_COMMITS
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
m["hooks"] = {"guard": "NDT_GSLAM_SIM", "enable": "the checks compile /repo's sources with -DNDT_GSLAM_SIM (sim/build.sh)",
              "source_commits": HOOK_COMMITS}
if not HOOK_COMMITS:
    m.pop("hooks")
for p in props:
    if p in PROPS:
        s = PROPS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": "deterministic simulation with fault injection: " + s.get("technique", "seeded operation/fault histories against a reference model"),
            "level": "exploration", "level_note": s.get("note", "Seeded search: a clean batch is evidence, not proof."),
            "evidence_file": "evidence/%s.json" % p})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
