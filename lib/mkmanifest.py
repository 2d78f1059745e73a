#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "drivers"))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
NA = json.load(open(os.path.join(H, "lib", "not_applicable.json")))
import importlib
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "drivers", i.lower() + "_meta.py")):
        m = importlib.import_module(i.lower() + "_meta").META
        c = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
             "technique": m.get("technique", "TLA+ specification with exact arithmetic; TLC enumerates the call space, validates every recorded call of the real code"),
             "level": "model_checking",
             "level_note": m.get("level_note", "Every recorded call of the real code is judged by TLC against the definition written in TLA+ (exact rational arithmetic on the exact float inputs), on the call space TLC enumerates from the specification; trusts the TLA+ definitions, TLC and the arithmetic override (cross-checked by MC_Exact), and decides nothing about inputs outside the enumerated space.")}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC. check.py <property> runs the drivers on /repo, then TLC on the recorded trace."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
