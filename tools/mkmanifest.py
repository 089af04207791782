#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.py (TECHNIQUE, NOTE) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 run.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": m.TECHNIQUE, "level": "exploration", "level_note": m.NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py",
           "hooks": {"guard": "CDEC_VERIF", "enable": "checks compile /repo's sources with -DCDEC_VERIF; no hook in /repo needs it so far: observation is at public interfaces", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Checks rebuild /repo's sources with AddressSanitizer+UBSan (and ThreadSanitizer where threads run) in /verif/.cache; oracles are independent reference computations over recorded executions."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
