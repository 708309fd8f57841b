#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ design model checked by TLC; traces of the real code validated against TLA+ by TLC"
REP = TV + "; every transition of the model's state graph replayed on the code"
CLAIMS = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
import subprocess
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "hooks": {"guard": "INDEXES_VERIFY_RECLAMATION_THRESHOLD",
     "enable": "the explorers are compiled with -DINDEXES_VERIFY_RECLAMATION_THRESHOLD=1 (lib/core.py, build_conc)",
     "source_commits": hook}, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC. Every check builds its harness from /repo's working tree."}
for p in props:
    c = CLAIMS.get(p)
    if not c or "reason" in c:
        m["not_applicable"].append({"property": p, "reason": (c or {}).get("reason", "not built yet")})
        continue
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                        "thorough_cmd": "python3 check.py %s thorough" % p,
                        "technique": c["technique"], "level": c.get("level", "model_checking"),
                        "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "not")
