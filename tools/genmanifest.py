#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
T = {}
def c(id, technique, note, level="exploration"):
    T[id] = (technique, note, level)
exec(open("tools/claims.py").read())
checks, na = [], []
for p in props:
    if p["id"] in T:
        t, n, l = T[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "verif", "enable": "no hooks are needed: every property is observed at the public API of the code built from /repo's working tree", "source_commits": []},
     "notes": "Every check builds /verif/harness against /repo (go.mod replace) and runs the real code under generated workloads with reference-model monitors; C01 uses a -race build."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
