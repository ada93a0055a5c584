#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.py and properties.jsonl"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from jobs import JOBS, INFO
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
checks = []
for p in props:
    if p not in JOBS:
        continue
    flav = sorted(set(j["flavor"] for j in JOBS[p]))
    progs = sorted(set(j["prog"] for j in JOBS[p]))
    i = INFO[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": i.get("technique", "runtime monitoring: " + ("sanitizers (ASan+UBSan) and " if any("asan" in f for f in flav) else "") + "oracles over generated executions"),
                   "level": i["level"],
                   "level_note": "Observed executions only: " + i["rule"] + ". Assumes: " + "; ".join(i["assumptions"]) + "."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "KVTREE_VERIF", "enable": "checks compile /repo/src with -DKVTREE_VERIF (vlib.py)", "source_commits": hook},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "machinery not built yet"} for p in props if p not in JOBS],
     "notes": "All checks: python3 check.py <id> [quick|thorough]; --replay FILE reruns one recorded case. Genuine defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
