#!/usr/bin/env python3
"""builds every monitored program once, to find out early that something is missing"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from jobs import JOBS
pairs = set()
for js in JOBS.values():
    for j in js:
        pairs.add((j["flavor"], j["prog"]))
        if j.get("cli"):
            pairs.add(("plain" if j["flavor"].startswith("plain") else "asan", "cli"))
vlib.locales()
vlib.build_many(pairs)
print("built %d programs" % len(pairs))
