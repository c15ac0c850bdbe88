#!/usr/bin/env python3
"""Re-executes a replay file against /repo's working tree: replay.py FILE. Exit 1 if it still fails."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

j = json.load(open(sys.argv[1]))
names = {j["variant"], "none/checked"} | (set(HELPERS) if j["property"] == "C19" else set())
exes = build(sorted(names))
os.environ["SIM_HELPERS"] = helpers(exes)
d = scratch_dir()
try:
    r = Exec(exes[j["variant"]], exes["none/checked"], d)(j["property"], j["runs"], log=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
for l in r["trace"]:
    print(l)
if r["class"] is None:
    print("held")
    sys.exit(0)
same = r["class"] == j["class"] and r["digest"] == j["digest"]
print(f"{r['class']}: {r['detail']}" + (" (exactly as recorded)" if same else " (differs from the record)"))
print(f"VIOLATION property={j['property']} replay={os.path.abspath(sys.argv[1])}")
sys.exit(1)
