#!/usr/bin/env python3
"""python3 replay.py replays/<file>.json : rebuild the contract and replay the recorded input on the real code."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
v = json.load(open(sys.argv[1]))
print("property %s, contract %s, obligation: %s" % (v["property"], v["contract"], v["obligation"]))
if v.get("input") is None:
    print(v.get("detail")); sys.exit(0)
d = tempfile.mkdtemp(prefix="ecv-replay-")
try:
    i = check.build(v["property"], [check.VERIF + "/contracts/%s.cpp" % v["tu"]], d)[v["tu"]]
    rc = subprocess.call([i["bin"], "--replay", v["contract"]] + ["%s=%r" % kv for kv in v["input"].items()])
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
