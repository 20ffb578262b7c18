#!/usr/bin/env python3
"""replay.py <replay file> : runs the recorded counterexample against the library built from /repo's current tree."""
import json, os, shutil, sys
import vplib as V, cases as C
d = json.load(open(sys.argv[1]))
prop = C.PROPS[d["property"]]
case = [c for c in prop["cases"] if c["name"] == d["case"]][0]
exe = V.build_native(d["harness"], extra_native=case.get("native", prop.get("native", [])), libs=prop.get("libs"))
work = os.path.join(V.BUILD, "replay-%d" % os.getpid())
os.makedirs(work, exist_ok=True)
try:
    out, err = V.run_native(exe, [d["inputs"]], d["params"], work, runs=4 if d["kind"] == "leak" else 1)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("recorded: %s: %s -> %s" % (d["kind"], d["msg"], d["native_result"]))
print("now:      %s" % (out[0] if out else "no result"))
print(err[-3000:])
