#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from cases.py and properties.jsonl.
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
import cases as C
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = C.NOT_APPLICABLE if hasattr(C, "NOT_APPLICABLE") else {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in C.PROPS:
        cs = [c for c in C.PROPS[i]["cases"] if not c.get("finding")]
        note = "Holds for every value within the bounds of each case: " + "; ".join("%s %s" % (c["name"], " ".join("%s=%s" % kv for kv in sorted(c.get("params", {}).items()))) for c in cs)
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the library's LLVM bitcode with Z3, counterexamples replayed on the native build", level="model_checking",
            level_note=note + ". Longer inputs and larger structures are outside the bounds.", evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, hooks=dict(guard="", enable="no hooks in /repo are needed", source_commits=[]),
    not_applicable=na, notes="See DESIGN.md; known findings and repairs are in KNOWN_FINDINGS.txt."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
