#!/usr/bin/env python3
"""developer aid: seconds per case from the evidence of the last run"""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open("/verif/evidence/%s.json" % p))
    print(p, e["wall_s"], " ".join("%s=%.0f" % (k, c["seconds"]) for k, c in e["coverage"]["cases"].items()))
