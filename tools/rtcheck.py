#!/usr/bin/env python3
"""Runs harness/rtcheck.cpp in the engine: does the runtime model cover and agree with the library functions listed there?"""
import sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vplib as V

bad = 0
bc, _ = V.build_bitcode("rtcheck.cpp", [])
with tempfile.TemporaryDirectory() as out:
    for c in range(14):
        r = V.run_engine(V.build_engine(), bc, {"CASE": c}, 60.0, 0, outdir=out, tag="r%d" % c, noleak=True, steps=20000000, jobs=1, pending=200)
        ok = r.get("reached") and not r.get("violations") and not r.get("errors") and not r.get("fatal")
        bad += not ok
        print(c, "ok" if ok else (r.get("fatal"), r.get("violations"), r.get("errors")))
sys.exit(1 if bad else 0)
