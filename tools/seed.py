#!/usr/bin/env python3
"""seed.py SPEC.py... : turns a bug description into /verif/seeded/<id>/ and confirms it in a scratch copy of /repo.
A SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ source), optionally valgrind=True."""
import json, os, shutil, subprocess, sys
SW = "/tmp/sw"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    if not os.path.exists(SW):
        os.makedirs(SW)
        sh("git clone -q /repo %s" % SW)
    r = sh("git -C %s checkout -q -f . && git -C %s pull -q /repo main" % (SW, SW))
    assert r.returncode == 0, r.stdout
def build():
    s = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + SW)
    open("/tmp/sw_build.sh", "w").write(s)
    return sh("bash /tmp/sw_build.sh")
def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=SW, timeout=300)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = "/verif/seeded/" + g["id"]
    os.makedirs(d, exist_ok=True)
    prepare()
    for f, old, new in g["edits"]:
        p = os.path.join(SW, f)
        s = open(p).read()
        assert s.count(old) == 1, (g["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SW).stdout)
    open(d + "/demo.cpp", "w").write(g["demo"])
    libs = "-lyaml -lxml2 -lcurl -lpthread"
    run = 'valgrind -q --error-exitcode=9 "$t/demo"' if g.get("valgrind") else '"$t/demo"'
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# builds demo.cpp against the library built in the current directory; exit 0 means the behaviour is right\n'
        'd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
        'g++ -O1 -g -w -I include -I _build/include -I src "$d/demo.cpp" _build/src/libVariant.a %s -o "$t/demo" || exit 3\n'
        'timeout 120 %s\n' % (libs, run))
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    b = build()
    if b.returncode:
        print(g["id"], "BUILD FAILED", b.stdout[-2000:]); continue
    t = sh("ctest --test-dir %s/_build -j8 --timeout 300 2>&1 | tail -15" % SW)
    r1 = demo(d)
    sh("git -C %s checkout -q -f ." % SW); build()
    r0 = demo(d)
    ok = r0.returncode == 0 and r1.returncode not in (0, 3) and "100% tests passed" in t.stdout
    print(g["id"], "OK" if ok else "BAD", "unchanged=%d patched=%d" % (r0.returncode, r1.returncode), "" if ok else t.stdout + r0.stdout[-800:] + r1.stdout[-800:])
