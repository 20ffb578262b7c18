#!/usr/bin/env python3
# Writes /verif/DESIGN.md from design.txt (prose) and cases.py (bounds), so that the bounds named there are the ones run.
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, root)
import cases
props = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); props[p["id"]] = p
text = open(os.path.join(here, "design.txt")).read()
def fmt(d): return ", ".join("%s=%s" % kv for kv in d.items()) or "-"
def section(m):
    pid, body = m.group(1), m.group(2).strip()
    p = props[pid]; out = ["### %s %s" % (pid, p["title"]), "", body, "", "| case | explored symbolically | quick | thorough |", "|---|---|---|---|"]
    for c in cases.PROPS[pid]["cases"]:
        q = c.get("params", {}); t = dict(q); t.update(c.get("thorough") or {})
        if c.get("thorough_only"): quick = "not run"
        else: quick = fmt(q)
        out.append("| %s | %s | %s | %s |" % (c["name"], c.get("what", "").replace("|", "\\|"), quick, fmt(t) if t != q else "same"))
    return "\n".join(out) + "\n"
done = set(re.findall(r"^@(C\d+)", text, re.M))
assert done == set(props), (done ^ set(props))
text = re.sub(r"^@(C\d+)\n(.*?)(?=^@C|^## )", lambda m: section(m) + "\n", text, flags=re.M | re.S)
rows = ["| bug | property | what it breaks | reported by |", "|---|---|---|---|"]
sd = os.path.join(root, "seeded")
caught = json.load(open(os.path.join(here, "catches.json")))
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|"), caught.get(b, "not run")))
text = text.replace("@@CATCH@@", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(text)
