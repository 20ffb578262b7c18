#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--case NAME] : decides one property; see DESIGN.md for the interface."""
import json, os, re, shutil, subprocess, sys, time
import vplib as V
from vplib import CheckError
import cases as C


def known_findings():
    res = {}
    p = os.path.join(V.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m:
                res[m.group(2)] = (m.group(1), m.group(3).strip())
    return res


def confirm(case, exe, v, params, work, harness, extra):
    """replay a counterexample against the library itself; returns a description or None"""
    if v["kind"] == "uninit":
        plain = V.build_native(harness, san=False, **extra)
        out, err = V.run_native(plain, [v["inputs"]], params, work, timeout=60, valgrind=True)
        if any(o.startswith("exit 99") for o in out) or "uninitialised" in err:
            return "valgrind: use of uninitialised value"
        if out and out[0].startswith("assert "):
            return out[0]
        # fall through: the uninitialised value may show up as a wrong result natively
    runs = 4 if v["kind"] == "leak" else 1
    out, err = V.run_native(exe, [v["inputs"]], params, work, runs=runs)
    o = out[0] if out else "no result"
    if o.startswith("ok"):
        m = re.search(r"leak=(-?\d+)", o)
        if v["kind"] == "leak" and m and int(m.group(1)) > 0:
            return "leaks %s bytes per run" % m.group(1)
        return None
    if o.startswith("assert ") or o.startswith("crash "):
        return o
    if o.startswith("signal 14"):
        return "no termination within 20 s"
    if o.startswith("signal"):
        return "process killed by " + o
    if o.startswith("exit 97"):
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
        return "AddressSanitizer: " + (m.group(1) if m else "error")
    if o.startswith("exit "):
        return "abnormal " + o
    return None


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--case" in a:
        only = a[a.index("--case") + 1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    prop = C.PROPS[pid]
    t0 = time.time()
    evdir = os.path.join(V.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = os.path.join(V.BUILD, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return run(pid, prop, tier, only, seed, t0, evdir, work)
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, prop, tier, only, seed, t0, evdir, work):
    engine = V.build_engine()
    kf = known_findings()
    tot = {}
    funcs, stubs, samples_ev, bounds, problems, viol_lines, known_lines = set(), {}, [], {}, [], [], []
    traces = asserts_labels = 0
    validated_inputs = []
    reached_all = {}
    z3_checked_paths = 0
    per_case = {}
    budget = C.BUDGET[tier]
    built = {}
    for case in prop["cases"]:
        if only and case["name"] != only:
            continue
        if case.get("thorough_only") and tier != "thorough":
            continue
        harness = case.get("harness", prop["harness"])
        extra_rt = case.get("rt", prop.get("rt", []))
        extra_native = dict(extra_native=case.get("native", prop.get("native", [])), libs=prop.get("libs"))
        if harness not in built:
            bc, srcs = V.build_bitcode(harness, extra_rt)
            built[harness] = (bc, V.build_native(harness, **extra_native))
        bc, exe = built[harness]
        params = dict(case.get("params", {}))
        if tier == "thorough":
            params.update(case.get("thorough", {}))
        params["CASE"] = case.get("id", 0)
        finding = case.get("finding")
        if finding and finding not in kf:
            raise CheckError("case %s demonstrates finding %s which is not listed in KNOWN_FINDINGS.txt" % (case["name"], finding))
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append("%s: no time left in this tier's budget" % case["name"])
            continue
        r = V.run_engine(engine, bc, params, min(left, case.get("time", 600)), seed, outdir=work, tag="o", noleak=case.get("noleak", False),
                         steps=case.get("steps", 20000000), samples=case.get("samples", 2), pending=case.get("pending", 200), jobs=int(os.environ.get("VERIF_JOBS", V.NCPU)))
        if "fatal" in r:
            problems.append("%s: %s" % (case["name"], r["fatal"]))
            continue
        if os.environ.get("VERIF_VERBOSE"):
            print("case %s: %s" % (case["name"], json.dumps({k: v for k, v in r["n"].items()})))
            print("   reached", r["reached"], "complete", r["complete"], "errors", r["errors"][:3], r["stderr"][-600:])
        confirmed = []
        seen = set()
        for v in r["violations"]:
            sig = (v["kind"], v["msg"])
            if sig in seen and len(confirmed):
                continue
            seen.add(sig)
            how = confirm(case, exe, v, params, work, harness, extra_native)
            if os.environ.get("VERIF_VERBOSE"):
                print("   violation %s: %s | %s\n      inputs %s\n      %s" % (v["kind"], v["msg"], how, v["inputs"], v["trace"][:1500].replace("\n", "\n      ")))
            if how:
                confirmed.append((v, how))
            else:
                problems.append("%s: counterexample not reproduced on the library (%s: %s; inputs %s; at %s)" % (case["name"], v["kind"], v["msg"], v["inputs"], v["trace"][:600]))
        if finding:
            if confirmed:
                v, how = confirmed[0]
                if case.get("expect") and not re.search(case["expect"], v["msg"] + " " + how):
                    finding = None  # a different failure: report it
                else:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[finding][1]))
                    per_case[case["name"]] = {"bounds": params, "known_finding": finding, "paths": r["n"]["paths"]}
                    continue
            elif not r["violations"] and not r["errors"] and r["complete"]:
                per_case[case["name"]] = {"bounds": params, "note": "finding %s no longer occurs" % finding}
        for v, how in confirmed:
            rdir = os.path.join(evdir, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.json" % (pid, case["name"], len(viol_lines)))
            json.dump({"property": pid, "case": case["name"], "params": params, "harness": harness, "kind": v["kind"], "msg": v["msg"], "inputs": v["inputs"],
                       "native_result": how, "trace": v["trace"], "rerun": "python3 /verif/replay.py %s" % path}, open(path, "w"), indent=1)
            viol_lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("%s\n  case %s: %s: %s\n  on the library itself: %s\n  inputs: %s" % (viol_lines[-1], case["name"], v["kind"], v["msg"], how, v["inputs"]))
        if confirmed:
            break
        if r["errors"]:
            problems.append("%s: inconclusive: %s" % (case["name"], r["errors"][0][:800]))
        elif not r["complete"] and not r["violations"]:
            problems.append("%s: exploration did not finish within its time limit" % case["name"])
        if not r["violations"] and not finding:
            for lab in case.get("reach", prop.get("reach", [])):
                if not r["reached"].get(lab):
                    problems.append("%s: reachability witness '%s' not reached (vacuous)" % (case["name"], lab))
            lines = [s["inputs"] for s in r["samples"]]
            if lines:
                out, err = V.run_native(exe, lines, params, work)
                for s, o in zip(r["samples"], out):
                    m = re.match(r"ok leak=\S+ obs=(.*)", o)
                    if m and m.group(1).rstrip(",") == s["obs"]:
                        traces += 1
                        if len(validated_inputs) < 6:
                            validated_inputs.append({"case": case["name"], "inputs": s["inputs"][:300], "observed": s["obs"][:200]})
                    else:
                        problems.append("%s: path model and library disagree: inputs %s model obs %s library %s %s" % (case["name"], s["inputs"], s["obs"], o[:300], err[-300:]))
        for k, v in r["n"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "z3_max" else tot.get(k, 0) + v
        funcs |= r["functions"]
        for k, v in r["stubs"].items():
            stubs[k] = stubs.get(k, 0) + v
        z3_checked_paths += sum(1 for s in r["samples"] if s["z3"])
        per_case[case["name"]] = {"bounds": {k: v for k, v in params.items() if k != "CASE"}, "what": case.get("what", ""), "paths": r["n"]["paths"], "complete": r["complete"],
                                  "queries": r["n"]["z3_queries"], "seconds": round(r["secs"], 2), "reached": r["reached"]}
    dem = [d for d in V.demangle(sorted(funcs)) if "libvariant" in d] + sorted(f for f in funcs if f.startswith(("JSON_", "new_JSON", "delete_JSON")) )
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol_lines),
          "coverage": {
              "states": int(tot.get("forks", 0)) + 1, "transitions": int(tot.get("steps", 0)), "traces_validated_against_impl": traces,
              "samples": validated_inputs or [{"note": "no complete path in this run"}],
              "paths_completed": int(tot.get("paths", 0)), "paths_pruned_by_assumptions": int(tot.get("pruned", 0)),
              "infeasible_branches_refuted": int(tot.get("infeasible_branches", 0)),
              "solver": {"z3_queries": int(tot.get("z3_queries", 0)), "z3_sat": int(tot.get("z3_sat", 0)), "z3_unsat": int(tot.get("z3_unsat", 0)), "z3_unknown": int(tot.get("z3_unknown", 0)),
                         "decided_by_byte_domain_procedure": int(tot.get("domain_decided", 0)), "answered_from_query_cache": int(tot.get("query_cache_hits", 0)),
                         "z3_seconds": round(tot.get("z3_time", 0), 2), "slowest_query_seconds": round(tot.get("z3_max", 0), 3), "assertion_queries": int(tot.get("assert_queries", 0)),
                         "whole_paths_rechecked_by_z3": z3_checked_paths},
              "functions_encoded": len(funcs), "library_functions_encoded": dem, "cases": per_case,
              "states_meaning": "symbolic states created by forking", "transitions_meaning": "IR instructions executed symbolically"},
          "assumptions": prop.get("assumptions", []) + sorted("stub: " + s for s in stubs) + C.COMMON_ASSUMPTIONS}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for l in known_lines:
        print(l)
    if viol_lines:
        return 1
    if problems:
        for p in problems:
            print("ERROR: " + p)
        return 2
    print("OK property=%s tier=%s paths=%d z3_queries=%d traces_validated=%d wall=%.1fs" % (pid, tier, tot.get("paths", 0), tot.get("z3_queries", 0), traces, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
