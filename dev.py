#!/usr/bin/env python3
"""dev.py <crate> <harness,...> [symx options]: build one harness crate and run harnesses, for development."""
import sys, subprocess, json
import check
# not a part of any check: exercises the executor on what changed code may use of the standard library
check.CRATES["stress"] = {"lib": "stress_harness", "local": ["stress_harness"], "repo": []}
with check.Lock():
    check.build_engine()
    ll, native = check.build_crate(sys.argv[1])
import os
out = "/tmp/dev%d.json" % os.getpid()
subprocess.run([check.SYMX, "--ll", ll, "--entries", sys.argv[2], "--out", out] + (sys.argv[3:] if "--time" in sys.argv else ["--time", "240"] + sys.argv[3:]), check=True)
for e in json.load(open(out))["entries"]:
    print(e["entry"], {k: e[k] for k in ("paths", "killed", "steps", "max_path_steps", "queries", "checks_solver", "checks_simplified", "max_vars", "wall_s")}, e["reached"], [l for l in e["expected"] if l not in e["reached"]])
    for f in (e["findings"] + e["errors"])[:4]:
        v = [x for _, x in f["inputs"]]
        print("  ", f["kind"], f["label"], ",".join(v), f["stack"][:4])
        print("   native:", check.native_run(native, [(e["entry"], v)], 20))
    cases = [(e["entry"], [x for _, x in s["inputs"]]) for s in e["samples"]]
    got = check.native_run(native, cases, 60)
    bad = [(c, g, s["digest"]) for c, g, s in zip(cases, got, e["samples"]) if g != "OK %s %d" % (s["digest"], s["events"])]
    print("   validated", len(cases) - len(bad), "bad", bad[:2])
os.remove(out)
