#!/usr/bin/env python3
"""Decides one property by symbolic execution of the code in /repo (see DESIGN.md).

usage: check.py <property> [--tier quick|thorough]      exit 0 held / 1 violated / 2 no answer
       check.py --build                                  build everything (setup)
       check.py --replay <file>                          run a recorded counterexample natively
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CRATES, PROPERTIES

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
SYMX = os.path.join(TARGET, "engine", "release", "symx")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise NoAnswer("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build_engine():
    src = os.path.join(HERE, "engine")
    out = os.path.join(TARGET, "engine")
    stamp = os.path.join(TARGET, "engine.stamp")
    want = tree_hash([src])
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    sh(["cargo", "build", "--release", "--offline"], src, dict(ENV, CARGO_TARGET_DIR=out))
    with open(stamp, "w") as f:
        f.write(want)


def build_crate(name):
    """LLVM IR and native driver of a harness crate, from /repo's current sources."""
    c = CRATES[name]
    src = os.path.join(HERE, "harness", name)
    out = os.path.join(TARGET, name)
    stamp = os.path.join(TARGET, name + ".stamp")
    want = tree_hash([src, os.path.join(HERE, "harness", "common")] + [os.path.join(HERE, p) for p in c.get("extra", [])] + [os.path.join(REPO, p) for p in c["repo"]])
    ll = os.path.join(out, "sym", "deps", c["lib"] + ".ll")
    native = os.path.join(out, "replay", "replay")
    if not (os.path.exists(ll) and os.path.exists(native) and os.path.exists(stamp) and open(stamp).read() == want):
        # never trust time stamps: drop everything cargo knows about the local packages
        if os.path.exists(stamp):
            os.remove(stamp)
        for pkg in c["local"]:
            for prof in ("sym", "replay"):
                for d in glob.glob(os.path.join(out, prof, ".fingerprint", pkg + "-*")):
                    for f in os.listdir(d):
                        os.remove(os.path.join(d, f))
        for f in glob.glob(os.path.join(out, "sym", "deps", "*.ll")):
            os.remove(f)
        env = dict(ENV, CARGO_TARGET_DIR=out)
        # debug sections are not needed; vector code is only a slower spelling of the same loops
        p1 = subprocess.Popen(["cargo", "rustc", "--offline", "--profile", "sym", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-A", "warnings"],
                              cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o1 = p1.communicate(timeout=1200)[0]
        if p1.returncode != 0:
            raise NoAnswer("IR build failed:\n" + o1[-4000:])
        sh(["cargo", "build", "--offline", "--profile", "replay", "--bin", "replay"], src, env)
        with open(stamp, "w") as f:
            f.write(want)
    return ll, native


def build_page(prog):
    """What the page gets from the compiled Rust side of /repo, as a program: "trees" (rows to their syntax trees), or
    "page_harness" (the editor with its bindings). What they say is never modelled."""
    c = CRATES["editor"]
    src = os.path.join(HERE, "harness", "page" if prog == "page_harness" else "editor")
    out = os.path.join(TARGET, "page" if prog == "trees" else prog)
    stamp = os.path.join(TARGET, "page." + prog + ".stamp")
    exe = os.path.join(out, "replay", prog)
    want = tree_hash([src, os.path.join(HERE, "harness", "common")] + [os.path.join(HERE, p) for p in c.get("extra", [])] + [os.path.join(REPO, p) for p in c["repo"] + ["aftermath-core/web/src"]])
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want):
        if os.path.exists(stamp):
            os.remove(stamp)
        for pkg in c["local"] + ["web", "page_harness"]:
            for d in glob.glob(os.path.join(out, "replay", ".fingerprint", pkg + "-*")):
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
        sh(["cargo", "build", "--offline", "--profile", "replay", "--bin", prog], src, dict(ENV, CARGO_TARGET_DIR=out))
        with open(stamp, "w") as f:
            f.write(want)
    os.environ["TREES" if prog == "trees" else "PAGE"] = exe


def build_page_for(pid):
    if PROPERTIES[pid].get("trees"):
        build_page("trees")
    if PROPERTIES[pid].get("web"):
        build_page("page_harness")


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def native_run(native, cases, timeout):
    """cases: [(harness, [values])] -> one outcome string each; a hang or a crash only costs its own case."""
    res = []
    i = 0
    while i < len(cases):
        text = "".join("%s %s\n" % (h, ",".join(map(str, v))) for h, v in cases[i:])
        try:
            p = subprocess.run(native if isinstance(native, list) else [native], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            out = p.stdout.splitlines()
            res += out
            i += len(out)
            if i < len(cases):
                res.append("CRASH exit %d %s" % (p.returncode, p.stderr[-200:].replace("\n", " ")))
                i += 1
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
            done = [l for l in out.splitlines()]
            res += done
            i += len(done)
            if i < len(cases):
                res.append("HANG no result within %d s" % timeout)
                i += 1
    return res


BAD = ("FAIL", "PANIC", "CRASH", "HANG", "THROWN")


def page_native():
    return ["node", os.path.join(HERE, "page", "main.js"), "run"]


def page_explore(entries, work, left, samples):
    """The TypeScript of the page: one process per harness (page/engine.js), in the shape symx reports."""
    left = max(10, left - 5)
    running, todo, res = [], list(entries), {}
    while todo or running:
        while todo and len(running) < (os.cpu_count() or 8):
            e = todo.pop(0)
            out = os.path.join(work, e + ".json")
            err = open(os.path.join(work, e + ".err"), "w+")
            running.append((e, out, err, time.time(), subprocess.Popen(["node", "--stack-size=8000", os.path.join(HERE, "page", "main.js"), "explore", e, out, str(int(left)), str(samples)], cwd=work, stdout=subprocess.DEVNULL, stderr=err)))
        for r in list(running):
            e, out, err, t, p = r
            if p.poll() is None:
                if time.time() - t > left + 90:
                    p.kill()
                    raise NoAnswer("%s exceeded its time" % e)
                continue
            running.remove(r)
            if p.returncode != 0:
                err.seek(0)
                raise NoAnswer("%s: %s" % (e, err.read()[-2000:]))
            err.close()
            res[e] = json.load(open(out))
        time.sleep(0.02)
    entries_out = []
    for e in entries:
        r = res[e]
        late = [p for p in r["problems"] if p.startswith("not finished")]
        hang = [p for p in r["problems"] if not p.startswith("not finished")]
        entries_out.append({"entry": e, "paths": r["paths"], "killed": r["assumed_away"], "panics_allowed": 0, "steps": 0, "forks": r["branches"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "solver_s": r["solver_s"],
            "solver_max_s": round(r["solver_max_s"], 3), "checks_solver": r["checks_solver"], "checks_simplified": r["checks"] - r["checks_solver"], "max_vars": r["max_vars"], "labels": r["labels"], "reached": r["reached"], "expected": r["expected"],
            "samples": r["samples"], "findings": r["findings"], "errors": [{"kind": p, "label": "", "inputs": [], "stack": []} for p in hang], "timed_out": bool(late), "dumped": [], "functions": r["functions"], "wall_s": r["wall_s"]})
    return {"entries": entries_out}


def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k:
            break
        l = int(k.group())
        out.append(s[k.end():k.end() + l])
        s = s[k.end() + l:]
    t = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$LP$", "("), ("$RP$", ")"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$u3b$", ";"), ("..", "::")):
        t = t.replace(a, b)
    return t


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        m = re.match(r"KNOWN property=(\S+) entry=(\S+) label=\"([^\"]*)\" inputs=(\S+)\s+(.*)", line)
        if m and m.group(1) == pid:
            out.append({"entry": m.group(2), "label": m.group(3), "inputs": m.group(4), "what": m.group(5)})
    return out


def cross_check(dumped, limit):
    """second opinion on a sample of the queries"""
    agree, bad, skipped = 0, [], 0
    t0 = time.time()
    for d in dumped:
        if time.time() - t0 > limit:
            skipped += 1
            continue
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", "-"], input=d["smt2"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=40)
        except subprocess.TimeoutExpired:
            skipped += 1
            continue
        a = p.stdout.strip().splitlines()[:1]
        if a == ["sat" if d["sat"] else "unsat"]:
            agree += 1
        elif a in (["sat"], ["unsat"]):
            bad.append(d)
        else:
            skipped += 1
    return agree, bad, skipped


def run_property(pid, tier, seed):
    t0 = time.time()
    P = PROPERTIES[pid]
    groups = P["quick"] if tier == "quick" else P.get("thorough", P["quick"])
    budget = P.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "violations": 0}
    known = known_findings(pid)
    violations, known_hit, problems = [], [], []
    entries_ev, functions, samples_out = [], set(), []
    tot = dict(states=0, transitions=0, queries=0, unsat=0, sat=0, solver_s=0.0, steps=0, checks=0, checks_solver=0, validated=0, cross=0)
    for crate, entries in groups:
        with Lock():
            if crate == "page":
                build_page_for(pid)
                ll, native = None, page_native()
            else:
                build_engine()
                ll, native = build_crate(crate)
            # private copies: another check may rebuild while this one runs
            work = os.path.join(TARGET, "run-%s-%s-%d" % (pid, crate, os.getpid()))
            os.makedirs(work, exist_ok=True)
            if crate != "page":
                os.link(ll, os.path.join(work, "h.ll"))
                os.link(native, os.path.join(work, "replay"))
        if crate != "page":
            ll, native = os.path.join(work, "h.ll"), os.path.join(work, "replay")
        try:
            outp = os.path.join(work, "out.json")
            left = max(30, budget - (time.time() - t0))
            if crate == "page":
                data = page_explore(entries, work, left, 40 if tier == "quick" else 200)
            else:
                cmd = [SYMX, "--ll", ll, "--entries", ",".join(entries), "--out", outp, "--threads", str(os.cpu_count() or 8), "--time", str(int(left)),
                       "--total-time", str(int(left)), "--seed", str(seed), "--samples", "40" if tier == "quick" else "200", "--dump-every", "0" if tier == "quick" else "997", "--stop-after", "6"]
                try:
                    p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 120)
                except subprocess.TimeoutExpired:
                    raise NoAnswer("symbolic execution exceeded its time")
                sys.stderr.write(p.stderr)
                if p.returncode != 0:
                    raise NoAnswer("symbolic execution failed: " + p.stderr[-2000:])
                data = json.load(open(outp))
            for e in data["entries"]:
                name = e["entry"]
                # 1. agreement of the encoding with the compiled code on sampled paths
                cases = [(name, [v for _, v in s["inputs"]]) for s in e["samples"]]
                got = native_run(native, cases, 60)
                ok = 0
                for s, c, g in zip(e["samples"], cases, got):
                    if g == "OK %s %d" % (s["digest"], s["events"]):
                        ok += 1
                    elif g.startswith(BAD):
                        violations.append((crate, name, g, c[1]))
                    else:
                        problems.append("%s: encoding and compiled code disagree on %s: native %s, symbolic OK %s %d" % (name, c[1], g, s["digest"], s["events"]))
                tot["validated"] += ok
                # 2. counterexamples, replayed on the compiled code
                fs = e["findings"]
                got = native_run(native, [(name, [v for _, v in f["inputs"]]) for f in fs], 30)
                for f, g in zip(fs, got):
                    vals = [v for _, v in f["inputs"]]
                    if g.startswith(BAD):
                        violations.append((crate, name, g, vals))
                    else:
                        problems.append("%s: counterexample %s %s does not reproduce natively: %s" % (name, f["label"], vals, g))
                # 3. paths the engine could not finish: concrete run of that path's inputs
                es = e["errors"]
                got = native_run(native, [(name, [v for _, v in f["inputs"]]) for f in es[:8]], 30)
                for f, g in zip(es, got):
                    if g.startswith(BAD):
                        violations.append((crate, name, g, [v for _, v in f["inputs"]]))
                for f in es[:8]:
                    problems.append("%s: %s %s %s" % (name, f["kind"], f["label"], f["stack"][:3]))
                if e["timed_out"]:
                    problems.append("%s: not finished within the time limit" % name)
                if not fs and not es and not e["timed_out"]:
                    for l in e["expected"]:
                        if not e["reached"].get(l):
                            problems.append("%s: vacuous, no path reaches '%s'" % (name, l))
                    if e["paths"] == 0 or not e["labels"]:
                        problems.append("%s: vacuous, nothing was checked" % name)
                    if ok == 0:
                        problems.append("%s: no path was validated against the compiled code" % name)
                cross = (0, [], 0)
                if e["dumped"]:
                    cross = cross_check(e["dumped"], 120)
                    for d in cross[1]:
                        problems.append("%s: cvc5 disagrees with z3 on a query" % name)
                tot["cross"] += cross[0]
                for f in e["functions"]:
                    functions.add(demangle(f))
                tot["states"] += e["paths"]; tot["transitions"] += e["forks"]; tot["queries"] += e["queries"]; tot["sat"] += e["sat"]; tot["unsat"] += e["unsat"]
                tot["solver_s"] += e["solver_s"]; tot["steps"] += e["steps"]; tot["checks_solver"] += e["checks_solver"]; tot["checks"] += e["checks_solver"] + e["checks_simplified"]
                entries_ev.append({"harness": name, "paths": e["paths"], "infeasible_or_out_of_bounds": e["killed"], "ended_in_allowed_panic": e["panics_allowed"], "instructions": e["steps"], "forks": e["forks"],
                                   "queries": e["queries"], "queries_unsat": e["unsat"], "solver_s": round(e["solver_s"], 3), "solver_max_s": e["solver_max_s"], "assertions_by_solver": e["checks_solver"], "assertions_by_rewriting": e["checks_simplified"],
                                   "most_symbolic_inputs": e["max_vars"], "assertions": e["labels"], "reached": e["reached"], "paths_rerun_natively": ok, "queries_confirmed_by_cvc5": cross[0], "wall_s": e["wall_s"]})
                for s in e["samples"][:2]:
                    samples_out.append({"harness": name, "solver_model": [int(v) for _, v in s["inputs"]], "events": s["events"], "native": "same events"})
        finally:
            for f in os.listdir(work):
                os.remove(os.path.join(work, f))
            os.rmdir(work)
    # verdict
    real = []
    for v in violations:
        k = [k for k in known if k["entry"] == v[1] and k["label"] == v[2].split(" at ")[0] and k["inputs"] in ("*", ",".join(map(str, v[3])))]
        if k:
            if k[0] not in known_hit:
                known_hit.append(k[0])
        else:
            real.append(v)
    own = sorted(f for f in functions if f.startswith("src/") or re.search(r"\b(input_tree|caret|serialization|parser|mini_chumsky)\b", f) and "harness" not in f.split("::")[0])
    ev["coverage"] = {
        "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["validated"], "samples": samples_out[:20],
        "assertions_decided": tot["checks"], "assertions_needing_solver": tot["checks_solver"], "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"],
        "solver_s": round(tot["solver_s"], 3), "ir_instructions_executed": tot["steps"], "queries_confirmed_by_cvc5": tot["cross"],
        "repo_functions_encoded": own, "functions_encoded_total": len(functions), "bounds": P["bounds"][tier] if tier in P["bounds"] else P["bounds"]["quick"], "outside_bounds": P["outside"], "harnesses": entries_ev,
        "meaning": "states = symbolic paths run to their end (each stands for all inputs that satisfy its path condition); transitions = forks decided by the solver or its cached models; traces = paths whose solver model was re-run on the compiled code with identical observations",
    }
    ev["assumptions"] = P.get("assumptions", []) + ["rustc 1.85.1 -O IR of the code is what runs (overflow checks on)", "the executor, its rewriting rules and z3 are right (self-test, native re-runs of sampled paths, every counterexample re-run natively)"]
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(real)
    if known_hit:
        ev["known_findings_seen"] = [k["what"] for k in known_hit]
    if problems:
        ev["no_answer"] = problems[:20]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if real:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for crate, name, g, vals in real:
            key = (name, g.split(" at ")[0])
            if key in seen or len(seen) >= 6:
                continue
            seen.add(key)
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (pid, name, len(seen)))
            with open(path, "w") as f:
                json.dump({"property": pid, "crate": crate, "harness": name, "observed": g, "inputs": [str(x) for x in vals], "rerun": "python3 /verif/check.py --replay " + path}, f, indent=1)
            print("%s: %s on inputs %s" % (name, g, ",".join(map(str, vals))))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems[:20]:
            print("NO ANSWER: " + p)
        return 2
    print("%s held: %d paths, %d assertions (%d by solver), %d queries (%d unsat), %.1f s solver, %d paths re-run natively, %.0f s" % (
        pid, tot["states"], tot["checks"], tot["checks_solver"], tot["queries"], tot["unsat"], tot["solver_s"], tot["validated"], ev["wall_s"]))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        with Lock():
            build_engine()
            for c in CRATES:
                if c != "page":
                    build_crate(c)
            build_page("trees")
            build_page("page_harness")
        print(sh([SYMX, "--selftest", "1"], HERE).strip())
        return 0
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        with Lock():
            if r["crate"] == "page":
                build_page_for(r["property"])
            native = page_native() if r["crate"] == "page" else build_crate(r["crate"])[1]
        print(native_run(native, [(r["harness"], r["inputs"])], 30)[0])
        return 0
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_property(a[0], tier if tier in ("quick", "thorough") else "quick", seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
