#!/usr/bin/env python3
"""seed.py <bug file>...: makes /verif/seeded/<id>/ from a description of a planted bug, after confirming in a scratch copy
that it compiles, passes the existing tests, and that its demonstration tells the changed tree from the unchanged one.
A bug file is Python: id, property, needs, what, edits = [(file, old, new)], demo = Rust source
(JavaScript for kind = "page", whose edits are relative to /repo)."""
import sys, os, subprocess, json, shutil, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")

def sh(cmd, cwd, env=None, quiet=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def make(path):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(OUT, d["id"])
    if os.path.exists(out): shutil.rmtree(out)
    os.makedirs(out)
    kind = d.get("kind", "tree")
    demo = open(os.path.join(HERE, kind, "demo.sh")).read()
    open(os.path.join(out, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for f in os.listdir(os.path.join(HERE, kind)):
        if f == "demo.sh": continue
        s = os.path.join(HERE, kind, f)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(out, f))
    open(os.path.join(out, "demo.js" if kind == "page" else "demo.rs"), "w").write(textwrap.dedent(d["demo"]).lstrip())
    json.dump({"property": d["property"], "needs": " ".join(d["needs"].split()), "what_it_breaks": " ".join(d["what"].split())}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    scratch = tempfile.mkdtemp(prefix="seed")
    repo = scratch + "/repo"
    try:
        sh("cp -a /repo %s" % repo, "/")
        c, o = sh("bash %s/demo.sh" % out, repo)
        if c != 0: print(d["id"], "FAIL: demo fails on the unchanged tree\n" + o[-3000:]); return False
        for f, a, b in d["edits"]:
            p = os.path.join(repo, "" if kind == "page" else "aftermath-core", f)
            s = open(p).read()
            if s.count(a) != 1: print(d["id"], "FAIL: %d matches in %s for %r" % (s.count(a), f, a)); return False
            open(p, "w").write(s.replace(a, b))
        open(out + "/patch.diff", "w").write(sh("git diff", repo)[1])
        env = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.1", CARGO_TARGET_DIR=scratch + "/t")
        if "input_tree" in d["edits"][0][0]:
            ws = scratch + "/ws"
            os.makedirs(ws)
            os.symlink(repo + "/aftermath-core/input_tree", ws + "/input_tree")
            open(ws + "/Cargo.toml", "w").write('[workspace]\nresolver = "2"\nmembers = ["input_tree"]\n')
            shutil.copy(repo + "/aftermath-core/Cargo.lock", ws)
            c, o = sh("cargo check --offline 2>&1 && cargo test --offline --workspace --features input_tree/wasm 2>&1", ws, env)
            if c != 0: print(d["id"], "FAIL: tests or build\n" + o[-3000:]); return False
        c, o = sh("bash %s/demo.sh" % out, repo)
        if c == 0: print(d["id"], "FAIL: demo passes on the changed tree\n" + o[-2000:]); return False
        print(d["id"], "ok:", [l for l in o.splitlines() if "panicked" in l or "left" in l or "error" in l][:2])
        return True
    finally:
        subprocess.run(["find", scratch, "-delete"])

if __name__ == "__main__":
    sys.exit(0 if all([make(p) for p in sys.argv[1:]]) else 1)
