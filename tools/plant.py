#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates seeded/<id>/ from tools/bugs/<id>.py, after confirming in a
scratch copy that the change builds, passes the stable tests, and that the demo tells it apart."""
import json, os, shutil, subprocess, sys
V = "/verif"
DEMO = '''#!/bin/bash
# cwd: the repository. Builds demo.rs against it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 1
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sqrid = { path = "$PWD" }
[workspace]
T
cd "$d" && cargo build --offline -q 2>build.log || { cat build.log; exit 1; }
timeout 60 "$d/target/debug/demo"
'''
def run(cmd, cwd, t=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else [])
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/bugs") if f.endswith(".py"))
for i in ids:
    ns = {}
    exec(open(f"{V}/tools/bugs/{i}.py").read(), ns)
    S = "/tmp/plant/repo"
    shutil.rmtree("/tmp/plant", ignore_errors=True)
    os.makedirs("/tmp/plant")
    run(f"cp -a /repo {S}", "/")
    run("git checkout -q -- . && git clean -fdq", S)
    ok = True
    for f, old, new in ns["edits"]:
        p = f"{S}/src/sqrid/{f}"
        t = open(p).read()
        n = t.count(old)
        if n != 1 and not ns.get("all"):
            print(i, "EDIT matches", n, "times"); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    rc, diff = run("git diff", S)
    out = f"{V}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.rs", "w").write(ns["demo"].lstrip())
    demo = DEMO.replace("cargo build", "cargo build --release").replace("target/debug", "target/release") if ns.get("release") else DEMO
    open(f"{out}/demo.sh", "w").write(demo)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["what"]}, open(f"{out}/meta.json", "w"), indent=1)
    rc, o = run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", S)
    bad = [l for l in o.splitlines() if l.endswith("FAILED") or l.startswith("error")]
    rcbug, ob = run(f"bash {out}/demo.sh", S)
    rcok, oo = run(f"bash {out}/demo.sh", "/repo")
    good = rc == 0 and rcbug != 0 and rcok == 0
    print(i, "OK" if good else "BAD", "tests", rc, bad[:3], "| demo with bug", rcbug, ob.strip()[-120:], "| without", rcok, oo.strip()[-200:] if rcok else "")
    if not good:
        shutil.rmtree(out)
    shutil.rmtree("/tmp/plant", ignore_errors=True)
