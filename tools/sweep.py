#!/usr/bin/env python3
"""sweep.py [ID...]: runs each planted bug's check against a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys, time
V = os.environ.get("VX_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    S = f"/tmp/sweep/{i}"
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {S} --one-top-level=repo && cd {S}/repo && patch -sp1 < {V}/seeded/{i}/patch.diff", shell=True, check=True)
    t = time.time()
    env = dict(os.environ, VX_REPO=f"{S}/repo", VX_WORK=f"{S}/work", VERIF_SEED="1")
    p = subprocess.run(["python3", f"{V}/check.py", m["property"]], capture_output=True, text=True, env=env)
    ls = p.stdout.strip().splitlines()
    print(i, m["property"], "rc", p.returncode, f"{time.time()-t:.0f}s")
    for l in ls: print("    ", l[:260])
    if p.stderr.strip(): print(p.stderr[-500:])
    sys.stdout.flush()
    shutil.rmtree(S)
