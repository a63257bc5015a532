#!/usr/bin/env python3
"""plant.py ID... : confirms seeded changes in a scratch copy of /repo and runs
this framework's check of the property against it.
usage: plant.py [--no-check] ID..."""
import json, os, subprocess, sys
S = "/tmp/scratch_repo"; V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]; nocheck = "--no-check" in sys.argv
if not os.path.isdir(S):
    sh(f"cp -a /repo {S}")
sh(f"git -C {S} checkout -q -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
BUILD = open("/opt/vp/build.sh").read().replace("/repo", S)
TEST = open("/opt/vp/test.sh").read()
open("/tmp/scratch_build.sh", "w").write(BUILD)
open("/tmp/scratch_test.sh", "w").write(TEST.replace("/opt/vp/build.sh", "/tmp/scratch_build.sh").replace("/repo/", S + "/"))
def build(): return sh("bash /tmp/scratch_build.sh")
base = json.load(open("/opt/vp/BASELINE.json"))
for i in args:
    d = f"{V}/seeded/{i}"; prop = json.load(open(f"{d}/meta.json"))["property"]
    b = build()
    if b.returncode: print(i, "base build failed", b.stdout[-2000:]); continue
    r0 = sh(f"bash {d}/demo.sh", cwd=S)
    if r0.returncode: print(i, "DEMO FAILS ON CLEAN TREE", r0.stdout[-1500:]); continue
    a = sh(f"git -C {S} apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
    try:
        b = build()
        if b.returncode: print(i, "PATCHED BUILD FAILS", b.stdout[-2500:]); continue
        t = sh("bash /tmp/scratch_test.sh /tmp/scratch_t.json")
        r1 = sh(f"bash {d}/demo.sh", cwd=S)
        verdict = "tests:" + t.stdout.strip().splitlines()[-1] + " demo:" + ("fails(good)" if r1.returncode else "PASSES(BAD)")
        if not nocheck:
            c = sh(f"timeout 890 python3 engine/run.py {prop}", cwd=V, env={**os.environ, "MC_REPO": S, "MC_OUT": "/tmp/scratch_out", "MC_SHOW": "4"})
            keys = [l.strip() for l in c.stdout.splitlines() if "/" in l and l.startswith("  ")]
            verdict += f" check rc={c.returncode} {keys[:3] if c.returncode == 1 else c.stdout[-600:]}"
        print(i, verdict, flush=True)
    finally:
        sh(f"git -C {S} checkout -q -- .")
