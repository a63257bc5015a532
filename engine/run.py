#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, explores every shard of every section, confirms violations by re-running
the shard, and writes evidence/<id>.json.

usage: run.py ID | run.py --replay FILE | run.py --warm [ID...]
env:   VERIF_TIER=quick|thorough, VERIF_SEED; MC_REPO, MC_OUT (development only)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_OUT", VERIF + "/_out/build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("MC_JOBS", "8"))
sys.path.insert(0, VERIF + "/engine")
from checks import CHECKS  # noqa: E402

T0 = time.time()


def env():
    e = dict(os.environ)
    # -fuse-ld=lld etc. are looked up in the standard places only
    e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             PYTHONDONTWRITEBYTECODE="1",
             CCACHE_DIR=VERIF + "/_out/ccache", CCACHE_MAXSIZE="6G",
             CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime",
             CCACHE_COMPILERCHECK="mtime", CCACHE_NOCOMPRESS="1",
             GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory",
             GIT_CONFIG_VALUE_0="*")
    e.pop("CCACHE_DISABLE", None)
    cc = "ccache " if os.path.exists("/usr/bin/ccache") else ""
    e["CC"], e["CXX"] = cc + "/usr/bin/gcc", cc + "/usr/bin/g++"
    return e


def build(harnesses):
    """-> (exes, error). Always from scratch; ccache keyed by content makes
    unchanged compilations cheap."""
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    os.makedirs(VERIF + "/_out/ccache", exist_ok=True)
    for d in ("tachyon", "third_party", "bazel"):
        os.symlink(REPO + "/" + d, OUT + "/" + d)
    os.symlink(VERIF + "/harness", OUT + "/mc")
    e = env()
    r = subprocess.run(["/usr/bin/python3", VERIF + "/engine/gen.py", REPO, OUT]
                       + harnesses, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    r = subprocess.run(["/usr/bin/ninja", "-C", OUT, "-j", str(JOBS), "-k", "0"], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout[-6000:]
    exes = json.load(open(OUT + "/exes.json"))
    return {k: OUT + "/" + v for k, v in exes.items()}, None


def run_shard(exe, sec, shard, n, limit, tier=None):
    t = time.time()
    e = env()
    e["ASAN_OPTIONS"] = "hard_rss_limit_mb=4000:detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["OMP_NUM_THREADS"] = "1"
    try:
        r = subprocess.run([exe, "--run", sec, str(shard), str(n), str(limit),
                            tier or TIER], env=e, cwd=OUT,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=limit + 60)
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as x:
        out, rc, err = x.stdout or b"", 98, x.stderr or b""
    out = out.decode("utf-8", "replace")
    viol, res = [], None
    for line in out.split("\n"):
        if line.startswith("MCV "):
            try:
                viol.append(json.loads(line[4:]))
            except ValueError:
                viol.append(dict(key="garbled", what=line[:500]))
        elif line.startswith("MCR "):
            res = json.loads(line[4:])
    etail = err.decode("utf-8", "replace")
    m = re.search(r"(ERROR: AddressSanitizer.*|Check failed.*|runtime error.*|terminate called.*)", etail)
    note = (m.group(1)[:300] if m else etail[-200:]) if rc not in (0, 1) else ""
    if rc == 98 and not any("hang" in v["key"] for v in viol):
        viol.append(dict(key="hang", what="no result within %d s" % limit))
    elif rc not in (0, 1) and not viol:
        viol.append(dict(key="crash", what="exit status %d" % rc))
    for v in viol:
        if v["key"] in ("crash", "hang"):
            v["key"] = sec + "/" + v["key"]
            if note:
                v["what"] += " [" + note + "]"
    return dict(exe=exe, sec=sec, shard=shard, n=n, rc=rc, viol=viol, res=res,
                wall=time.time() - t)


def sections(exes, conf):
    jobs = []
    for h, exe in exes.items():
        out = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True,
                             env=env()).stdout
        for line in out.split("\n"):
            if not line:
                continue
            name, n, th = line.split()
            if not re.fullmatch(conf.get("only", {}).get(h, ".*"), name):
                continue
            if th == "1" and TIER != "thorough":
                continue
            for s in range(int(n)):
                jobs.append((h, exe, name, s, int(n)))
    return jobs


def load_known(pid):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"]
            if k["property"] == pid and k.get("status") == "known"]


def main():
    if sys.argv[1] == "--warm":
        ids = sys.argv[2:] or sorted(CHECKS)
        hs = sorted({h for i in ids for h in CHECKS[i]["harnesses"]})
        _, err = build(hs)
        if err:
            print(err)
            return 1
        shutil.rmtree(OUT, ignore_errors=True)
        print("warmed %d harnesses in %.0f s" % (len(hs), time.time() - T0))
        return 0
    if sys.argv[1] == "--build":
        exes, err = build(sys.argv[2:])
        print(err or exes)
        return 1 if err else 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        exes, err = build([r["harness"]])
        if err:
            print(err)
            return 2
        x = run_shard(exes[r["harness"]], r["section"], r["shard"], r["nshards"],
                      600, r["tier"])
        print(json.dumps(x["viol"], indent=1))
        return 1 if x["viol"] else 0
    pid = sys.argv[1]
    conf = CHECKS[pid]
    exes, err = build(conf["harnesses"])
    if err:
        print(err)
        print("ERROR: the harnesses of %s do not build" % pid)
        return 2
    tb = time.time() - T0
    jobs = sections(exes, conf)
    limit = conf.get("limit", 200) if TIER == "quick" else conf.get("limit_thorough", 7200)
    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(run_shard, exe, sec, s, n, limit): (h, exe, sec, s, n)
                for h, exe, sec, s, n in jobs}
        for f in cf.as_completed(futs):
            r = f.result()
            r["harness"] = futs[f][0]
            results.append(r)
    known = load_known(pid)
    bad, seen_known = [], {}
    for r in results:
        for v in r["viol"]:
            for k in known:
                if re.fullmatch(k["key"], v["key"]) and re.search(k.get("case", ""), v["what"]):
                    seen_known.setdefault(k["what"], 0)
                    seen_known[k["what"]] += 1
                    break
            else:
                bad.append((r, v))
    # confirm: the same shard must fail again
    confirmed, unrepro = [], []
    tried = {}
    byk = {}
    for r, v in bad:
        byk[v["key"]] = byk.get(v["key"], 0) + 1
        if byk[v["key"]] > 3:
            continue
        k = (r["exe"], r["sec"], r["shard"])
        if k not in tried:
            left = 840 - (time.time() - T0)
            if len([1 for x in tried.values() if x]) >= 2 or left < 20:
                tried[k] = [v]  # enough confirmed already / no time left
            else:
                lim = max(15, min(int(left) - 5, 3 * limit)) if v["key"].endswith("hang") else limit
                tried[k] = run_shard(r["exe"], r["sec"], r["shard"], r["n"],
                                     int(lim))["viol"]
        (confirmed if tried[k] else unrepro).append((r, v))
    dead = [r for r in results if r["res"] is None and not r["viol"]]
    total = dict(states=0, transitions=0, traces=0)
    per, samples = {}, []
    for r in sorted(results, key=lambda r: (r["harness"], r["sec"], r["shard"])):
        if not r["res"]:
            continue
        p = per.setdefault(r["harness"] + ":" + r["sec"],
                           dict(states=0, transitions=0, traces=0, shards=0, max_shard_s=0))
        for k in total:
            total[k] += r["res"][k]
            p[k] += r["res"][k]
        p["shards"] += 1
        p["max_shard_s"] = round(max(p["max_shard_s"], r["wall"]), 1)
        for s in r["res"]["samples"][:1]:
            if len(samples) < 24 and r["shard"] == 0:
                samples.append("%s: %s" % (r["sec"], s))
    cov = dict(states=total["states"], transitions=total["transitions"],
               traces_validated_against_impl=total["traces"],
               evaluations=total["transitions"], distinct_nontrivial=total["states"],
               rule=conf["rule"], samples=samples or ["(none)"], exhaustive=True,
               sections=per, bounds=conf.get("bounds", ""), build_s=round(tb, 1))
    lvl = conf.get("level", "model_checking")
    if lvl == "model_checking":
        cov.pop("evaluations")
        cov.pop("distinct_nontrivial")
    else:
        cov.pop("states")
        cov.pop("transitions")
        cov["traces_run"] = cov.pop("traces_validated_against_impl")
    ev = dict(property=pid, tier="thorough" if TIER == "thorough" else "quick",
              seed=SEED, level=lvl, coverage=cov,
              assumptions=conf.get("assumptions", []),
              wall_s=round(time.time() - T0, 1), violations=len(confirmed))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for what, n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for r, v in unrepro:
        print("note: not reproduced on re-run, not reported: %s %s" % (v["key"], v["what"][:300]))
    if confirmed:
        os.makedirs(VERIF + "/_out/replay", exist_ok=True)
        perkey = {}
        for r, v in confirmed:
            perkey.setdefault(v["key"], (r, v))
        for r, v in list(perkey.values())[:int(os.environ.get("MC_SHOW", "6"))]:
            d = dict(property=pid, harness=r["harness"], section=r["sec"],
                     shard=r["shard"], nshards=r["n"], tier=TIER, key=v["key"],
                     case=v["what"], rerun="python3 engine/run.py --replay <this file>")
            h = hashlib.sha256((pid + v["key"] + v["what"]).encode()).hexdigest()[:12]
            p = "%s/_out/replay/%s-%s.json" % (VERIF, pid, h)
            json.dump(d, open(p, "w"), indent=1)
            print("  %s: %s" % (v["key"], v["what"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if dead:
        print("ERROR: no result from", [(r["sec"], r["shard"], r["rc"]) for r in dead])
        return 2
    print("%s held: %d states, %d transitions, %d traces; build %.0f s, total %.0f s" % (
        pid, total["states"], total["transitions"], total["traces"], tb, time.time() - T0))
    return 0


sys.exit(main())
