#!/usr/bin/env python3
"""Compiles demo.cc (beside this file) against the objects of a test target of
the build in ./_build and runs it. usage: demo_run.py TARGET [extra flags]"""
import os, re, shlex, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
target, extra = sys.argv[1], sys.argv[2:]
b = os.path.join(os.getcwd(), "_build")
cmds = subprocess.check_output(["ninja", "-t", "commands", target], cwd=b, text=True).splitlines()
obj = "/_objs/" + os.path.basename(target) + "/"
link = cmds[-1]
comp = [c for c in cmds if obj in c and " -c " in c][0]
inp = []
for r, ds, fs in os.walk(os.path.join(b, "bazel-out")):
    if "_unittests" in r:
        continue
    inp += [os.path.join(r, f) for f in fs if f.endswith(".o") and not f.endswith(("_unittest.o", "main.o"))]
tmp = tempfile.mkdtemp(prefix="demo.")
try:
    o = os.path.join(tmp, "demo")
    c = shlex.split(comp)
    i = c.index("-MD") if "-MD" in c else len(c)
    flags = [x for x in c[:i] if x not in ("-w",)]
    if subprocess.call(flags + ["-w"] + extra + ["-I" + here, "-c", os.path.join(here, "demo.cc"), "-o", o + ".o"], cwd=b):
        print("demo does not compile"); sys.exit(3)
    l = shlex.split(link)
    l = [x for x in l if not x.startswith("@") and not x.startswith("gtest/")]
    k = l.index("-o"); l[k + 1] = o
    lib = os.path.join(tmp, "libdemo.a")
    open(os.path.join(tmp, "objs"), "w").write("\n".join(inp))
    subprocess.check_call(["ar", "rcT", lib, "@" + os.path.join(tmp, "objs")], cwd=b)
    l[k + 2:k + 2] = [o + ".o", lib]
    if subprocess.call(l, cwd=b):
        print("demo does not link"); sys.exit(3)
    r = subprocess.run([o], cwd=tmp, timeout=200)
    print("demo exit", r.returncode)
    sys.exit(0 if r.returncode == 0 else 1)
finally:
    import shutil
    shutil.rmtree(tmp)
