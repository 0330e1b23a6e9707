#!/usr/bin/env python3
"""refac.py [NAME...] [-c CHECK,CHECK]: runs the checks on behaviour-preserving edits of a scratch copy; prints every check that is not quiet.
Keys of results already seen quiet are not kept: every call runs everything asked for."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from refactors import R
args = [a for a in sys.argv[1:] if a != "-k"]
ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
W = 7
if "-j" in args:
    i = args.index("-j")
    W = int(args[i + 1])
    del args[i:i + 2]
if "-c" in args:
    i = args.index("-c")
    ids = args[i + 1].split(",")
    del args[i:i + 2]
jobs = []
for n in args or sorted(R):
    d = "/tmp/refac." + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("cd /repo && git archive HEAD | tar x -C " + d, shell=True)
    ok = True
    for e in R[n]:
        f = os.path.join(d, e[0])
        s = open(f).read() if os.path.exists(f) else ""
        try:
            t = e[1](s) if callable(e[1]) else s.replace(e[1], e[2])
        except ValueError as x:
            print(n, x)
            t = s
        if t == s:
            print(n, "EDIT DOES NOT APPLY", e[0], "" if callable(e[1]) else repr(e[1][:60]))
            ok = False
        open(f, "w").write(t)
    p = subprocess.run("rustc --edition 2021 --cap-lints allow --emit metadata --crate-type rlib --crate-name aga8 --cfg 'feature=\"extern\"' -o /tmp/refac.m src/lib.rs", shell=True, cwd=d, capture_output=True, text=True)
    if p.returncode:
        print(n, "DOES NOT COMPILE", p.stderr[:1500])
        ok = False
    if ok:
        jobs += [(n, d, c) for c in ids]


def run(j):
    n, d, c = j
    try:
        p = subprocess.run([V + "/check.sh", c], env=dict(os.environ, AGA8_REPO=d), capture_output=True, text=True, timeout=900)
        if p.returncode:
            print("%-24s %s rc=%d %s" % (n, c, p.returncode, (p.stdout + p.stderr).strip()[:600]), flush=True)
        return p.returncode
    except subprocess.TimeoutExpired:
        print("%-24s %s TIMEOUT" % (n, c), flush=True)
        return 9


with ThreadPoolExecutor(W) as ex:
    rc = list(ex.map(run, jobs))
print("%d runs, %d quiet" % (len(rc), rc.count(0)))
for n in {j[0] for j in jobs} if "-k" not in sys.argv else ():
    shutil.rmtree("/tmp/refac." + n, ignore_errors=True)
