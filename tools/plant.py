#!/usr/bin/env python3
"""plant.py [ID...]: writes /verif/seeded/<id>/ from tools/seeds.py and confirms each planted change in a scratch copy of /repo
(applies, builds, the stable tests pass, demo quiet without and failing with it)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS, PRELUDE
W = "/tmp/plant"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
DEMO = '''#!/bin/bash
# builds the library of the current directory and demo.rs in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 90
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -O --cap-lints allow --crate-type rlib --crate-name aga8 --cfg 'feature="extern"' --out-dir "$t" src/lib.rs || exit 91
rustc --edition 2021 -O --cap-lints allow --extern aga8="$t/libaga8.rlib" -o "$t/demo" "$here/demo.rs" || exit 92
timeout 120 "$t/demo"
'''


def sh(cmd, cwd, check=False, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def main():
    want = sys.argv[1:]
    if not os.path.isdir(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target -e Cargo.lock", W)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in SEEDS:
        i = s["id"]
        if want and i not in want:
            continue
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -f -- .", W)
        f = os.path.join(W, s["file"])
        t = open(f).read()
        for a, b in s["edits"]:
            n = t.count(a)
            if n != 1:
                print(i, "EDIT MATCHES %d TIMES: %r" % (n, a[:80]))
                break
            t = t.replace(a, b)
        else:
            open(f, "w").write(t)
            _, diff = sh("git diff", W)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            sh("rm -rf target/debug/.fingerprint/aga8-*", W)
            rc, out = sh("cargo test --workspace --features extern --no-fail-fast --offline -- --test-threads 8 > target/t.log 2>&1; python3 /opt/vp/results.py /tmp/plant.json cargo:%s/target/t.log" % W, W)
            r = json.load(open("/tmp/plant.json"))
            miss = base - set(r["passed"])
            rc1, o1 = sh(os.path.join(d, "demo.sh"), W)
            sh("git checkout -q -f -- .", W)
            rc0, o0 = sh(os.path.join(d, "demo.sh"), W)
            ok = not miss and rc0 == 0 and rc1 not in (0, 90, 91, 92)
            print(i, s["property"], "OK" if ok else "BAD", "" if ok else "tests failing: %s, demo clean %d patched %d\n%s\n%s" % (sorted(miss), rc0, rc1, o0[-600:], o1[-600:]), flush=True)
            continue


main()
