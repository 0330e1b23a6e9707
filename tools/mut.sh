#!/bin/bash
# mut.sh NAME PATCH-OR-PY CHECK... : apply a patch (or a python edit script run in the copy) to a scratch copy of /repo and run checks on it
d=/tmp/mut.$1; p=$(readlink -f "$2"); n=$1; shift 2
rm -rf "$d"; mkdir -p "$d"; (cd /repo && git archive HEAD) | tar x -C "$d"
case "$p" in *.py) (cd "$d" && python3 "$p") || exit 3;; *) (cd "$d" && patch -s -p1 < "$p") || exit 3;; esac
for c in "$@"; do echo "== $n $c"; AGA8_REPO=$d timeout 900 /verif/check.sh $c 2>&1 | cut -c1-400 | tail -${TAILN:-8}; done
rm -rf "$d"
