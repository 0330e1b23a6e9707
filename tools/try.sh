#!/bin/bash
# try.sh [ID...]: run the property's own check on each planted change (scratch copies)
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  TAILN=${TAILN:-4} tools/mut.sh "$i" "seeded/$i/patch.diff" "$p"
done
