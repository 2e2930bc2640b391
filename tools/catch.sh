#!/bin/bash
# Which checks report which planted change: catch.sh [ID…]; works on scratch copies.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
    w=/tmp/catch/$d
    mkdir -p "$w" && cp -a /repo/src "$w/" && (cd "$w" && patch -sp1 < "/verif/seeded/$d/patch.diff") || { echo "$d: does not apply"; continue; }
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    out=$(SA_REPO=$w SA_EVIDENCE=/tmp/catch/ev-$d python3 check.py "$p" 2>&1); rc=$?
    echo "$d $p rc=$rc $(echo "$out" | grep -m1 -E 'finding|ERROR' | cut -c1-150)"
    rm -rf "/tmp/catch/$d" "/tmp/catch/ev-$d"
done
