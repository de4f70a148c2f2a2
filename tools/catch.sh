#!/bin/bash
# catch.sh ID[:CHECK,CHECK...]...: run the property's own check (or the given ones) against a scratch copy of /repo with the planted change
V=$(cd "$(dirname "$0")/.." && pwd)
for x in "$@"; do
    id=${x%%:*}; S=$V/seeded/$id
    W=/tmp/cw_$id
    rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar -x -C "$W"
    (cd "$W" && git init -q . && git apply "$S/patch.diff") || { echo "$id DOES NOT APPLY"; rm -rf "$W"; continue; }
    cs=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    case "$x" in *:*) cs=${x#*:};; esac
    for c in ${cs//,/ }; do
        o=$(cd $V && TECS_REPO=$W VERIF_SEED=${SEED:-1} timeout 900 python3 run.py check $c 2>&1); r=$?
        echo "$id $c exit=$r $(echo "$o" | grep -v '^KNOWN' | head -1 | cut -c1-220)"
    done
    rm -rf "$W"
done
