#!/usr/bin/env python3
"""Writes seeded/<id>/ from a list of planted changes: mkseeds.py LIST.py (defines SEEDS). Works on a scratch copy of /repo."""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
if not os.path.isdir(W):
    subprocess.check_call(["cp", "-a", "/repo", W])
subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", W, "checkout", "-qf", "FETCH_HEAD"])
L = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for s in L["SEEDS"]:
    if only and s["id"] not in only:
        continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            print(s["id"], "EDIT MATCHES", n, "TIMES:", old[:70])
            sys.exit(1)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(s["demo"].lstrip("\n"))
    flags = s.get("flags", "-std=c++20 -O1")
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Run in the repository. Exit 0: the property holds in this execution.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ %s -g -pthread -Wno-interference-size -I"$PWD/inc" "$D/demo.cc" "$PWD/src/Tecs.cc" -o "$T/demo" || exit 2
timeout %d "$T/demo"
''' % (flags, s.get("timeout", 60)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
