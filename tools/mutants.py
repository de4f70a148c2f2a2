#!/usr/bin/env python3
"""Self-test of the checks against small source mutations (development aid; not used by any check).
  mutants.py FILE.json [name...]   FILE: [{"name":..,"edits":[[file,old,new],..],"checks":[..]}]
Copies /repo to a scratch directory, applies the edits and runs the named checks on it."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = json.load(open(sys.argv[1]))
only = sys.argv[2:]
for m in muts:
    if only and m["name"] not in only:
        continue
    d = "/tmp/mut_repo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for s in ("inc", "src"):
        shutil.copytree("/repo/" + s, d + "/" + s)
    ok = True
    for f, old, new in m["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        n = t.count(old)
        if n < 1:
            print(m["name"], "EDIT DOES NOT APPLY", f, old[:60]); ok = False; break
        t = t.replace(old, new) if m.get("all") else t.replace(old, new, 1)
        open(p, "w").write(t)
    if not ok:
        continue
    res = []
    for c in m["checks"]:
        t0 = time.time()
        r = subprocess.run([sys.executable, V + "/run.py", "check", c], env=dict(os.environ, TECS_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        sig = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
        res.append("%s=%d(%.0fs)%s" % (c, r.returncode, time.time() - t0, (" " + sig[0][:150]) if sig else (" " + r.stdout[-150:].strip() if r.returncode else "")))
    print(m["name"], "|", "\n      ".join(res), flush=True)
shutil.rmtree("/tmp/mut_repo", ignore_errors=True)
