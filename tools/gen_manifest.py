#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (which properties are claimed) and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, PROPS, TECHNIQUE, NOTE
NA = {"C25": "a property of what the compiler rejects: there is no execution to observe; the permitted half (everything the locks "
             "permit compiles and the traits agree with the permission sets) is exercised by the harnesses of C16"}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "TECS_VERIF_HOOKS", "enable": "checks compile /repo's sources with -DTECS_VERIF_HOOKS and link a definition of "
               "tecs_verif_point(const char*) (harness/sched.c)", "source_commits": ["8850b96"]},
     "checks": [], "not_applicable": [],
     "notes": "Every check compiles what it needs from /repo's working tree. Exit 2 = no answer (build failure or too little observed). "
              "Known findings: known_findings.json. Seed: VERIF_SEED. Replay: python3 run.py replay <file>."}
for p in PROPS:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p,
                            "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": TECHNIQUE[p], "level": "exploration",
                            "level_note": NOTE.get(p, "observes the real code on generated executions; not exhaustive")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
