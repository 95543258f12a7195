#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py (claimed properties) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": s.get("technique", "stateful property-based testing against a reference model (generated operation histories, shrinking)"),
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Generated-input search: every explored case agreed with the oracle; absence of a "
                                "counterexample is not a proof. Trusts the reference model in /verif/harness, the compilers, libstdc++ and (where used) the sanitizer runtimes."),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1,
     "setup_cmd": "mkdir -p .build evidence replays && /usr/bin/g++-14 --version >/dev/null && /usr/bin/clang++-18 --version >/dev/null",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every harness uses the public headers only. Each check builds its harness from /repo/include into /verif/.build (git-ignored) and leaves /repo untouched."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
