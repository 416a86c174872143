#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and catalog.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from props import PROPS
from catalog import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks, na = [], [], []
for p in PROPS:
    q = {k: v for k, v in p.items() if k != "na"}
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        lines.append(q)
        checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
                       "technique": "deterministic simulation with seeded fault injection: " + c["technique"],
                       "level": "exploration", "level_note": c["note"]})
    elif "na" in p:
        lines.append(q)
        na.append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in lines:
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/check.py build",
     "hooks": {"guard": "none", "enable": "no hooks: every seam is reached by link-time replacement (operator new/delete, clock, entropy and disk system calls, MPI, OpenMP runtime) and by the library's own interfaces", "source_commits": []},
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for q in lines:
        jsonschema.validate(q, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid: %d checks, %d properties" % (len(checks), len(lines)))
except ImportError:
    print("written (run with python3-vt to validate)")
