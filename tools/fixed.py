#!/usr/bin/env python3
# tools/fixed.py PID[,PID] WHAT: record /repo HEAD as the fix of a defect
import json, subprocess, sys
f = "/verif/known_findings.json"
try:
    L = json.load(open(f))
except Exception:
    L = []
c = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", sys.argv[3] if len(sys.argv) > 3 else "HEAD"], text=True).strip()
L.append({"status": "fixed", "property": sys.argv[1], "commit": c,
          "entry": "fixed: property=%s %s %s" % (sys.argv[1], c, sys.argv[2])})
json.dump(L, open(f, "w"), indent=1)
open(f, "a").write("\n")
