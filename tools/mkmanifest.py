#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from harness/specs.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
sys.dont_write_bytecode = True
import specs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = getattr(specs, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        b = "; ".join(u["bounds"] for u in specs.units(i, "quick"))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the LLVM bitcode of /repo's sources, Z3 deciding every branch and assertion; counterexamples replayed natively",
            level="model_checking",
            level_note=("Holds for all values within the bounds (quick: %s). Trusts the engine, Z3, clang's bitcode and the libc model; "
                        "sampled path models are cross-checked against a native ASAN build on every run." % b)[:1800]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: harnesses use the public API only. See DESIGN.md; known_findings.json lists repaired and recorded defects.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
