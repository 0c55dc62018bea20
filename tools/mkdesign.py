#!/usr/bin/env python3
"""DESIGN.md = design_head.md + table of the entries (from specs.py) + design_tail.md + planted bugs."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness")); sys.dont_write_bytecode = True
import specs
out = [open(H + "/tools/design_head.md").read()]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in specs.PROPS:
        continue
    out.append("**%s %s**\n" % (p["id"], p["title"]))
    th = {u["name"]: u for u in specs.units(p["id"], "thorough")}
    qu = {u["name"]: u for u in specs.units(p["id"], "quick")}
    for n in list(dict.fromkeys(list(qu) + list(th))):
        a, b = qu.get(n), th.get(n)
        d = lambda u: ", ".join("%s=%s" % kv for kv in u["defs"].items()) if u else "-"
        line = "- `%s:%s` %s" % ((a or b)["file"], n, (a or b)["bounds"])
        if a and b and d(a) != d(b):
            line += " (quick %s; thorough %s)" % (d(a), d(b))
        elif not a:
            line += " (thorough only)"
        out.append(line)
    out.append("")
out.append(open(H + "/tools/design_tail.md").read())
out.append("## 5. Repaired defects\n\nEach was found by the check of the property named, confirmed natively, and repaired by one `fix:` commit in /repo.\n")
for k in json.load(open(H + "/known_findings.json")):
    out.append("- " + k["entry"])
out.append("\n## 6. Planted bugs\n\n`tools/seeds.py try` applies each, builds, runs tests, demo and check. Result = verdict of the quick check.\n")
out.append("| id | needs | result |\n|---|---|---|")
res = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), res.get(d, "not run")))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
