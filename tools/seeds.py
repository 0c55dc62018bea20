#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and tries each change on /repo:
   seeds.py gen [ID..]    regenerate patch.diff, demo.c, demo.sh, meta.json
   seeds.py try [ID..]    apply to /repo, build, test, demo, run the property's check, undo
   (extra) --nocheck --notest --props P01,P02 (run other checks too)"""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SEEDS = {}
DEMO_SH = """#!/bin/bash
# exit 0: the property holds on the tree in the current directory (already built)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -fsanitize=address %s -I include -I src "$d/demo.c" -o "$t/demo" \\
	-L _build -lecoli %s -Wl,-rpath,"$PWD/_build" || exit 2
ulimit -c 0
cd "$t" && LC_ALL=C ASAN_OPTIONS=detect_leaks=1 timeout 60 ./demo
"""
DEMO_H = open(os.path.join(H, "tools", "seeds", "demo.h")).read()

def seed(id, prop, needs, breaks, edits, demo, cflags="", libs="", body=True):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, cflags=cflags, libs=libs)

def gen(i):
    s = SEEDS[i]
    d = os.path.join(H, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        diff = ""
        for f in sorted({e[0] for e in s["edits"]}):
            t = old = open(os.path.join(R, f)).read()
            for e in s["edits"]:
                if e[0] != f: continue
                n = t.count(e[1])
                if n != 1:
                    raise SystemExit("%s: %d matches of %r in %s" % (i, n, e[1], f))
                t = t.replace(e[1], e[2])
            for x, c in (("a", old), ("b", t)):
                os.makedirs(os.path.join(w, x, os.path.dirname(f)), exist_ok=True)
                open(os.path.join(w, x, f), "w").write(c)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=w, capture_output=True, text=True)
            diff += r.stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.c"), "w").write(DEMO_H + "\n" + s["demo"].strip("\n") + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (s["cflags"], s["libs"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def attempt(i, check=True, test=True, props=None):
    s = SEEDS[i]
    d = os.path.join(H, "seeded", i)
    assert not sh("git -C /repo status --porcelain").stdout
    out = []
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            return "NOAPPLY " + a.stderr
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "NOBUILD " + b.stdout[-600:]
        if test:
            o = "/tmp/seed-t.json"
            sh("bash /opt/vp/test.sh " + o)
            j = json.load(open(o)); base = json.load(open("/opt/vp/BASELINE.json"))
            st = base.get("stable") or base.get("passed") or base.get("stable_tests") or []
            miss = [x for x in st if x not in j["passed"]]
            out.append("tests:" + ("ok" if not miss and not j["failed"] else "FAIL %s %s" % (miss, j["failed"])))
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=200)
        out.append("demo:%d" % r.returncode + (" (BAD)" if r.returncode in (0, 2) else ""))
        if r.returncode == 2: out.append(r.stderr[-600:])
        if check:
            for p in (props or [s["prop"]]):
                c = sh("VERIF_TIER=quick python3 check.py %s --tier quick" % p, cwd=H)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s:%s" % (p, "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode))
    finally:
        sh("git -C /repo checkout -- .")
    return " ".join(out)

def main():
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    props = None
    for a in sys.argv:
        if a.startswith("--props="): props = a[8:].split(",")
    for f in sorted(glob.glob(os.path.join(H, "tools", "seeds", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
    ids = [i for i in SEEDS if not args or i in args or any(i.startswith(a) for a in args)]
    if sys.argv[1] == "gen" or sys.argv[1] == "try":
        for i in ids: gen(i)
    if sys.argv[1] == "try":
        for i in ids:
            r = attempt(i, "--nocheck" not in sys.argv, "--notest" not in sys.argv, props)
            print(i, r, flush=True)
            f = os.path.join(H, "tools", "seed_results.json")
            j = json.load(open(f)) if os.path.exists(f) else {}
            if "CAUGHT" in r or "MISSED" in r:
                j[i] = ("caught" if "CAUGHT" in r else "missed") + " by " + ",".join(props or [SEEDS[i]["prop"]])
                json.dump(dict(sorted(j.items())), open(f, "w"), indent=1)
        sh("bash /opt/vp/build.sh")
        for i in ids:
            r = sh("bash %s/seeded/%s/demo.sh" % (H, i), cwd="/repo")
            if r.returncode:
                print(i, "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-500:], r.stderr[-800:], flush=True)
    if sys.argv[1] == "list":
        for i in ids: print(i, SEEDS[i]["prop"], SEEDS[i]["breaks"])
main()
