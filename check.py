#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken (replayed natively).
Exit 2: no verdict (tool failure, incomplete exploration, encoding mismatch)."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ECOLI_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CLANG = "/usr/bin/clang-18"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import specs

CFLAGS_BC = ("-c -emit-llvm -O1 -Xclang -disable-llvm-passes -g -D_GNU_SOURCE -D__NO_CTYPE -DSYMEX "
             "-std=gnu99 -fno-builtin -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks "
             "-fno-vectorize -fno-stack-protector -U_FORTIFY_SOURCE -w").split()
CFLAGS_NAT = "-c -O1 -g -D_GNU_SOURCE -std=gnu99 -fsanitize=address -fno-omit-frame-pointer -w".split()
OPT = "function(sroa,early-cse,simplifycfg)"


class Err(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise Err("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(HERE, "engine", f) for f in ("expr.h", "expr.cpp", "symex.cpp")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    exe = os.path.join(BUILD, "symex-" + h)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            objs = []
            procs = []
            for s in srcs[1:]:
                o = os.path.join(BUILD, os.path.basename(s) + ".%d.o" % os.getpid())
                objs.append(o)
                procs.append(subprocess.Popen(["/usr/bin/g++", "-O2", "-std=c++17", "-fno-rtti", "-w",
                             "-I/usr/lib/llvm-18/include", "-c", s, "-o", o]))
            if any(p.wait() for p in procs):
                raise Err("engine does not build")
            run(["/usr/bin/g++", *objs, "-o", exe + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
            for o in objs:
                os.unlink(o)
            os.rename(exe + ".tmp", exe)
    return exe


def includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(HERE, "model"), "-I" + os.path.join(HERE, "harness")]


def repo_sources():
    d = os.path.join(REPO, "src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.wd = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.natpool = cf.ThreadPoolExecutor(JOBS)
        self.procs = set()
        self.stopping = None
        self.known = load_known(pid)
        self.repo_bc = {}
        self.repo_nat = {}
        # same compiler as for the bitcode: the order of evaluation of arguments is then the same
        self.natcc = CLANG

    def stop(self, why):
        """end the running explorations early (their results are then incomplete)"""
        if not self.stopping:
            self.stopping = why
            for p in list(self.procs):
                try:
                    p.terminate()
                except OSError:
                    pass


    def env_flags(self, env):
        return ["-include", os.path.join(HERE, "harness", env)] if env else []

    def compile_repo(self, env, native):
        """compile every repository source for one environment header"""
        d = os.path.join(self.wd, ("nat" if native else "bc") + "-" + (env or "std").replace(".", "_"))
        os.makedirs(d, exist_ok=True)
        futs = []
        outs = []
        for s in repo_sources():
            o = os.path.join(d, os.path.basename(s)[:-2] + (".o" if native else ".bc"))
            outs.append(o)
            cmd = ([self.natcc, *CFLAGS_NAT] if native else [CLANG, *CFLAGS_BC])
            futs.append((self.natpool if native else self.pool).submit(run, cmd + includes() + self.env_flags(env) + [s, "-o", o]))
        for f in futs:
            f.result()
        if native:
            return outs
        lib = os.path.join(d, "repo.linked.bc")
        run(["/usr/bin/llvm-link-18", *outs, "-o", lib])
        return lib

    def unit_bc(self, u):
        env = u.get("env")
        lib = self.repo_bc[env]
        base = os.path.join(self.wd, u["name"])
        defs = ["-DH_UNIT"] + ["-D%s=%s" % kv for kv in u["defs"].items()]
        src = os.path.join(HERE, "harness", u["file"])
        run([CLANG, *CFLAGS_BC, *includes(), *self.env_flags(env), *defs, src, "-o", base + ".h.bc"])
        run(["/usr/bin/llvm-link-18", lib, self.libc_bc, base + ".h.bc", "-o", base + ".l.bc"])
        run(["/usr/bin/opt-18", "-passes=" + OPT, base + ".l.bc", "-o", base + ".bc"])
        os.unlink(base + ".l.bc")
        return base + ".bc"

    def unit_native(self, u):
        env = u.get("env")
        base = os.path.join(self.wd, u["name"])
        defs = ["-DH_UNIT"] + ["-D%s=%s" % kv for kv in u["defs"].items()]
        src = os.path.join(HERE, "harness", u["file"])
        fl = CFLAGS_NAT + includes() + self.env_flags(env) + defs + ["-DSYM_ENTRY=" + u["entry"]]
        run([self.natcc, *fl, src, "-o", base + ".h.o"])
        run([self.natcc, *CFLAGS_NAT, *includes(), "-DSYM_ENTRY=" + u["entry"],
             os.path.join(HERE, "model", "native.c"), "-o", base + ".n.o"])
        # env units bring their own stand-ins for libedit / libyaml / directory access
        libs = ["-ledit", "-lyaml"]
        run([self.natcc, "-fsanitize=address", base + ".h.o", base + ".n.o", *self.repo_nat[env],
             "-o", base + ".exe", *libs])
        return base + ".exe"


ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=1000000:malloc_fill_byte=205:"
        "allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:stack_trace_format='#%n %f %S'")


def native_run(exe, case, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL="C")
    wd = os.path.dirname(exe)
    try:
        r = subprocess.run([exe, case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, env=env, cwd=wd, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        return "hang", "no termination within %d s" % timeout, []
    obs = [l[4:] for l in r.stdout.splitlines() if l.startswith("OBS ")]
    m = re.search(r"^ASSERT-FAIL (.*)$", r.stdout, re.M)
    if r.returncode == 99 and m:
        return "assert", m.group(1), obs
    if r.returncode == 66:
        e = re.search(r"ERROR: AddressSanitizer: (.*)", r.stderr)
        fr = re.findall(r"#\d+ (\S+) ", r.stderr)
        return "crash", (e.group(1)[:120] if e else "AddressSanitizer error") + " in " + ",".join(fr[:4]), obs
    if r.returncode < 0:
        return "crash", "killed by signal %d: %s" % (-r.returncode, r.stderr[-300:]), obs
    if r.returncode in (77, 78):
        return "mismatch", r.stderr[-300:], obs
    if r.returncode != 0:
        return "crash", "exit %d: %s" % (r.returncode, r.stderr[-300:]), obs
    if not r.stdout.endswith("END\n"):
        return "stopped", "", obs
    return "ok", "", obs


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known" and k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit", help="only units whose name contains this")
    ap.add_argument("--set", action="append", default=[], help="NAME:KEY=VALUE changes a bound of a unit (experiments)")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        print(build_engine())
        return 0
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import specs
    sp = specs.PROPS[a.pid]
    units = specs.units(a.pid, a.tier)
    if a.unit:
        units = [u for u in units if a.unit in u["name"]]
    for x in a.set:
        n, kv = x.split(":")
        k, v = kv.split("=")
        for u in units:
            if u["name"] == n and k == "max_time":
                u[k] = int(v)
            elif u["name"] == n and k == "shards":
                u[k] = int(v)
            elif u["name"] == n:
                u["defs"][k] = v
    exe = build_engine()
    c = Ctx(a.pid, a.tier, seed)
    try:
        return decide(a, c, sp, units, exe, seed, t0)
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
        if not a.keep:
            shutil.rmtree(c.wd, ignore_errors=True)


def engine_run(c, exe, bc, u, shard):
    out = os.path.join(c.wd, "%s.%d.json" % (u["name"], shard))
    cmd = [exe, bc, "--entry", u["entry"], "--out", out, "--shard", str(shard), "--nshards", str(u["shards"]), "--seed", str(c.seed),
           "--samples", str(max(1, u["samples"] // u["shards"])), "--max-time", str(u["max_time"]),
           "--after-error", "1e9" if any(k["unit"] == u["entry"] for k in c.known) else "15",
           "--max-instr", str(u["max_instr"]), "--max-depth", str(u["max_depth"])]
    if c.stopping:
        return None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    c.procs.add(p)
    if c.stopping:
        p.terminate()
    o, _ = p.communicate()
    c.procs.discard(p)
    if p.returncode != 0 or not os.path.exists(out):
        if c.stopping:
            return None
        raise Err("engine failed on %s shard %d (%d): %s" % (u["name"], shard, p.returncode, o[-2000:]))
    return json.load(open(out))


def decide(a, c, sp, units, exe, seed, t0):
    import specs
    c.libc_bc = os.path.join(c.wd, "libc.bc")
    run([CLANG, *CFLAGS_BC, *includes(), os.path.join(HERE, "model", "libc.c"), "-o", c.libc_bc])
    envs = sorted({u.get("env") for u in units}, key=str)
    for e in envs:
        c.repo_bc[e] = c.compile_repo(e, False)
    bcf = {u["name"]: c.pool.submit(c.unit_bc, u) for u in units}
    bcs = {n: f.result() for n, f in bcf.items()}
    futs = []
    order = sorted(units, key=lambda u: -u.get("weight", 1))
    for u in order:
        for s in range(u["shards"]):
            futs.append((u, s, c.pool.submit(engine_run, c, exe, bcs[u["name"]], u, s)))
    for e in envs:
        c.repo_nat[e] = c.compile_repo(e, True)
    nat = {u["name"]: c.natpool.submit(c.unit_native, u) for u in units}
    nat = {n: f.result() for n, f in nat.items()}
    results = []
    errors = []
    known = c.known
    which = {f: (u, s) for u, s, f in futs}
    todo = set(which)
    limit = t0 + (780 if c.tier == "quick" else 6 * 3600)
    while todo:
        done, todo = cf.wait(todo, timeout=max(1, min(30, limit - time.time())), return_when=cf.FIRST_COMPLETED)
        for f in done:
            u, s = which[f]
            try:
                r = f.result()
            except Err as e:
                errors.append(str(e))
                continue
            if r is None:
                errors.append("%s shard %d not explored: %s" % (u["name"], s, c.stopping))
                continue
            results.append((u, s, r))
            for e in r["errors"]:
                if not c.stopping and not match_known(known, u, e):
                    e["confirmed"] = confirm(nat[u["name"]], e)
                    if e["confirmed"][0] is not None:
                        c.stop("a violation was found")
        if time.time() > limit:
            c.stop("time limit of the check")
    results.sort(key=lambda x: (x[0]["name"], x[1]))
    violations, unconfirmed, knownhits = [], [], []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(c.pid + "-"):
            os.unlink(os.path.join(rdir, f))
    # counterexamples: replay natively
    jobs = []
    for u, s, r in results:
        for e in r["errors"]:
            jobs.append((u, e, None if "confirmed" in e else c.pool.submit(confirm, nat[u["name"]], e)))
    for u, e, j in jobs:
        case, kind, what = j.result() if j else e["confirmed"]
        sig = "%s: %s (%s)" % (e["kind"], e["msg"], e["where"].split(" < ")[0])
        if case is None:
            unconfirmed.append((u["name"], sig, what))
            continue
        k = match_known(known, u, e)
        if k:
            knownhits.append(k)
            continue
        dst = os.path.join(rdir, "%s-%s-%d.case" % (c.pid, u["name"], len(violations)))
        txt = open(case).read()
        with open(dst, "w") as f:
            f.write("# property %s tier %s unit %s\n# native: %s: %s\n%s" % (c.pid, c.tier, u["name"], kind, what, txt))
        violations.append((u["name"], sig, dst, kind, what))
    # completed paths: validate the encoding against the native build
    validated, mism, samples = 0, [], []
    vj = []
    for u, s, r in results:
        for p in r["samples"]:
            vj.append((u, p, c.pool.submit(native_run, nat[u["name"]], p)))
    for u, p, j in vj:
        kind, what, obs = j.result()
        lines = open(p).read().splitlines()
        exp = [l[4:] for l in lines if l.startswith("obs ")]
        if kind == "ok" and obs == exp:
            validated += 1
            if len(samples) < 6 and (validated % 7 == 1 or len(samples) < 2):
                samples.append({"unit": u["name"], "inputs": [l[4:] for l in lines if l.startswith("sym ")][:40],
                                "observed": obs[:12]})
        elif kind in ("crash", "hang", "assert"):
            dst = os.path.join(rdir, "%s-%s-%d.case" % (c.pid, u["name"], len(violations)))
            with open(dst, "w") as f:
                f.write("# property %s tier %s unit %s\n# native: %s: %s\n%s" % (c.pid, c.tier, u["name"], kind, what, open(p).read()))
            violations.append((u["name"], "witness of an explored path fails natively", dst, kind, what))
        else:
            mism.append((u["name"], kind, what, "expected %s got %s" % (exp[:8], obs[:8])))
            if a.v:
                print("MISMATCH", u["name"], kind, what, exp, obs, p)
    byu = {}
    for u, s, r in results:
        byu.setdefault(u["name"], []).append(r["paths"])
    for n, l in byu.items():
        if a.v and len(l) > 1 and len(set(l)) == 1:
            print("UNSHARED work:", n, l)
    # vacuity and completeness
    problems = list(errors)
    per_unit = {}
    for u, s, r in results:
        d = per_unit.setdefault(u["name"], dict(paths=0, forks=0, instructions=0, asserts=0, assert_queries=0,
                    z3_calls=0, queries=0, solver_s=0.0, wall=0.0, complete=True, covers={}, unsat=0, sat=0,
                    bounds=u["bounds"], defs=u["defs"], shards=u["shards"]))
        for k in ("paths", "forks", "instructions", "asserts", "assert_queries"):
            d[k] += r[k]
        d["z3_calls"] += r["solver"]["z3_calls"]
        d["queries"] += r["solver"]["queries"]
        d["unsat"] += r["solver"]["unsat"]
        d["sat"] += r["solver"]["sat"]
        d["solver_s"] = round(d["solver_s"] + r["solver"]["secs"], 3)
        d["wall"] = round(d["wall"] + r["wall"], 2)
        for k, n in r["covers"].items():
            d["covers"][k] = d["covers"].get(k, 0) + n
        if not r["complete"]:
            d["complete"] = False
            problems.append("%s shard %d incomplete: %s" % (u["name"], s, r["why"]))
    for u in units:
        d = per_unit.get(u["name"])
        if d is None:
            continue
        for cv in u["covers"]:
            if not d["covers"].get(cv):
                problems.append("%s: reachability witness '%s' not reached (vacuous)" % (u["name"], cv))
    for m in mism:
        problems.append("encoding mismatch: %s %s %s %s" % m)
    for m in unconfirmed:
        problems.append("counterexample not reproduced natively: %s %s [%s]" % m)
    fns = {}
    for u, s, r in results:
        for n, cov, tot in r["functions"]:
            o = fns.get(n, (0, tot))
            fns[n] = (max(o[0], cov), tot)
    noise = re.compile(r"^(ec_test_init_|ec_log_register_|ec_init_init_|ec_node_register_)|_testcase$|^test_")
    fl = sorted("%s %d/%d" % (n, v[0], v[1]) for n, v in fns.items() if not noise.search(n))
    wall = time.time() - t0
    ev = {
        "property": c.pid, "tier": c.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(d["paths"] for d in per_unit.values()),
            "transitions": sum(d["forks"] for d in per_unit.values()),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path sampled"}],
            "explanation": "states = symbolic paths explored to their end (each covers all inputs satisfying its path "
                           "condition); transitions = solver-decided path splits; traces = solver models of completed "
                           "paths replayed on a native ASAN build with equal observations",
            "exhaustive": not problems,
            "units": per_unit,
            "instructions_interpreted": sum(d["instructions"] for d in per_unit.values()),
            "assertions_evaluated": sum(d["asserts"] for d in per_unit.values()),
            "solver_queries": sum(d["queries"] for d in per_unit.values()),
            "solver_calls_after_cache": sum(d["z3_calls"] for d in per_unit.values()),
            "solver_unsat": sum(d["unsat"] for d in per_unit.values()),
            "solver_sat": sum(d["sat"] for d in per_unit.values()),
            "solver_seconds": round(sum(d["solver_s"] for d in per_unit.values()), 2),
            "functions_encoded": fl,
            "known_findings_seen": len({k["id"] for k in knownhits}),
            "problems": problems,
        },
        "assumptions": sp.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", c.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, d in per_unit.items():
        print("%-28s paths %-7d forks %-7d asserts %-8d queries %-7d z3 %-6d solver %.1fs wall %.1fs%s" % (
            n, d["paths"], d["forks"], d["asserts"], d["queries"], d["z3_calls"], d["solver_s"], d["wall"],
            "" if d["complete"] else " INCOMPLETE"))
    print("%s %s: %d paths, %d native traces validated, %.1f s" % (c.pid, c.tier, ev["coverage"]["states"], validated, wall))
    for k in {k["id"]: k for k in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (c.pid, k["what"]))
    if violations:
        seen = set()
        for n, sig, dst, kind, what in violations:
            print("  %s: %s -> native %s: %s" % (n, sig, kind, what))
            if len(seen) < 5:
                print("VIOLATION property=%s replay=%s" % (c.pid, dst))
            seen.add(dst)
        for p in problems[:10]:
            print("  note:", p)
        return 1
    if problems:
        for p in problems:
            print("PROBLEM:", p)
        return 2
    return 0


def match_known(known, u, e):
    return next((k for k in known if k["unit"] == u["entry"] and
                 re.fullmatch(k["match"], e["kind"] + ": " + e["msg"] + " @ " + e["where"])), None)


def confirm(exe, e):
    last = ""
    for f in e["files"]:
        kind, what, obs = native_run(exe, f)
        if kind in ("assert", "crash", "hang"):
            return f, kind, what
        last = kind + " " + what
    return None, None, last


if __name__ == "__main__":
    try:
        rc = main()
    except Err as e:
        print("ERROR:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
