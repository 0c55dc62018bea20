#!/usr/bin/env python3
"""Development aid: apply small mechanical changes to a scratch copy of /repo, one at a time, and
list those that none of the file's checks reports.   mutate.py LOG SEED COUNT [FILE..]"""
import os, random, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTDIR", "/tmp/mut")
MAP = dict(strvec="P11 P01 P15", node_sh_lex="P01 P08 P15", node_str="P02 P06 P14 P15", node_any="P02 P14", node_empty="P02 P06", node_none="P02 P06",
  node_space="P02", node_option="P02 P06 P13 P14 P15", node_seq="P02 P03 P06 P13 P14 P15", node_or="P02 P03 P06 P13 P14 P15", node_many="P02 P03 P06 P13 P14 P15",
  node_bypass="P02 P06 P13 P14 P15", node_int="P04 P14 P15", node_subset="P05 P06 P13 P14 P15", node_once="P05 P06 P13 P14 P15", complete="P07 P06 P08 P24 P15", htable="P09 P10 P15",
  dict="P09 P10 P14 P15", vec="P12 P11 P15", node="P13 P14 P20 P26 P15", config="P14 P26 P15 P25", node_expr="P16 P13 P15", node_cmd="P17 P13 P15 P14", node_cond="P18 P13 P15 P14", node_re="P19 P15 P14",
  node_re_lex="P19 P14 P13 P15", parse="P20 P03 P02 P26 P15", init="P21 P15", log="P21 P15", malloc="P21 P15", node_file="P22 P15", string="P23 P04", editline="P24 P15", yaml="P25 P15",
  node_dynamic="P27 P15", node_helper="P14 P25 P13 P15", murmurhash="P09", assert_="P26", interact="P24")
RULES = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
 (r"\breturn 0;", "return -1;"), (r"\breturn -1;", "return 0;"), (r"\+\+", "--"), (r" \+= ", " = "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\bif \((.*)\)$", r"if (!(\1))"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\b0\b", "1"), (r"\b1\b", "0"),
 (r"TAILQ_FOREACH\(", "TAILQ_FOREACH_REVERSE_X("), (r"INSERT_TAIL", "INSERT_HEAD_X"),
 (r"^\t+[\w>.*\[\]()-]+ = [^;]*;$", ";"), (r"^\t+\w+\([^;]*\);$", ";"), (r" \| ", " & "), (r" & ", " | "), (r"\bEC_COMP_FULL\b", "EC_COMP_PARTIAL"),
]
def sites(path):
    out = []
    fn = False
    inc = False
    for n, l in enumerate(open(path).read().split("\n")):
        if "LCOV_EXCL_START" in l: inc = True
        if "LCOV_EXCL_STOP" in l: inc = False
        if inc or re.match(r"\s*errno = ", l) or re.match(r"^\t+(\w+ = NULL;)", l): continue
        if l.startswith("{"): fn = True
        if l.startswith("}"): fn = False
        s = l.strip()
        if not fn or s.startswith(("/*", "*", "//", "#")) or "EC_LOG" in l or "assert" in l: continue
        for r, t in RULES:
            for m in re.finditer(r, l):
                if l.count('"', 0, m.start()) % 2: continue
                new = l[:m.start()] + m.expand(t) + l[m.end():]
                if "_X(" in new or "HEAD_X" in new: continue
                out.append((n, l, new))
    return out
def main():
    log, seed, count, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rnd = random.Random(seed)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)
    subprocess.run("CC=gcc CXX=g++ meson setup %s/_build %s --buildtype=debugoptimized --auto-features=enabled --wrap-mode=nodownload -Dwerror=false -Db_sanitize=address && ninja -C %s/_build" % (W, W, W), shell=True, check=True, capture_output=True)
    def survives():
        if subprocess.run(["ninja", "-C", W + "/_build"], capture_output=True).returncode: return False
        try: return subprocess.run([W + "/_build/test/ecoli-test"], cwd=W + "/_build", stdin=subprocess.DEVNULL, capture_output=True, timeout=60).returncode == 0
        except subprocess.TimeoutExpired: return False
    assert survives()
    allv = []
    for f in sorted(os.listdir(W + "/src")):
        k = f[6:-2]
        if not f.endswith(".c") or k not in MAP or (files and k not in files): continue
        for s in sites(W + "/src/" + f): allv.append((f, k) + s)
    rnd.shuffle(allv)
    done = 0
    env = dict(os.environ, ECOLI_REPO=W, VERIF_TIER="quick")
    for f, k, n, old, new in allv:
        if done >= count: break
        p = W + "/src/" + f
        src = open(p).read(); L = src.split("\n"); L[n] = new
        open(p, "w").write("\n".join(L))
        c = subprocess.run(["clang-18", "-fsyntax-only", "-w", "-D_GNU_SOURCE", "-I" + W + "/include", "-I" + W + "/src", p], capture_output=True)
        if c.returncode == 0 and survives():
            done += 1
            res = "MISSED"
            for pid in MAP[k].split():
                r = subprocess.run(["python3", H + "/check.py", pid, "--tier", "quick"], capture_output=True, text=True, env=env)
                if r.returncode == 1: res = "caught " + pid; break
                if r.returncode != 0: res = "rc%d %s" % (r.returncode, pid)
            with open(log, "a") as o: o.write("%s %s:%d  - %s  + %s\n" % (res, f, n + 1, old.strip(), new.strip()))
        open(p, "w").write(src)
    shutil.rmtree(W)
main()
