#!/usr/bin/env python3
"""Mutation run: how sensitive are the checks?  (development tool, used by no check)

  mutate.py OUT.jsonl FILE[:from-to] PROPS N SEED SLOTS

Draws N small edits of FILE (relative to /repo), applies each in a scratch worktree under /tmp, and runs the quick checks
of PROPS (comma separated) against it until one reports a violation. Survivors are to be read: equivalent, outside of
every property, or a miss.
"""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
out, target, props, n, seed, slots = sys.argv[1:7]
target, _, rng = target.partition(":")
props = props.split(",")
n, slots = int(n), int(slots)
random.seed(seed)
src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + target], text=True).split("\n")
lo, hi = (map(int, rng.split("-")) if rng else (1, len(src)))

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
         (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"&&", "||"), (r"\|\|", "&&"), (r"\.transpose\(\)", ""),
         (r"\.inverse\(\)", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"),
         (r" \* ", " / "), (r" / ", " * "), (r"\bhead\b", "tail"), (r"\btail\b", "head"), (r"!(?=[a-zA-Z(])", ""), (r"\+\+", "--"),
         (r"\.cross\(", ".cwiseProduct("), (r"\blinVel\b", "angVel"), (r"\bangVel\b", "linVel"), (r"\blinAcc\b", "linVel"),
         (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"\bk \+ 1\b", "k"), (r"\[k\]", "[k + 1]"), (r"\(k\)", "(k + 1)"), (r"-(?=[a-zA-Z(0-9])", ""),
         (r"\bposition\b", "linVel"), (r"\bnorm\(\)", "squaredNorm()"), (r"\bnoise_?\b", "0x0")]
NUM = re.compile(r"(?<![\w.])(\d+(?:\.\d+)?)(?![\w.])")


def mutants():
    r = []
    depth_comment = False
    for i in range(lo - 1, min(hi, len(src))):
        l = src[i]
        c = l.strip()
        if depth_comment:
            if "*/" in c: depth_comment = False
            continue
        if c.startswith("/*") and "*/" not in c:
            depth_comment = True
            continue
        if not c or c.startswith("//") or c.startswith("#") or c.startswith("*") or "ASSERT" in c or "assert(" in c: continue
        code = l.split("//")[0]
        for a, b in RULES:
            for m in re.finditer(a, code):
                r.append((i, code[:m.start()] + b + code[m.end():], "%s -> %s" % (a, b)))
        for m in NUM.finditer(code):
            v = m.group(1)
            for w in ((str(int(v) + 1), str(max(0, int(v) - 1))) if "." not in v else (repr(float(v) * 1.5 + (float(v) == 0)),)):
                if w != v: r.append((i, code[:m.start()] + w + code[m.end():], v + " -> " + w))
        if c.endswith(";") and not re.match(r"^(return|using|typedef|static|const|class|struct|namespace|break|[A-Za-z:]+ &? ?[A-Za-z_]+;)", c) and "(" in c or c.startswith("++") or c.startswith("--"):
            r.append((i, re.match(r"\s*", l).group(0) + ";", "deleted"))
    return r


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


ms = mutants()
random.shuffle(ms)
ms = ms[:n]
free = list(range(slots))
for s in free:
    w = "/tmp/mut/w%d" % s
    if os.path.exists(w): sh("git -C /repo worktree remove --force " + w)
    os.makedirs("/tmp/mut", exist_ok=True)
    print(sh("git -C /repo worktree add -f --detach %s HEAD" % w).stdout.strip()[-80:])


def one(m):
    i, line, what = m
    s = free.pop()
    w, b = "/tmp/mut/w%d" % s, "/tmp/mut/b%d" % s
    try:
        t = list(src)
        t[i] = line
        open(w + "/" + target, "w").write("\n".join(t))
        res = "SURVIVED"
        for p in props:
            env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=b, VERIF_EVIDENCE="/tmp/mut/e%d" % s, VERIF_NOSHRINK="1", VERIF_SEED="1")
            try:
                r = sh("timeout 300 python3 %s/run.py %s --workers %d" % (HERE, p, max(2, 8 // slots)), env=env)
            except Exception as e:
                res = "error"
                break
            if r.returncode == 1:
                f = [x for x in r.stdout.splitlines() if "failed:" in x or "failure" in x]
                res = "caught " + p + " " + (f[0][:160] if f else "")
                break
            if r.returncode != 0:
                res = "nocompile" if "build failed" in r.stdout else "rc%d %s" % (r.returncode, p)
                break
        rec = {"file": target, "line": i + 1, "what": what, "old": src[i].strip(), "new": line.strip(), "res": res}
        open(out, "a").write(json.dumps(rec) + "\n")
    finally:
        open(w + "/" + target, "w").write("\n".join(src))
        free.append(s)


with ThreadPoolExecutor(slots) as ex:
    list(ex.map(one, ms))
for s in range(slots):
    sh("git -C /repo worktree remove --force /tmp/mut/w%d" % s)
c = {}
for l in open(out):
    k = json.loads(l)["res"].split()[0]
    c[k] = c.get(k, 0) + 1
print(target, c)
