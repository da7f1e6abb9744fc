#!/usr/bin/env python3
"""Builds /repo's current sources with a harness and runs one property's check.

  python3 run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--facet NAME] [--scale X] [--workers N]
  python3 run.py --setup      (builds everything once; a check never relies on it)

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not answer.
"""
import argparse, glob, hashlib, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
H = os.path.join(ROOT, "harness")

CXX = "g++"
COMMON = ("-g1 -O1 -fno-omit-frame-pointer -fPIC -pipe -w -DBOOST_ENABLE_ASSERT_HANDLER "
          "-DEIGEN_INITIALIZE_MATRICES_BY_NAN -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern "
          "-fsanitize=address -fsanitize-address-use-after-scope "
          "-include %s/prelude.hpp -I%s/gen -I%s/include -isystem /usr/include/eigen3" % (H, BUILD, REPO))
LINK = "-fsanitize=address"


def q(p):
    return p.replace(" ", "\\ ")


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def config_header():
    """config.h as the project's build generates it for a Debug build."""
    src = os.path.join(REPO, "include/state-observation/config.h.in")
    with open(src) as f:
        t = f.read()
    for cfg in ("Release", "Debug", "RelWithDebInfo", "MinSizeRel"):
        t = t.replace("$<CONFIG:%s>" % cfg, "1" if cfg == "Debug" else "0")
    write_if_changed(os.path.join(BUILD, "gen/state-observation/config.h"), t)


def repo_std():
    import re
    try:
        with open(os.path.join(REPO, "CMakeLists.txt")) as f:
            m = re.search(r"set\(CMAKE_CXX_STANDARD ([0-9]+)\)", f.read())
        return m.group(1) if m else "11"
    except OSError:
        return "11"


def ninja_file(ids):
    config_header()
    out = ["ninja_required_version = 1.5",
           "rule cc\n  command = %s %s $std -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (CXX, COMMON),
           "rule ar\n  command = rm -f $out && ar rcs $out $in",
           "rule ld\n  command = %s %s $in -o $out -lboost_timer -lboost_system" % (CXX, LINK)]
    objs = []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        o = os.path.join(BUILD, "lib", os.path.basename(s)[:-4] + ".o")
        out.append("build %s: cc %s\n  std = -std=c++%s" % (q(o), q(s), repo_std()))
        objs.append(o)
    lib = os.path.join(BUILD, "libso.a")
    out.append("build %s: ar %s" % (q(lib), " ".join(map(q, objs))))
    eng = []
    for n in ("pbt", "prelude"):
        o = os.path.join(BUILD, "h", n + ".o")
        out.append("build %s: cc %s\n  std = -std=c++14" % (q(o), q(os.path.join(H, n + ".cpp"))))
        eng.append(o)
    for i in ids:
        n = i.lower()
        o = os.path.join(BUILD, "h", n + ".o")
        out.append("build %s: cc %s\n  std = -std=c++14" % (q(o), q(os.path.join(H, n + ".cpp"))))
        out.append("build %s: ld %s %s %s" % (q(os.path.join(BUILD, n)), q(o), " ".join(map(q, eng)), q(lib)))
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(out) + "\n")


def all_ids():
    return [os.path.basename(f)[:-4].upper() for f in sorted(glob.glob(os.path.join(H, "c[0-9]*.cpp")))]


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    ninja_file(all_ids())
    r = subprocess.run(["ninja", "-C", BUILD, "-j", str(max(2, os.cpu_count() or 8))]
                       + [os.path.join(BUILD, t.lower()) for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("run.py: the build failed")
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale")
    ap.add_argument("--workers", default=str(max(2, min(8, os.cpu_count() or 8))))
    a = ap.parse_args()
    if a.setup:
        build(all_ids())
        print("setup done")
        return 0
    pid = a.id.upper()
    build([pid])
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
    ev = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence")))
    os.makedirs(ev, exist_ok=True)
    replays = os.path.join(BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        cmd = [os.path.join(BUILD, pid.lower()), "--prop", pid, "--seed", str(abs(seed)), "--tier", a.tier,
               "--out", os.path.join(ev, pid + ".json"), "--replays", replays, "--workers", a.workers,
               "--scratch", scratch, "--known", os.path.join(ROOT, "known-findings.txt")]
        for k in ("replay", "facet", "scale"):
            if getattr(a, k):
                cmd += ["--" + k, getattr(a, k)]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:disable_coredump=1"
        env["LC_ALL"] = "C"
        sys.stdout.flush()
        rc = subprocess.run(cmd, env=env).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
