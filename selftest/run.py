#!/usr/bin/env python3
"""Runs checks against edited scratch copies of /repo: edits that break a property must be reported, edits that keep the
behaviour must not. usage: run.py [substring-of-case-name ...]"""
import os, subprocess, sys, shutil, tempfile, concurrent.futures, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "selftest"))


def run(case):
    name, prop, expect, edits = case
    tmp = tempfile.mkdtemp(prefix="st-")
    try:
        dst = os.path.join(tmp, "repo")
        shutil.copytree(os.environ.get("ST_SRC", "/repo"), dst, ignore=shutil.ignore_patterns("_build", ".git", "share"))
        for f, old, new in edits:
            p = os.path.join(dst, f)
            s = open(p).read()
            if old not in s:
                return name, prop, "EDIT-FAILED %r" % old[:50], ""
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        vc = os.path.join(tmp, "verif")
        os.makedirs(vc)
        for d in ("sa", "stubs", "drivers", "tool", "build", "check.sh", "known-findings.txt", "setup.sh"):
            if os.path.exists(os.path.join(V, d)):
                os.symlink(os.path.join(V, d), os.path.join(vc, d))
        env = dict(os.environ, VERIF_REPO=dst, VERIF_EVIDENCE=os.path.join(tmp, "ev"))
        r = subprocess.run([os.path.join(V, "check.sh"), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        out = r.stdout.decode(errors="replace").replace(dst, "")
        got = {0: "quiet", 1: "fire"}.get(r.returncode, "error%d" % r.returncode)
        return name, prop, "ok" if got == expect else "WRONG: expected %s got %s" % (expect, got), out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    cases = []
    for f in sorted(os.listdir(os.path.join(V, "selftest"))):
        if f.startswith("cases_") and f.endswith(".py"):
            cases += importlib.import_module(f[:-3]).CASES
    pat = [a for a in sys.argv[1:] if not a.startswith("-")]
    if pat:
        cases = [c for c in cases if any(p in c[0] or p == c[1] for p in pat)]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
        for name, prop, res, out in ex.map(run, cases):
            if res != "ok" or "-v" in sys.argv:
                print("%-50s %s %s" % (name, prop, res))
                print("    " + "\n    ".join(out.strip().splitlines()[-6:]))
            bad += res != "ok"
    print("%d cases, %d wrong" % (len(cases), bad))
    sys.exit(1 if bad else 0)


main()
