#!/usr/bin/env python3
"""Creates and confirms planted changes. usage: mkseed.py <defs module in /verif/selftest> [id ...]
A definition: dict(id, property, edits=[(file, old, new)], demo=<C++ source>, srcs=[repo sources to compile in], needs, breaks,
timeout, reps). The demo is compiled against /repo's current headers and library; exit 0 means the property was observed to hold."""
import importlib, json, os, subprocess, shutil, sys, difflib, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "selftest"))
DEMO = """#!/bin/bash
# Builds demo.cc against /repo and runs it. Exit 0: the property held.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
INC=""
for d in /repo/aslam_cv_*/include; do INC="$INC -I$d"; done
g++ -std=c++14 %(flags)s -w -O1 -g -mssse3 %(def)s $INC -I/repo/_build/proto -I"$D" -isystem /usr/include/eigen3 \\
  -isystem /usr/include/opencv4 "$D/demo.cc" %(srcs)s -o "$T/demo" -L/repo/_build -Wl,-rpath,/repo/_build -laslam_cv_common \\
  %(libs)s -lglog -lgflags -lyaml-cpp -lopencv_core -lopencv_imgproc -lopencv_features2d -lopencv_calib3d -lprotobuf -lpthread || exit 3
cd "$T"
for i in $(seq %(reps)d); do
  timeout %(timeout)d "$T/demo" || { echo "demo failed with $?"; exit 1; }
done
exit 0
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(d):
    out = os.path.join(V, "seeded", d["id"])
    os.makedirs(out, exist_ok=True)
    patch = ""
    per = {}
    for f, old, new in d["edits"]:
        s = per.setdefault(f, [open(os.path.join("/repo", f)).read()] * 2)
        if s[1].count(old) < 1:
            raise SystemExit("%s: edit not found in %s: %r" % (d["id"], f, old[:60]))
        per[f] = [s[0], s[1].replace(old, new, 1)]
    for f, (a, b) in per.items():
        diff = list(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
        patch += "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in diff)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.cc"), "w").write(d["demo"])
    srcs = " ".join("/repo/" + s for s in d.get("srcs", []))
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % {
        "flags": d.get("flags", ""), "def": d.get("def", "-DENABLE_TIMING=FALSE -DENABLE_STATISTICS=FALSE"), "srcs": srcs, "libs": d.get("libs", ""),
        "reps": d.get("reps", 1), "timeout": d.get("timeout", 20)})
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    for n, t in d.get("files", {}).items():
        open(os.path.join(out, n), "w").write(t)


def confirm(d):
    """in /repo itself: demo passes, patched: builds, tests pass, demo fails, the check's verdict; then undone"""
    out = os.path.join(V, "seeded", d["id"])
    p = os.path.join(out, "patch.diff")
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "/repo not clean"
    r0 = sh(["bash", out + "/demo.sh"], cwd="/repo")
    res = {"demo_base": r0.returncode}
    if r0.returncode != 0:
        print(r0.stdout.decode(errors="replace")[-1500:])
    try:
        r = sh(["git", "-C", "/repo", "apply", p])
        if r.returncode:
            print(r.stdout.decode())
            return dict(res, apply=r.returncode)
        r = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        j = json.load(open("/tmp/seed-out.json"))
        res["passed"], res["failed"] = len(j["passed"]), len(j["failed"])
        if res["passed"] != 33:
            print(r.stdout.decode(errors="replace")[-1500:])
        r1 = sh(["bash", out + "/demo.sh"], cwd="/repo")
        res["demo_patched"] = r1.returncode
        if r1.returncode in (0, 3):
            print(r1.stdout.decode(errors="replace")[-600:])
        c = sh([os.path.join(V, "check.sh"), d["property"]], env=dict(os.environ, VERIF_EVIDENCE="/tmp/seed-ev"))
        res["check"] = c.returncode
        if "-v" in sys.argv:
            print(c.stdout.decode()[-900:])
    finally:
        sh("git -C /repo checkout -- .")
    return res


def main():
    mod = importlib.import_module(sys.argv[1])
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    for d in mod.SEEDS:
        if ids and d["id"] not in ids:
            continue
        make(d)
        r = confirm(d)
        ok = r.get("demo_base") == 0 and r.get("passed") == 33 and r.get("demo_patched") not in (0, 3, None)
        print(d["id"], d["property"], "OK" if ok else "NOT-CONFIRMED", "caught" if r.get("check") == 1 else "MISSED(%s)" % r.get("check"), r, flush=True)
    sh("bash /opt/vp/build.sh")


main()
