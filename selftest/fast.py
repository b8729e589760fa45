#!/usr/bin/env python3
"""As run.py, but every worker keeps what it parsed: only edited sources are parsed again (all of them when a header is edited).
usage: fast.py [-j workers] [substring-of-case-name | property ...]"""
import importlib, io, contextlib, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "selftest"), V]
sys.setrecursionlimit(20000)


def worker(k, cases, tmp):
    root = os.path.join(tmp, str(k), "repo")
    shutil.copytree(os.environ.get("ST_SRC", "/repo"), root, ignore=shutil.ignore_patterns("_build", ".git", "share"))
    os.environ.update(VERIF_REPO=root, VERIF_EVIDENCE=os.path.join(tmp, str(k), "ev"))
    os.environ.pop("VERIF_CACHE", None)
    from sa import ir, core, programs, registry
    base, proto = {}, os.path.join(tmp, str(k), "proto")
    os.makedirs(proto)
    pr = os.path.join(root, "aslam_cv_common/proto")
    subprocess.run(["protoc", "-I" + pr, "--cpp_out=" + proto, os.path.join(pr, "aslam/common/id.proto")], stderr=subprocess.DEVNULL)
    edited = [None]     # files of the case, None: baseline

    def one(f):
        o = os.path.join(tmp, str(k), "o.json")
        for opts in ([ir.flags() + ["-I" + proto], ir.flags(False) + ["-I" + proto]]):
            if os.path.exists(o):
                os.remove(o)
            r = subprocess.run([ir.tool(), "--root=" + root + "/", "--exclude=/_build/", "-o", o, f, "--"] + opts,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
            errs = [l for l in r.stdout.decode(errors="replace").splitlines() if "error:" in l]
            if not r.returncode and not errs and os.path.exists(o):
                return json.load(open(o))
        raise ir.AnalysisError("cannot parse %s: %s" % (f, errs[:3]))

    def extract(files):
        P = ir.Program()
        for f in files:
            e = edited[0]
            if e and (any(x.endswith((".h", ".hpp")) for x in e) or f in e):
                d = one(f)
            else:
                if f not in base:
                    base[f] = one(f)
                d = json.loads(base[f]) if isinstance(base[f], str) else base[f]
            P.add_tu(d, f)
        return P
    ir.extract = programs.extract = extract
    # what the checks parse, unedited
    for prop in sorted({c[1] for c in cases}):
        with contextlib.redirect_stdout(io.StringIO()) as out:
            need = set()
            real = programs._cached

            class Stop(Exception):
                pass

            def names(files):
                need.update(files)
                raise Stop()
            programs._cached = names
            try:
                registry.CHECKS[prop](core.Report(prop))
            except Stop:
                pass
            except Exception:
                pass
            programs._cached = real
        for f in sorted(need):
            if f not in base:
                base[f] = one(f)
    for name, prop, expect, edits in cases:
        old = {}
        res = None
        for f, a, b in edits:
            p = os.path.join(root, f)
            s = open(p).read()
            old.setdefault(p, s)
            if a not in s:
                res = "EDIT-FAILED %r" % a[:50]
                break
            open(p, "w").write(s.replace(a, b, 1))
        text = ""
        if res is None:
            o = os.path.join(tmp, str(k), "out")
            pid = os.fork()
            if pid == 0:
                fd = os.open(o, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                edited[0] = set(old)
                rc = 3
                try:
                    rc = core.main([prop])
                finally:
                    sys.stdout.flush()
                    os._exit(rc)
            rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            text = open(o, errors="replace").read().replace(root, "")
            got = {0: "quiet", 1: "fire"}.get(rc, "error%d" % rc)
            res = "ok" if got == expect else "WRONG: expected %s got %s" % (expect, got)
        for p, s in old.items():
            open(p, "w").write(s)
        if res != "ok":
            sys.stdout.write("%-50s %s %s\n    %s\n" % (name, prop, res, "\n    ".join(text.strip().splitlines()[-6:])))
            sys.stdout.flush()
        with open(os.path.join(tmp, "done"), "a") as fh:
            fh.write("%d\n" % (res != "ok"))


def main():
    args = sys.argv[1:]
    j = 6
    if "-j" in args:
        i = args.index("-j")
        j = int(args[i + 1])
        del args[i:i + 2]
    cases = []
    for f in sorted(os.listdir(os.path.join(V, "selftest"))):
        if f.startswith("cases_") and f.endswith(".py"):
            cases += importlib.import_module(f[:-3]).CASES
    if args:
        cases = [c for c in cases if any(p in c[0] or p == c[1] for p in args)]
    tmp = tempfile.mkdtemp(prefix="st-")
    # sources first, headers last
    cases.sort(key=lambda c: (c[1], any(f.endswith(".h") for f, a, b in c[3])))
    ps = []
    try:
        for k in range(min(j, len(cases))):
            pid = os.fork()
            if pid == 0:
                try:
                    worker(k, cases[k::j], tmp)
                finally:
                    os._exit(0)
            ps.append(pid)
        for p in ps:
            os.waitpid(p, 0)
        r = open(os.path.join(tmp, "done")).read().split() if os.path.exists(os.path.join(tmp, "done")) else []
        print("%d of %d cases run, %d wrong" % (len(r), len(cases), r.count("1")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
