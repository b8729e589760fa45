"""Program representation loaded from the extractor's JSON (one file per translation unit)."""
import json, os, re, subprocess, sys, tempfile, shutil, concurrent.futures

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    pass


def short(name):
    """last path component of a qualified name, template arguments stripped"""
    if not name:
        return ""
    if "operator" in name:
        i = name.rfind("operator")
        return name[i:]
    depth, out = 0, []
    for ch in reversed(name):
        if ch == ">":
            depth += 1
        elif ch == "<":
            depth -= 1
        elif ch == ":" and depth == 0:
            break
        out.append(ch)
    s = "".join(reversed(out))
    return s.split("<")[0]


def strip_tmpl(name):
    depth, out = 0, []
    for ch in name:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out)


class Fn:
    __slots__ = ("key", "name", "file", "line", "end", "kind", "rec", "params", "nodes", "blocks", "entry",
                 "exit", "d", "_parents", "_writes", "_decls", "tu", "access", "_simple_ret", "bmap")

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d["key"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.end = d.get("end", d["line"])
        self.kind = d["kind"]
        self.rec = d.get("rec")
        self.params = d["params"]
        self.nodes = d["nodes"]
        self.blocks = d.get("blocks", [])
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.access = d.get("access")
        self._parents = None
        self._writes = None
        self._decls = None
        self._simple_ret = False
        self.bmap = {b["id"]: b for b in self.blocks}

    def __repr__(self):
        return "<Fn %s>" % self.name

    @property
    def short(self):
        return short(self.name)

    @property
    def qual(self):
        return strip_tmpl(self.name)

    def where(self, nid=None):
        l = self.line
        if nid is not None and 0 <= nid < len(self.nodes):
            l = self.nodes[nid].get("l", l)
        return "%s:%d" % (relp(self.file), l)

    @property
    def parents(self):
        if self._parents is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n["c"]:
                    if c >= 0:
                        p.setdefault(c, []).append(i)
            self._parents = p
        return self._parents

    @property
    def decls(self):
        """decl id -> (decl dict, DeclStmt nid)"""
        if self._decls is None:
            r = {}
            for i, n in enumerate(self.nodes):
                if n["k"] == "DeclStmt":
                    for d in n.get("decls", []):
                        # the CFG splits multi-variable statements; either form carries the same data
                        r[d["d"]] = (d, i)
            self._decls = r
        return self._decls

    def write_kind(self, nid):
        """How the lvalue `nid` is used by its parent: 'write', 'addr', 'refarg', 'mut' (non-const method),
        'read'."""
        n = self.nodes[nid]
        ps = self.parents.get(nid, [])
        res = "read"
        for p in ps:
            pn = self.nodes[p]
            k = pn["k"]
            pos = pn["c"].index(nid)
            if k in ("BinaryOperator", "CompoundAssignOperator") and pn.get("op", "").endswith("=") and \
                    pn["op"] not in ("==", "!=", "<=", ">=") and pos == 0:
                return "write"
            if k == "UnaryOperator" and pn["op"] in ("++", "--"):
                return "write"
            if k == "UnaryOperator" and pn["op"] == "&":
                res = "addr"
            if k == "CXXOperatorCallExpr":
                op = pn.get("op")
                # args start at index 1 ; pm for member operators excludes the object
                argi = pos - 1
                pm = pn.get("pm", "")
                if pn.get("rec"):
                    if argi == 0:
                        if op in ("=", "+=", "-=", "*=", "/=", "<<=", "|=", "&=", "^=", "++", "--"):
                            return "write"
                        if not pn.get("cm") and op not in ("*", "->", "[]", "()", "==", "!=", "<", "-", "+", ","):
                            return "write"
                        if not pn.get("cm") and op in ("[]", "()") and not self.only_followed(p, pn):
                            res = "mut"
                    elif 1 <= argi <= len(pm) and pm[argi - 1] in "r":
                        res = "refarg"
                elif 0 <= argi < len(pm) and pm[argi] == "r":
                    res = "refarg" if op not in ("<<", ) or argi != 0 else "refarg"
            if k == "MemberExpr" and pn.get("mk") == "method" and not pn.get("arrow"):
                if not pn.get("cm") and not pn.get("static"):
                    res = "mut"
            if k in ("CallExpr", "CXXMemberCallExpr"):
                pm = pn.get("pm", "")
                argi = pos - 1
                if 0 <= argi < len(pm) and pm[argi] in "rm":
                    if pn.get("fn", "") in ("std::move", "std::forward"):
                        if pn.get("fn") == "std::move":
                            res = "refarg"
                    elif pn.get("fn", "").startswith("google::"):
                        pass
                    else:
                        res = "refarg"
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                pm = pn.get("pm", "")
                if 0 <= pos < len(pm) and pm[pos] == "r":
                    res = "refarg"
            if k == "DeclStmt":
                for d in pn["decls"]:
                    if d.get("init") == nid and d.get("ref") and not d.get("const"):
                        res = "refbind"
        return res

    def only_followed(self, nid, n):
        """element of a sequence of pointers that is only followed, not changed"""
        if not n.get("rec", "").startswith(("std::vector", "std::array", "std::deque")):
            return False
        ps = self.parents.get(nid, [])
        return bool(ps) and all(self.nodes[p]["k"] == "CXXOperatorCallExpr" and self.nodes[p].get("op") in ("->", "*") and
                                self.nodes[p].get("cm") for p in ps)

    @property
    def writes(self):
        """local/param decl id -> number of writes after initialisation (incl. possible ones)"""
        if self._writes is None:
            w = {}
            for i, n in enumerate(self.nodes):
                if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "param", "static"):
                    k = self.write_kind(i)
                    if k != "read":
                        if k == "mut":
                            k2 = "mut"
                        w.setdefault(n["d"], []).append((k, i))
                if n["k"] == "LambdaExpr":
                    for c in n.get("caps", []):
                        if c.get("ref") and "d" in c:
                            w.setdefault(c["d"], []).append(("capture", i))
            self._writes = w
        return self._writes

    def simple_return(self):
        """nid of E if the body is exactly `return E;` (one reachable block), else None"""
        if self._simple_ret is False:
            self._simple_ret = None
            rets = [i for i, n in enumerate(self.nodes) if n["k"] == "ReturnStmt"]
            real = [b for b in self.blocks if b["el"]]
            if len(rets) == 1 and len(real) == 1 and self.kind in ("method", "function", "lambda") and \
                    self.nodes[rets[0]]["c"]:
                ok = True
                for n in self.nodes:
                    if n["k"] in ("DeclStmt", "CXXNewExpr", "CXXDeleteExpr", "CXXThrowExpr", "CompoundAssignOperator"):
                        ok = False
                    if n["k"] == "BinaryOperator" and n.get("op") == "=":
                        ok = False
                    if n["k"] == "UnaryOperator" and n.get("op") in ("++", "--"):
                        ok = False
                if ok:
                    self._simple_ret = self.nodes[rets[0]]["c"][0]
        return self._simple_ret


def relp(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f


class Program:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.templates = {}
        self.tus = []
        self.overriders = {}  # method key -> set of overriding keys

    def add_tu(self, data, src):
        i = len(self.tus)
        pre = "T%d:" % i
        self.tus.append(src)

        def fix(o):
            if isinstance(o, dict):
                fk = o.get("fk")
                if fk and fk.startswith("lambda@"):
                    o["fk"] = pre + fk
        for f in data["functions"]:
            if f["key"].startswith("lambda@"):
                f["key"] = pre + f["key"]
            for n in f["nodes"]:
                fix(n)
            for b in f.get("blocks", []):
                for e in b["el"]:
                    fix(e)
            if f["key"] not in self.fns:
                self.fns[f["key"]] = Fn(f, i)
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, set()).add(f["key"])
        for r in data["records"]:
            self.recs.setdefault(r["key"], r)
            for m in r["methods"]:
                for o in m.get("overrides", []):
                    self.overriders.setdefault(o, set()).add(m["key"])
        for e in data["enums"]:
            self.enums.setdefault(e["key"], e)
        for g in data["globals"]:
            self.globals.setdefault(g["q"], {}).update(g)
        for t in data["templates"]:
            self.templates.setdefault((t["file"], t["line"], t["name"]), t)

    # ---- queries
    def find(self, qual, **kw):
        """functions by qualified name with template args stripped"""
        out = [f for f in self.fns.values() if f.qual == qual]
        for k, v in kw.items():
            out = [f for f in out if f.d.get(k) == v]
        return out

    def methods_of(self, reckey):
        return [f for f in self.fns.values() if f.rec == reckey]

    def record(self, name):
        """record by qualified name (template args allowed)"""
        for k, r in self.recs.items():
            if k == name or r["name"] == name:
                return r
        for k, r in self.recs.items():
            if strip_tmpl(k) == name:
                return r
        return None

    def derived(self, base):
        """all record keys deriving (transitively) from base key"""
        out, ch = set(), True
        while ch:
            ch = False
            for k, r in self.recs.items():
                if k not in out and any(b == base or b in out for b in r["bases"]):
                    out.add(k)
                    ch = True
        return out

    def all_fields(self, reckey):
        """fields of the record and its (known) bases -> list of (record key, field)"""
        out = []
        r = self.recs.get(reckey)
        if not r:
            return out
        for b in r["bases"]:
            out += self.all_fields(b)
        out += [(reckey, f) for f in r["fields"]]
        return out


# ---------------------------------------------------------------------------------------------------- extraction
def flags(use_pch=True):
    inc = []
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d, "include")
        if d.startswith("aslam_cv_") and os.path.isdir(p):
            inc.append("-I" + p)
    pch = os.path.join(BUILD, "pre.pch")
    pre = ["-include-pch", pch] if use_pch and os.path.exists(pch) else \
        ["-include", "opencv2/imgproc/imgproc_c.h", "-include", "opencv2/highgui/highgui_c.h"]
    return ["clang++", "-std=gnu++14", "-mssse3", "-DENABLE_TIMING=FALSE", "-DENABLE_STATISTICS=FALSE",
            "-Wno-everything", "-ferror-limit=0"] + pre + inc + \
           ["-isystem", os.path.join(VERIF, "stubs"), "-isystem", "/usr/include/opencv4",
            "-isystem", "/usr/include/eigen3"]


def tool():
    exe = os.path.join(BUILD, "extract")
    src = os.path.join(VERIF, "tool", "extract.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(exe):
            raise AnalysisError("cannot build the extractor:\n" + r.stdout.decode(errors="replace")[-3000:])
    return exe


def package_sources(pkg, exclude=()):
    """every .cc below <pkg>/src, test and benchmark programs excluded"""
    out = []
    root = os.path.join(REPO, pkg, "src")
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if f.endswith((".cc", ".cpp")) and "benchmark" not in p and not any(x in p for x in exclude):
                out.append(p)
    return sorted(out)


def extract(files):
    """Parses the given translation units of the current working tree and returns the Program."""
    exe = tool()
    tmp = tempfile.mkdtemp(prefix="sa-extract-")
    try:
        proto = os.path.join(tmp, "proto")
        os.makedirs(proto)
        pr = os.path.join(REPO, "aslam_cv_common/proto")
        src = os.path.join(pr, "aslam/common/id.proto")
        if os.path.exists(src):
            subprocess.run(["protoc", "-I" + pr, "--cpp_out=" + proto, src], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        fl = flags() + ["-I" + proto]
        fl_plain = flags(False) + ["-I" + proto]

        def one(a):
            i, f = a
            o = os.path.join(tmp, "%d.json" % i)
            for opts in ([fl, fl_plain] if fl != fl_plain else [fl]):
                r = subprocess.run([exe, "--root=" + REPO + "/", "--exclude=/_build/", "-o", o, f, "--"] + opts,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
                log = r.stdout.decode(errors="replace")
                errs = [l for l in log.splitlines() if "error:" in l]
                if not r.returncode and not errs and os.path.exists(o):
                    break
            if r.returncode or errs or not os.path.exists(o):
                return f, None, "\n".join(errs[:5]) or log[-800:]
            with open(o) as fh:
                return f, json.load(fh), None

        P = Program()
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(one, enumerate(files)))
        for f, d, e in res:
            if d is None:
                raise AnalysisError("cannot parse %s:\n%s" % (f, e))
            P.add_tu(d, f)
        return P
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
