"""Channel (de)serialization: reads stay inside the input, writes inside the destination; both directions agree."""
import re
from ..ir import short, strip_tmpl, AnalysisError
from ..graph import *
from ..graph import deref, addr
from ..bounds import LFacts, ladd, ONE
from ..facts import Z
from .. import programs

NS = "aslam::internal::"
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4,
         "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8,
         "unsigned long long": 8}
CVSIZE = {0: 1, 1: 1, 2: 2, 3: 2, 4: 4, 5: 4, 6: 8}
SCALAR_DEPTH = {"unsigned char": 0, "signed char": 1, "unsigned short": 2, "short": 3, "int": 4, "float": 5, "double": 6}
COPY = {"memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy"}


def bare(t):
    return re.sub(r"\bconst\b", "", t).replace("&", "").replace("  ", " ").strip()


def pointee(t):
    t = bare(t)
    return bare(t[:-1]) if t.endswith("*") else None


def program():
    return programs.common("channels.cc")


def uncast(fr, nid):
    while True:
        n = fr.fn.nodes[nid]
        if n["k"] in CASTS and len(n["c"]) == 1:
            nid = n["c"][0]
            continue
        return nid


def raw_accesses(G):
    """(event, dst (frame, nid) or None, src, n-term or constant) of raw memory copies and character accesses"""
    out = []
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n = e.node
        k, c = n["k"], n["c"]
        if k == "CallExpr" and n.get("fn") in COPY:
            out.append((e, (e.frame, c[1]), (e.frame, c[2]), G.term(e.frame, c[3])))
        elif k == "CallExpr" and strip_tmpl(n.get("fn", "")) in ("std::copy", "std::copy_n") and len(c) >= 4:
            a = G.term(e.frame, c[1])
            b = G.term(e.frame, c[2])
            w = SIZES.get(pointee(e.frame.fn.nodes[c[1]].get("t", "")) or "", None)
            if w is None:
                continue
            cnt = ("bin", "-", b, a) if n["fn"].startswith("std::copy<") or short(strip_tmpl(n["fn"])) == "copy" else b
            out.append((e, (e.frame, c[3]), (e.frame, c[1]), ("bin", "*", ("int", w), cnt)))
        elif k == "ArraySubscriptExpr":
            w = SIZES.get(bare(n.get("t", "")))
            if w:
                out.append((e, None, ("idx", e.frame, c[0], c[1], w), ("int", w)))
        elif k == "UnaryOperator" and n["op"] == "*":
            w = SIZES.get(bare(n.get("t", "")))
            if w:
                out.append((e, None, (e.frame, c[0]), ("int", w)))
    return out


def base_of(G, fr, nid, depth=0):
    """the terms a pointer expression may be computed from (following initialisers and assignments of locals)"""
    out = set()
    if depth > 12:
        return out
    nid = uncast(fr, nid)
    n = fr.fn.nodes[nid]
    k, c = n["k"], n["c"]
    if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"] in ("+", "-", "+=", "-="):
        for x in c:
            if "*" in fr.fn.nodes[uncast(fr, x)].get("t", ""):
                out |= base_of(G, fr, x, depth + 1)
        return out
    if k == "UnaryOperator" and n["op"] in ("++", "--"):
        return base_of(G, fr, c[0], depth + 1)
    if k == "DeclRefExpr" and n.get("dk") in ("local", "param"):
        r = G._lookup(fr, n["d"])
        if r and r[0] == "bind":
            return base_of(G, r[1][0], r[1][1], depth + 1)
        if r and r[0] == "decl" and r[2].get("init") is not None:
            return base_of(G, r[1], r[2]["init"], depth + 1)
    out.add(G.term(fr, nid))
    return out


def ptr_lin(F, S, G, fr, nid):
    return F.lin(G.term(fr, nid), S)


def dst_capacity(F, S, G, fr, nid, N):
    """(ok, description): writing N bytes (linear form) at this destination stays inside the object"""
    nid = uncast(fr, nid)
    n = fr.fn.nodes[nid]
    t = G.term(fr, nid)
    if t[0] == "m" and t[1] == "data":
        w = SIZES.get(pointee(n.get("t", "")) or "")
        X = t[2]
        if w is None:
            return None, "unknown element type %s" % n.get("t")
        cap = F.prod(F.prod(F.lin(("m", "rows", X), S), F.lin(("m", "cols", X), S)), {ONE: w})
        if F.entails_lin(S, ladd(cap, N, -1)):
            return True, "matrix"
        cap = F.prod(F.lin(("size", X), S), {ONE: w})
        return F.entails_lin(S, ladd(cap, N, -1)), "%s.data()" % show(X)
    if t[0] == "fld" and t[2] == "data" and "char" in n.get("t", ""):
        X = t[1]
        cap = F.prod(F.lin(("m", "total", X), S), F.lin(("m", "elemSize", X), S))
        if F.entails_lin(S, ladd(cap, N, -1)):
            return True, "image"
        ty = None
        for f in S:
            if f[0] == "le" and f[3] == 0 and f[1] == ("m", "type", X) and ("le", f[2], f[1], 0) in S:
                ty = f[2]
        if ty is None:
            return False, "image %s whose type is not known here" % show(X)
        d = cv_type(F, S, ty)
        if d is None:
            return False, "image %s of type %s" % (show(X), show(ty))
        es, ch = d
        if not (F.entails_lin(S, ladd(ch, {ONE: -1})) and F.entails_lin(S, ladd({ONE: 512}, ch, -1))):
            return False, "image %s: the number of channels is not known to be in 1..CV_CN_MAX" % show(X)
        cap = F.prod(F.prod(F.lin(("fld", X, "rows"), S), F.lin(("fld", X, "cols"), S)), F.prod(ch, {ONE: es}))
        return F.entails_lin(S, ladd(cap, N, -1)), "image %s" % show(X)
    if t[0] == "addr":
        w = SIZES.get(pointee(n.get("t", "")) or "")
        return (w is not None and F.entails_lin(S, ladd({ONE: w}, N, -1))), show(t)
    w = SIZES.get(pointee(n.get("t", "")) or "")
    if t[0] == "param" and w:
        return F.entails_lin(S, ladd({ONE: w}, N, -1)), show(t)
    return None, show(t)


def cv_type(F, S, t):
    """(bytes per channel, channels linear form) of an OpenCV type expression"""
    if t[0] == "int":
        d = t[1] & 7
        return (CVSIZE[d], {ONE: (t[1] >> 3) + 1}) if d in CVSIZE else None
    parts = []

    def flat(x):
        if x[0] == "bin" and x[1] in ("+", "|"):
            flat(x[2])
            flat(x[3])
        else:
            parts.append(x)
    flat(t)
    depth, ch = None, None
    for p in parts:
        if p[0] == "bin" and p[1] == "<<" and p[3] == ("int", 3):
            ch = ladd(F.lin_nowrap(p[2]), {ONE: 1})
        else:
            q = p
            if q[0] == "bin" and q[1] == "&" and q[3] == ("int", 7):
                q = q[2]
            if q[0] == "int":
                depth = q[1] & 7
            else:
                v = F.const_of(S, q)
                if v is None:
                    return None
                depth = v & 7
    if depth not in CVSIZE or ch is None:
        return None
    return CVSIZE[depth], ch


def input_entries(prog):
    """functions that decode an input buffer given as (const char*, size_t) or std::string"""
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if not f.blocks or not f.qual.startswith(NS) or f.rec:
            continue
        ps = [p["t"] for p in f.params]
        if len(ps) >= 3 and pointee(ps[0]) == "char" and "const" in ps[0] and bare(ps[1]) == "unsigned long" and ps[2].endswith("*"):
            yield f, ("param", 0, f.params[0]["n"]), ("param", 1, f.params[1]["n"])
        elif len(ps) >= 2 and "basic_string" in ps[0] and ps[0].startswith("const") and ps[1].endswith("*"):
            s = ("param", 0, f.params[0]["n"])
            yield f, ("m", "data", s), ("size", s)


def label(f):
    return "%s(%s)" % (short(f.qual), ", ".join(p["t"].replace("std::basic_string<char>", "string") for p in f.params))


def graph(prog, f):
    return Graph(prog, f, depth=6, enum_int=True)


def p09(R):
    R.rule("read", "Every raw read from an input buffer of given size reads at an offset o >= 0 with o + n <= size, for every "
           "content of the buffer (linear must-facts from the checks passed).")
    R.rule("write", "Every raw copy out of the buffer stores at most as many bytes as the destination holds at that point: "
           "rows x cols x scalar size of the matrix, rows x cols x channels x depth size of the image (channels checked to "
           "be in OpenCV's range), or the size of the variable.")
    R.rule("count", "A container is resized to a number read from the buffer only after that number was checked against the "
           "size of the buffer.")
    prog = program()
    n = 0
    for f, root, size in input_entries(prog):
        if f.qual.endswith("Typed" + "FromBuffer") and f.d.get("access") == "private":
            continue
        G = graph(prog, f)
        F = LFacts(G)
        n += 1
        for e, dst, src, nt in raw_accesses(G):
            S = F.at(e.id)
            if S is None:
                continue
            if src[0] == "idx":
                fr, b, i, w = src[1:]
                if root not in base_of(G, fr, b):
                    continue
                L = ladd(F.lin(G.term(fr, b), S), F.prod(F.lin(G.term(fr, i), S), {ONE: w}))
            else:
                fr, b = src
                if root not in base_of(G, fr, b):
                    continue
                L = F.lin(G.term(fr, b), S)
            N = F.lin(nt, S)
            R.count("reads from input buffers")
            R.sample("%s: read of %s bytes at %s in %s" % (e.where(), show(nt)[:40], show(G.term(fr, b))[:40], label(f)))
            low = F.entails_lin(S, ladd(L, {root: 1}, -1))
            high = F.entails_lin(S, ladd(ladd(ladd({root: 1}, F.lin(size, S)), L, -1), N, -1))
            if not (low and high):
                R.violation("read", e.frame.fn.qual, "%s of %s" % (e.node.get("fn", "access"), name_of(G, fr, b)), e.where(),
                            "the read of %s bytes is not known to stay inside the %s bytes of the input (decoding in %s)" %
                            (show(nt)[:80], show(size), label(f)))
            if dst is not None:
                ok, what = dst_capacity(F, S, G, dst[0], dst[1], N)
                if ok is None:
                    R.note("destination not judged: %s at %s" % (what, e.where()))
                    continue
                R.count("stores of decoded data")
                if not ok:
                    R.violation("write", e.frame.fn.qual, "store to %s" % name_of(G, dst[0], dst[1]), e.where(),
                                "the copy of %s bytes is not known to fit in %s (decoding in %s)" %
                                (show(nt)[:80], what, label(f)))
        counts(R, G, F, f, size)
    R.count("decoding functions", n)
    R.atleast("reads from input buffers", 40)
    R.atleast("stores of decoded data", 30)


def name_of(G, fr, nid):
    n = fr.fn.nodes[uncast(fr, nid)]
    if n["k"] == "DeclRefExpr":
        return n["n"]
    return show(G.term(fr, nid))[:60]


def counts(R, G, F, f, size):
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt" or e.node["k"] != "CXXMemberCallExpr":
            continue
        me = e.frame.fn.nodes[e.node["c"][0]]
        if me["k"] != "MemberExpr" or me["n"] not in ("resize", "reserve", "assign") or not me.get("rec", "").startswith(
                ("std::vector", "std::basic_string")):
            continue
        if len(e.node["c"]) < 2:
            continue
        S = F.at(e.id)
        if S is None:
            continue
        t = G.term(e.frame, e.node["c"][1])
        R.count("containers sized from the input")
        if not count_bounded(F, S, t, size):
            R.violation("count", e.frame.fn.qual, "resize of %s" % show(G.obj_term(e.frame, e.node["c"][0])), e.where(),
                        "the number of elements %s is not known to be bounded by the size of the input" % show(t))


def count_bounded(F, S, t, size):
    if F.entails_lin(S, ladd(F.lin(size, S), F.lin(t, S), -1)):
        return True
    # bounded by a quotient of something bounded by the size
    for f in S:
        if f[0] == "le" and f[3] <= 0 and f[1] == t:
            q = f[2]
            if q[0] == "bin" and q[1] == "/" and F.entails_lin(S, ladd(F.lin(q[3], S), {ONE: -1})) and \
                    F.entails_lin(S, ladd(F.lin(size, S), F.lin(q[2], S), -1)):
                return True
    return False



# ---------------------------------------------------------------------------------------------------- P10
END = ("ghost", "end")
ALLOC = ("ghost", "alloc")


def eq_facts(F, atom, L):
    d = ladd({atom: 1}, L, -1)
    return {F.fact(d), F.fact(ladd({}, d, -1))}


class Side:
    """one (de)serializing function: its raw copies in order, and what they carry"""
    def __init__(self, R, prog, f, writer):
        self.f, self.writer = f, writer
        self.G = G = graph(prog, f)
        self.kind_of_value()
        a = f.params
        if writer:
            self.string = "basic_string" in a[1]["t"]
            if self.string:
                s = deref(("param", 1, a[1]["n"]))
                self.root, self.size = ("m", "data", s), ("size", s)
            else:
                self.root, self.size = deref(("param", 1, a[1]["n"])), deref(("param", 2, a[2]["n"]))
        else:
            self.string = "basic_string" in a[0]["t"]
            s = ("param", 0, a[0]["n"])
            self.root, self.size = (("m", "data", s), ("size", s)) if self.string else (s, ("param", 1, a[1]["n"]))
        self.copies = {}
        self.allocs = {}
        probe = LFacts(G, run=False)
        probe.IN = {}
        for e in G.ev:
            if e.id not in G.live or e.kind != "stmt":
                continue
            n = e.node
            if n["k"] == "CallExpr" and n.get("fn") in COPY:
                buf, obj = (n["c"][1], n["c"][2]) if writer else (n["c"][2], n["c"][1])
                if any(set(probe.lin(b)) == {self.root} for b in base_of(G, e.frame, buf)):
                    self.copies[e.id] = (e, (e.frame, buf), (e.frame, obj), G.term(e.frame, n["c"][3]))
            if writer and n["k"] in ("BinaryOperator",) and n["op"] == "=" and not self.string and \
                    G.term(e.frame, n["c"][0]) == self.root:
                v = e.frame.fn.nodes[uncast(e.frame, n["c"][1])]
                if v["k"] == "CXXNewExpr" and v["c"]:
                    self.allocs[e.id] = (e, G.term(e.frame, v["c"][0]))
            if writer and self.string and n["k"] == "CXXMemberCallExpr" and n["c"]:
                me = e.frame.fn.nodes[n["c"][0]]
                if me["k"] == "MemberExpr" and me["n"] == "resize" and G.obj_term(e.frame, n["c"][0]) == self.size[1]:
                    self.allocs[e.id] = (e, G.term(e.frame, n["c"][1]))
        self.F = LFacts(G, seed=self.seed, watch=({self.size: 1, END: -1}, {self.size: 1, ALLOC: -1}, {ALLOC: 1, END: -1}))

    def kind_of_value(self):
        t = bare(self.f.params[0 if self.f.short.startswith("serialize") else
                                (1 if "basic_string" in self.f.params[0]["t"] else 2)]["t"]).rstrip("* ")
        self.vtype = t
        m = re.match(r"(std::vector<)?Eigen::Matrix<([\w ]+), (-?\d+), (-?\d+)", t)
        if m:
            self.kind = "vector" if m.group(1) else "matrix"
            self.scalar, self.nrows, self.ncols = m.group(2), int(m.group(3)), int(m.group(4))
        elif t == "cv::Mat":
            self.kind = "image"
        else:
            self.kind, self.scalar = "scalar", t
        i = 0 if self.writer else (1 if "basic_string" in self.f.params[0]["t"] else 2)
        p = ("param", i, self.f.params[i]["n"])
        self.value = p if self.writer else deref(p)

    def seed(self, F, e, S):
        if e.kind == "entry":
            return S | eq_facts(F, END, {})
        if e.id in self.copies:
            _, buf, _, nt = self.copies[e.id]
            L = ladd(ladd(F.lin(self.G.term(*buf), S), F.lin(nt, S)), F.lin(self.root, S), -1)
            if END in L:
                return F.kill(S, END)
            return F.kill(S, END) | eq_facts(F, END, L)
        if e.id in self.allocs:
            return F.kill(S, ALLOC) | eq_facts(F, ALLOC, F.lin(self.allocs[e.id][1], S))
        return S

    def elements(self, S):
        """terms of the value (or of its elements) at a point"""
        if self.kind in ("matrix", "image"):
            return [self.value]
        out = set()
        for x in self.elem_terms():
            out.add(x)
        return sorted(out, key=repr)

    def elem_terms(self):
        m = getattr(self, "_et", None)
        if m is None:
            m = self._et = set()
            for e in self.G.ev:
                if e.id in self.G.live and e.kind == "stmt":
                    for x in subterms(self.G.term(e.frame, e.nid)):
                        if x[0] in ("idx", "elem") and x[1] == self.value:
                            m.add(x)
        return m

    def extent(self, S, E):
        """bytes of the payload of element E, or None"""
        F = self.F
        if self.kind == "image":
            d = F.const_of(S, ("m", "depth", E))
            if self.writer:
                ch = F.lin(("m", "channels", E), S)
            else:
                h = self.header(S)
                if h is None:
                    return None
                d = F.const_of(S, ("fld", h, "depth"))
                ch = F.lin(("fld", h, "channels"), S)
            if d not in CVSIZE:
                return None
            return F.prod(F.prod(F.lin(("fld", E, "rows"), S), F.lin(("fld", E, "cols"), S)), F.prod(ch, {ONE: CVSIZE[d]}))
        return F.prod(F.prod(F.lin(("m", "rows", E), S), F.lin(("m", "cols", E), S)), {ONE: SIZES.get(self.scalar, 0)})

    def header(self, S):
        hs = {self.G.term(*obj)[1][1] for _, _, obj, _ in self.copies.values()
              if self.G.term(*obj)[0] == "addr" and self.G.term(*obj)[1][0] == "fld"}
        return next(iter(hs)) if len(hs) == 1 else None

    def item(self, evid):
        """what the copy transports: ('field', name) / ('count',) / ('value',) / ('payload', element)"""
        e, buf, obj, nt = self.copies[evid]
        ts = base_of(self.G, *obj)
        t = next(iter(ts)) if len(ts) == 1 else self.G.term(*obj)
        if t[0] == "addr" and t[1][0] == "fld":
            return ("field", t[1][2])
        if t[0] == "m" and t[1] == "data" or t[0] == "fld" and t[2] == "data":
            return ("payload", t[2] if t[0] == "m" else t[1])
        if self.kind == "scalar" and t in (addr(self.value), ("param", 2, self.f.params[-1]["n"])):
            return ("value",)
        if t[0] == "addr" and t[1][0] == "var":
            return ("count", t[1])
        return ("unknown", t)


def rank(G):
    return rpo_index(G)


def p10(R):
    R.rule("order", "The serializer and the deserializer of one type, for strings and for buffers, transport the same items "
           "(count, header fields, data) in the same order and with the same widths, each item directly after the previous one.")
    R.rule("header", "What is written as header is the number of rows, of columns, of channels and the depth of the value that "
           "follows; the deserializer gives the value exactly the shape it read, after checking depth and channels.")
    R.rule("data", "The data copied is that of the value itself, with exactly rows x cols x channels x scalar size bytes.")
    R.rule("complete", "A function that reports success has copied the data of the value, or of every element, and the size it "
           "reports or accepts is exactly what was written or read.")
    R.rule("alloc", "The memory allocated for the output is the sum of what is written into it.")
    R.rule("depth", "The depth stored in a header identifies the scalar type of the value.")
    R.rule("text", "A scalar written as text is written with all significant digits of its type and read back by a function "
           "whose range covers the type.")
    prog = program()
    sides = {}
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if not f.blocks or not f.qual.startswith(NS) or f.rec or "basic_string<char>" in f.params[0]["t"] and \
                f.short.startswith("serialize"):
            continue
        w = f.short in ("serializeToBuffer", "serializeToString")
        r = f.short in ("deSerializeFromBuffer", "deSerializeFromString")
        if not (w or r) or w and pointee(f.params[0]["t"]) == "char":
            continue
        s = Side(R, prog, f, w)
        if s.kind == "scalar" and s.string:
            text(R, prog, s)
            continue
        sides.setdefault(s.vtype, {})[f.short] = s
    for t, d in sorted(sides.items()):
        names = ["serializeToBuffer", "deSerializeFromBuffer"] + (["serializeToString", "deSerializeFromString"]
                                                                  if d and next(iter(d.values())).kind != "scalar" else [])
        for x in names:
            R.need(x in d, "%s for %s" % (x, t))
        lay = {}
        for nm, s in sorted(d.items()):
            lay[nm] = judge(R, s)
        ref = lay["serializeToBuffer"]
        for nm, l in sorted(lay.items()):
            R.count("layouts compared")
            if l != ref:
                R.violation("order", d[nm].f.qual, "layout", "%s:%d" % (d[nm].G.ev[0].where().split(":")[0], d[nm].f.line),
                            "for %s it transports %s, but serializeToBuffer writes %s" % (t, fmt(l), fmt(ref)))
    R.atleast("layouts compared", 50)


def fmt(l):
    return ", ".join("%s:%s" % (a, w) for a, w in l)


def judge(R, s):
    G, F, f = s.G, s.F, s.f
    rk = rank(G)
    lay = []
    order = sorted((i for i in s.copies if F.at(i) is not None), key=lambda i: rk[i])
    what = "write" if s.writer else "read"

    def bad(rule, e, con, msg):
        R.violation(rule, e.frame.fn.qual, con, e.where(), "%s (in %s)" % (msg, label(f)))
    seen = []
    for i in order:
        e, buf, obj, nt = s.copies[i]
        S = F.at(i)
        it = s.item(i)
        off = ladd(F.lin(G.term(*buf), S), F.lin(s.root, S), -1)
        N = F.lin(nt, S)
        w = next((x for x in (1, 2, 4, 8) if F.eq0(S, ladd(N, {ONE: -x}))), None)
        R.count("copies judged")
        if not F.eq0(S, ladd(off, {END: 1}, -1)):
            bad("order", e, "%s of %s" % (what, it[0] if it[0] != "field" else it[1]),
                "this %s does not start where the previous one ended" % what)
        if it[0] == "field":
            ent = ("field " + it[1], w)
            if w != 4:
                bad("order", e, "width of " + it[1], "the header field is transported with %s bytes" % show(nt))
            if s.writer:
                header_value(R, s, S, e, it[1], bad)
        elif it[0] == "payload":
            ent = ("data", "all")
            if s.kind == "vector" and it[1] not in s.elem_terms() or s.kind != "vector" and it[1] != s.value:
                bad("data", e, "data", "the data of %s is transported instead of that of the value" % show(it[1]))
            else:
                payload(R, s, S, e, it[1], N, bad)
        elif it[0] == "count":
            ent = ("count", w)
            if s.writer:
                if not F.entails_eq(S, it[1], ("size", s.value)):
                    bad("header", e, "count", "the number written is not the number of elements")
        elif it[0] == "value":
            ent = ("value", w)
            if w != SIZES.get(s.scalar):
                bad("data", e, "value", "%s bytes of a value of %s bytes are transported" % (show(nt), SIZES.get(s.scalar)))
        else:
            raise AnalysisError("unrecognised copy at %s: %s" % (e.where(), show(it[1])))
        if ent not in seen:
            seen.append(ent)
    finish(R, s, bad)
    return seen


def rows_cols(s, E):
    return (("fld", E, "rows"), ("fld", E, "cols")) if s.kind == "image" else (("m", "rows", E), ("m", "cols", E))


def header_value(R, s, S, e, name, bad):
    """the header field written describes the element written next"""
    F = s.F
    t = s.G.term(*s.copies[e.id][2])[1]
    ok = False
    # the data that follows this header
    nxt = reachable(s.G, e.id, stop=lambda x: x.id in s.copies and x.id != e.id and s.item(x.id) == ("field", name))
    els = {s.item(i)[1] for i in s.copies if i in nxt and F.at(i) is not None and s.item(i)[0] == "payload"}
    for E in sorted(els, key=repr):
        r, c = rows_cols(s, E)
        if name == "rows":
            ok |= F.entails_eq(S, t, r)
        elif name == "cols":
            ok |= F.entails_eq(S, t, c)
        elif name == "channels":
            ok |= F.entails_eq(S, t, ("m", "channels", E)) if s.kind == "image" else F.entails_eq(S, t, ("int", 1))
        elif name == "depth":
            d = F.const_of(S, ("m", "depth", E)) if s.kind == "image" else SCALAR_DEPTH.get(s.scalar)
            ok |= d is not None and F.entails_eq(S, t, ("int", d))
        else:
            return
    R.count("header fields judged")
    if not ok:
        bad("depth" if name == "depth" else "header", e, name + (" of " + s.kind),
            "the header field '%s' is not known to be that of the value" % name)


def payload(R, s, S, e, E, N, bad):
    F = s.F
    x = s.extent(S, E)
    R.count("payloads judged")
    if x is None or not F.eq0(S, ladd(N, x, -1)):
        bad("data", e, "size of data of " + s.kind, "the number of bytes copied is not known to be that of the value's data")
    if s.writer:
        if s.kind == "image" and not F.entails_true(S, ("m", "isContinuous", E)):
            bad("data", e, "continuity of image", "the data of an image that is not stored contiguously is copied as one block")
        return
    h = s.header(S)
    if h is None:
        bad("header", e, "header of " + s.kind, "no single header precedes the data")
        return
    r, c = rows_cols(s, E)
    hr, hc, hd, hch = [("fld", h, y) for y in ("rows", "cols", "depth", "channels")]
    dyn = s.kind == "image"
    nr, nc = (-1, -1) if dyn else (s.nrows, s.ncols)
    for a, b, n, nm in ((hr, r, nr, "rows"), (hc, c, nc, "columns")):
        if not (F.entails_eq(S, a, b) if n < 0 else F.entails_eq(S, a, ("int", n))):
            bad("header", e, nm + " of " + s.kind, "the number of %s of the value is not known to be that of the header" % nm)
    if s.kind == "image":
        d = F.const_of(S, hd)
        ty = None
        for f in S:
            if f[0] == "le" and f[3] == 0 and f[1] == ("m", "type", E) and ("le", f[2], f[1], 0) in S:
                ty = cv_type_depth(F, S, f[2])
        if d is None or ty is None or ty[0] != d or not F.eq0(S, ladd(ty[1], F.lin(hch, S), -1)):
            bad("depth", e, "type of image", "the type given to the image is not that of the header's depth and channels")
    else:
        if not F.entails_eq(S, hd, ("int", SCALAR_DEPTH.get(s.scalar, -1))):
            bad("depth", e, "depth of " + s.kind, "data is accepted although the header's depth was not checked to be that of %s"
                % s.scalar)
        if not F.entails_eq(S, hch, ("int", 1)):
            bad("header", e, "channels of " + s.kind, "data is accepted although the header may have more than one channel")


def cv_type_depth(F, S, t):
    parts = []

    def flat(x):
        if x[0] == "bin" and x[1] in ("+", "|"):
            flat(x[2])
            flat(x[3])
        else:
            parts.append(x)
    flat(t)
    depth, ch = None, None
    for p in parts:
        if p[0] == "bin" and p[1] == "<<" and p[3] == ("int", 3):
            ch = ladd(F.lin_nowrap(p[2]), {ONE: 1})
        else:
            q = p[2] if p[0] == "bin" and p[1] == "&" and p[3] == ("int", 7) else p
            depth = q[1] & 7 if q[0] == "int" else F.const_of(S, q)
    return (depth, ch) if depth is not None and ch is not None else None


def finish(R, s, bad):
    """obligations at the points where success is reported"""
    G, F, f = s.G, s.F, s.f
    done = [i for i in s.copies if s.item(i)[0] in ("payload", "value")]
    from ..conj import returns, may_return
    for e in returns(G):
        S = F.at(e.id)
        if S is None or not may_return(F, S, e, True):
            continue
        R.count("success exits judged")
        if s.kind == "vector":
            # every loop over the elements has run to its end
            for E in s.elem_terms():
                if E[0] == "idx" and E[2][0] == "var":
                    from ..conj import starts_at_zero, steps_by_one
                    if not (starts_at_zero(G, E[2]) and steps_by_one(G, E[2]) and
                            F.entails_ge(S, E[2], ("size", s.value))):
                        bad("complete", e, "elements by %s" % E[2][3], "success may be reported before every element was handled")
                elif E[0] == "elem":
                    if not any(x[0] == "F" and x[1][0] == "iter" and x[1][1] == s.value for x in S):
                        bad("complete", e, "elements", "success may be reported before every element was handled")
            if not s.elem_terms():
                bad("complete", e, "elements", "the elements are not handled")
            for what in sorted({s.item(i)[:2] if s.item(i)[0] == "field" else s.item(i)[:1] for i in s.copies if in_cycle(G, i)}):
                skip = skipping_cycle(s, what)
                if skip is not None:
                    bad("complete", skip, "elements without %s" % what[-1],
                        "an element can be skipped: the loop over the elements may pass without transporting its %s" % what[-1])
            w = must_pass(G, G.entry, [e.id], lambda x: x.id in s.copies and s.item(x.id)[0] == "count")
            if w is not None:
                bad("complete", e, "count", "success is reported without the number of elements")
        else:
            r = F.escape(G.entry, [e.id], lambda x: x.id in done)
            if r is not None:
                bad("complete", e, "data", "success is reported on a path on which the data was not transported")
        if not s.writer:
            if not F.eq0(S, ladd(F.lin(s.size, S), {END: 1}, -1)):
                bad("complete", e, "size", "input with missing or trailing bytes is accepted")
        elif s.allocs:
            if not F.eq0(S, ladd(F.lin(s.size, S), {ALLOC: 1}, -1)):
                bad("alloc", e, "reported size", "the size reported is not the size allocated")
            if s.kind != "vector" and not F.eq0(S, {ALLOC: 1, END: -1}):
                bad("alloc", e, "allocated size", "the size allocated is not the number of bytes written")
        else:
            bad("alloc", e, "allocation", "no memory was allocated for the output")
    if s.writer and s.kind == "vector":
        sums(R, s, bad)


def skipping_cycle(s, what):
    """an event of the loop that transports `what` which lies on a cycle that does not"""
    G, F = s.G, s.F
    own = {i for i in s.copies if s.item(i)[:len(what)] == what and in_cycle(G, i) and F.at(i) is not None}
    for p in own:
        loop = {i for i in reachable(G, p) if F.at(i) is not None and p in reachable(G, i)} - own
        for i in sorted(loop):
            r = reachable(G, i, stop=lambda x: x.id not in loop)
            if i in r and i in loop:
                return G.ev[i]
    return None


def in_cycle(G, i):
    m = getattr(G, "_cyc", None)
    if m is None:
        m = G._cyc = {}
    if i not in m:
        m[i] = i in reachable(G, i)
    return m[i]


def sums(R, s, bad):
    """the accumulated size: per element what is written per element, initially what is written before the elements"""
    G, F = s.G, s.F
    fixed = 0
    head = 0
    for i in s.copies:
        S = F.at(i)
        if S is None:
            continue
        w = next((x for x in (1, 2, 4, 8) if F.eq0(S, ladd(F.lin(s.copies[i][3], S), {ONE: -x}))), None)
        if s.item(i)[0] == "payload":
            continue
        if in_cycle(G, i):
            head += w or 0
        else:
            fixed += w or 0
    for i, (e, t) in s.allocs.items():
        if t[0] == "var" or t == s.size or t[0] == "deref":
            acc = t
        else:
            bad("alloc", e, "allocated size", "the size allocated is not accumulated over the elements")
            continue
        inc = []
        for x in G.ev:
            if x.id not in G.live or x.kind != "stmt" or F.at(x.id) is None:
                continue
            n = x.node
            S = F.at(x.id)
            if n["k"] in ("CompoundAssignOperator", "BinaryOperator") and n["op"] in ("+=", "=") and \
                    G.term(x.frame, n["c"][0]) == acc:
                v = F.lin(G.term(x.frame, n["c"][1]), S)
                if n["op"] == "=":
                    v = ladd(v, {acc: 1}, -1) if acc in v else v
                inc.append((x, v, S))
            elif n["k"] == "DeclStmt":
                for d in n["decls"]:
                    if ("var", x.frame.id, d["d"], d["n"]) == acc and d.get("init") is not None:
                        inc.append((x, F.lin(G.term(x.frame, d["init"]), S), S))
        base = [(x, v, S) for x, v, S in inc if not in_cycle(G, x.id)]
        loop = [(x, v, S) for x, v, S in inc if in_cycle(G, x.id)]
        R.count("accumulated sizes judged")
        tot = {}
        for x, v, S in base:
            tot = ladd(tot, v)
        if tot != {ONE: fixed}:
            bad("alloc", base[0][0] if base else e, "initial size",
                "the size reserved before the elements is not the %d bytes written before them" % fixed)
        ok = False
        for E in s.elem_terms():
            tot = {}
            for x, v, S in loop:
                tot = ladd(tot, v)
            if loop:
                x, v, S = loop[-1]
                ext = s.extent(S, E)
                if F.eq0(S, ladd(ladd(tot, ext, -1), {ONE: -head})):
                    ok = True
        if not ok:
            bad("alloc", loop[0][0] if loop else e, "size per element",
                "the size reserved per element is not the %d header bytes and the data written per element" % head)


READERS = {"double": {"stod", "strtod", "stold"}, "float": {"stof", "stod", "strtod", "strtof", "stold"},
           "long": {"stol", "stoll"}, "int": {"stoi", "stol", "stoll"}, "unsigned int": {"stoul", "stoull", "stol", "stoll"},
           "unsigned long": {"stoul", "stoull"}, "unsigned char": {"stoi", "stol", "stoll", "stoul", "stoull"}}
DIGITS = {"double": 17, "float": 9}


def text(R, prog, s):
    G, F, f = s.G, s.F, s.f
    p = [x["t"] for x in f.params]
    if s.writer:
        ty = bare(p[0])
        R.count("text conversions judged")
        if ty not in DIGITS:
            return
        prec = []
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] in ("CallExpr", "CXXMemberCallExpr"):
                nm = short(strip_tmpl(e.node.get("fn", "")))
                a = e.node["c"][1:]
                if nm == "to_string":
                    R.violation("text", f.qual, "std::to_string of " + ty, e.where(),
                                "std::to_string keeps six decimals of a %s" % ty)
                    return
                if nm in ("setprecision", "precision") and a:
                    prec.append((e, G.term(e.frame, a[0])))
                if nm == "hexfloat":
                    return
        if not any(t[0] == "int" and t[1] >= DIGITS[ty] for e, t in prec):
            R.violation("text", f.qual, "precision of " + ty, "%s:%d" % (G.ev[0].where().split(":")[0], f.line),
                        "a %s is written with fewer than %d significant digits" % (ty, DIGITS[ty]))
    else:
        ty = pointee(p[1])
        R.count("text conversions judged")
        ok = False
        bads = []
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CallExpr" and F.at(e.id) is not None:
                nm = short(strip_tmpl(e.node.get("fn", "")))
                if nm.startswith(("sto", "strto", "ato")):
                    if nm in READERS.get(ty, ()):
                        ok = True
                    else:
                        bads.append((e, nm))
        for e, nm in bads:
            R.violation("text", f.qual, "%s for %s" % (nm, ty), e.where(), "%s does not cover the range of %s" % (nm, ty))
        if not ok and not bads:
            raise AnalysisError("no text conversion found in %s for %s" % (f.qual, ty))


CHECKS = {"P09": p09, "P10": p10}
