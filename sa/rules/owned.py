"""Memory owned through raw pointers: classes that free a member, and every new expression."""
from ..ir import short, strip_tmpl
from ..graph import *
from ..absint import Interp, UNK, Limit, key
from .. import programs

THIS, THAT = ("this",), ("that",)


class Heap(Interp):
    """Interp with blocks of memory: ('heap', name) cells. The trace records new, delete and copies."""
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.nodes_at = {}

    def rval(self, p, v):
        r = super().rval(p, v)
        if isinstance(r, tuple) and r and r[0] == "unset":
            p.trace.append(("unset", r))
        return r

    def truth(self, p, v):
        v = super().rval(p, v)
        if isinstance(v, tuple) and v and v[0] == "unset":
            p.trace.append(("unset", v))
        if isinstance(v, tuple) and v and v[0] == "flag":
            k = (v,)
            if k in p.rel:
                return [(p, p.rel[k])]
            a, b = p.copy(), p.copy()
            a.rel[k], b.rel[k] = True, False
            return [(a, True), (b, False)]
        return super().truth(p, v)

    def order(self, p, a, b):
        a, b = self.rval(p, a), self.rval(p, b)
        pa, pb = (isinstance(x, tuple) and x and x[0] == "ptr" for x in (a, b))
        if pa and pb:
            ra, rb = a[1][0], b[1][0]
            own = lambda r: r in ("this", "that") or isinstance(r, tuple) and r[0] in ("heap", "ext")
            if own(ra) and own(rb) and a != b:
                return [(p, "lt" if key(a) < key(b) else "gt")]
            if a != b:
                k = (a, b) if key(a) <= key(b) else (b, a)
                if k in p.rel:
                    return super().order(p, a, b)
                out = []
                for r in ("lt", "eq"):
                    q = p.copy()
                    q.rel[k] = r
                    out.append((q, r))
                return out
        if pa and b == 0 or pb and a == 0:
            return [(p, "gt" if pa else "lt")]
        if isinstance(a, tuple) and a[0] == "flag" and isinstance(b, int) or isinstance(b, tuple) and b[0] == "flag" and isinstance(a, int):
            f, c, sw = (a, b, False) if isinstance(a, tuple) else (b, a, True)
            out = []
            for q, t in self.truth(p, f):
                r = "lt" if int(t) < c else "gt" if int(t) > c else "eq"
                out.append((q, {"lt": "gt", "gt": "lt", "eq": "eq"}[r] if sw else r))
            return out
        return super().order(p, a, b)

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        k, c = n["k"], n["c"]
        if k == "CXXNewExpr":
            out = []
            for q, vs in self.many(fn, [x for x in c if x is not None and x >= 0][:1] if n.get("arr") else [], p, env, cache, this, fid, outer):
                q = q.copy()
                i = sum(1 for t in q.trace if t[0] == "new")
                cell = (("heap", "new%d" % i),)
                size = self.rval(q, vs[0]) if vs else 1
                q.trace.append(("new", cell, size, bool(n.get("arr"))))
                out.append((q, ("ptr", cell)))
            return out
        if k == "CXXDeleteExpr":
            out = []
            for q, (v,) in self.many(fn, c[:1], p, env, cache, this, fid, outer):
                q = q.copy()
                q.trace.append(("delete", self.rval(q, v), bool(n.get("arr")), (fn.file, n.get("l"))))
                out.append((q, None))
            return out
        return super()._ev(fn, nid, p, env, cache, this, fid, outer)

    def padd(self, v, k):
        if isinstance(v, tuple) and v[0] in ("ptr", "ref") and not isinstance(k, int) and k is not None:
            return ("ptr", v[1] + (("off", k),))
        return super().padd(v, k)

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        s = short(n.get("fn", ""))
        r = [self.rval(q, v) for v in vs]
        if s in ("memcpy", "memmove", "__builtin_memcpy") and len(vs) == 3:
            q = q.copy()
            q.trace.append(("copy", self.as_ptr(q, vs[0]), self.as_ptr(q, vs[1]), r[2]))
            return [(q, vs[0])]
        if s == "memset" and len(vs) == 3:
            q = q.copy()
            q.trace.append(("fill", self.as_ptr(q, vs[0]), r[2]))
            return [(q, vs[0])]
        if s in ("copy", "copy_n") and len(vs) == 3:
            a, b, d = self.as_ptr(q, vs[0]), r[1], self.as_ptr(q, vs[2])
            num = None
            if s == "copy_n":
                num = b
            elif isinstance(b, tuple) and b[0] == "ptr" and isinstance(b[1][-1], tuple) and b[1][-1][0] == "off" and a is not None \
                    and b[1][:-1] == a[1]:
                num = b[1][-1][1]
            q = q.copy()
            q.trace.append(("copy", d, a, num))
            return [(q, UNK)]
        if s == "swap" and len(vs) == 2 and all(isinstance(v, tuple) and v[0] == "ref" for v in vs):
            q = q.copy()
            q.mem[vs[0][1]], q.mem[vs[1][1]] = r[1], r[0]
            return [(q, UNK)]
        if s == "exchange" and len(vs) == 2 and isinstance(vs[0], tuple) and vs[0][0] == "ref":
            q = q.copy()
            q.mem[vs[0][1]] = r[1]
            return [(q, r[0])]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)

    def as_ptr(self, q, v):
        v = self.rval(q, v)
        if isinstance(v, tuple) and v[0] == "ref":
            v = ("ptr", v[1])
        return v if isinstance(v, tuple) and v[0] == "ptr" else v


class Owner:
    """a class that allocates or frees a member: pointer field, flag field or None, size field or None"""
    def __init__(self, prog, rec, ptr):
        self.prog, self.rec, self.ptr = prog, rec, ptr
        self.name = strip_tmpl(rec["name"])
        fs = fields_of(prog, rec)
        bools = [n for n, f in fs.items() if f["t"].replace("const ", "").strip() == "bool"]
        self.flag = bools[0] if len(bools) == 1 else None
        ints = [n for n, f in fs.items() if f["t"].replace("const ", "").strip() in
                ("unsigned int", "unsigned long", "int", "long", "uint32_t", "size_t")]
        self.size = ints[0] if len(ints) == 1 else None
        self.fields = fs
        self.fns = [f for f in prog.fns.values() if f.rec == rec["key"] and f.blocks and not f.d.get("static")]

    def special(self, what):
        return [m for m in self.rec["methods"] if m.get("cc") == what]


def chain(prog, rec):
    out = [rec]
    for b in rec["bases"]:
        r = prog.recs.get(b)
        if r is not None:
            out += chain(prog, r)
    return out


def fields_of(prog, rec):
    return {f["n"]: f for r in chain(prog, rec) for f in r["fields"]}


def climb(fn, nid):
    """the expression around nid that gives the value its use: (parent node id, child id)"""
    while True:
        ps = fn.parents.get(nid, [])
        if not ps:
            return None, nid
        n = fn.nodes[ps[0]]
        if n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                      "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "ConditionalOperator"):
            nid = ps[0]
            continue
        return ps[0], nid


def this_field(fn, nid):
    """name of the field of this object that nid denotes"""
    n = fn.nodes[nid]
    while n["k"] in ("ParenExpr", "ImplicitCastExpr") and n["c"]:
        n = fn.nodes[n["c"][0]]
    if n["k"] == "MemberExpr" and n.get("mk") != "method":
        if not n["c"] or n["c"][0] < 0 or fn.nodes[n["c"][0]]["k"] == "CXXThisExpr":
            return n["n"]
    return None


def owners(prog):
    found = {}
    for f in prog.fns.values():
        rec = prog.recs.get(f.rec) if f.rec else None
        if rec is None or not f.blocks:
            continue
        fs = fields_of(prog, rec)
        raw = {n for n, x in fs.items() if x["t"].rstrip().endswith("*")}
        if not raw:
            continue
        names = set()
        for i, n in enumerate(f.nodes):
            if n["k"] == "CXXDeleteExpr":
                names.add(this_field(f, n["c"][0]))
            if n["k"] == "BinaryOperator" and n["op"] == "=" and this_field(f, n["c"][0]) in raw and \
                    any(f.nodes[x]["k"] == "CXXNewExpr" for x in below(f, n["c"][1])):
                names.add(this_field(f, n["c"][0]))
        for b in f.blocks:
            for el in b["el"]:
                if isinstance(el, dict) and el.get("init") in raw and el.get("e", -1) >= 0 and \
                        any(f.nodes[x]["k"] == "CXXNewExpr" for x in below(f, el["e"])):
                    names.add(el["init"])
        for n in names & raw:
            found[(rec["key"], n)] = Owner(prog, rec, n)
    return [found[k] for k in sorted(found)]


def below(fn, nid):
    """nid and what it is made of, not looking into other calls"""
    out, todo = [], [nid]
    while todo:
        i = todo.pop()
        if i is None or i < 0:
            continue
        out.append(i)
        if fn.nodes[i]["k"] in ("CXXConstructExpr", "CallExpr", "CXXMemberCallExpr", "LambdaExpr", "CXXTemporaryObjectExpr") and i != nid:
            continue
        todo += fn.nodes[i]["c"]
    return out


class State:
    """who owns what at the end of one abstract execution"""
    def __init__(self, o, q, objs, value):
        self.o, self.q, self.value = o, q, value
        same = {}
        for k, r in q.rel.items():
            if r == "eq" and len(k) == 2 and all(isinstance(x, tuple) and x[0] == "ptr" for x in k):
                h = [x for x in k if x[1][0][0] == "heap"]
                for x in k:
                    if h and x not in h:
                        same[x] = h[0]
        self.same = same
        self.data = {x: self.ptr(q.mem.get((x, o.ptr))) for x in objs}
        self.flag = {x: q.mem.get((x, o.flag)) if o.flag else 1 for x in objs}
        self.size = {x: q.mem.get((x, o.size), ("w", (x, o.size))) if o.size else None for x in objs}

    def ptr(self, v):
        return self.same.get(v, v)

    def owns(self, x):
        v = self.flag[x]
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, tuple) and v[0] == "flag":
            return self.q.rel.get((v,))
        return None

    def equal(self, a, b):
        if a == b:
            return True
        return self.q.rel.get((a, b)) == "eq" or self.q.rel.get((b, a)) == "eq"


def heap(v):
    return isinstance(v, tuple) and v and v[0] == "ptr" and v[1][0][0] == "heap"


def decide(R, prog, o):
    lines = lambda f: f.where()
    kinds = {("new", bool(n.get("arr"))) for f in o.fns for n in f.nodes if n["k"] == "CXXNewExpr"} | \
            {("delete", bool(n.get("arr"))) for f in o.fns for n in f.nodes if n["k"] == "CXXDeleteExpr"}
    if len({a for _, a in kinds}) > 1:
        R.violation("freed", o.name, "form", "%s:%s" % (o.rec["file"], o.rec["line"]), "an array is freed as one object or the reverse")
    if not any(f.kind == "dtor" for f in o.fns):
        R.violation("freed", o.name, "destructor", "%s:%s" % (o.rec["file"], o.rec["line"]), "the class owns memory and has no destructor that frees it")
    for what, text in (("copy", "copying"), ("copyassign", "assigning")):
        ms = o.special(what)
        if what == "copyassign" and any(f.get("const") or f.get("ref") for f in o.rec["fields"]) and not any(m.get("user") for m in ms):
            continue
        R.count("copy operations")
        if not ms and (o.special("move") or o.special("moveassign")):
            continue
        if not ms or not any(m.get("user") or m.get("deleted") for m in ms):
            R.violation("copy", o.name, what, "%s:%s" % (o.rec["file"], o.rec["line"]),
                        "%s an object that owns memory copies the pointer: both free it" % text)
    for f in sorted(o.fns, key=lambda f: (f.line, f.key)):
        run_one(R, prog, o, f)


def worlds(o, f):
    """initial contents: the object itself and others of its class that are passed by reference"""
    def obj(x, own):
        m = {}
        for n, fl in o.fields.items():
            if n == o.ptr:
                m[(x, n)] = ("ptr", (("heap", x),)) if own else ("ptr", (("ext", x),))
            elif n == o.flag:
                m[(x, n)] = 1 if own else 0
        return m
    cls = {r["key"] for r in chain(o.prog, o.rec)}
    same = [i for i, q in enumerate(f.params) if "&" in q["t"] and q["t"].replace("const ", "").rstrip("& ") in cls]
    if len(same) > 1:
        return None
    owns = (True, False) if o.flag else (True,)
    out = []
    for a in ((None,) if f.kind == "ctor" else owns):
        for b in (owns if same else (None,)):
            m = {}
            if a is None:
                for n in o.fields:
                    m[("this", n)] = ("unset", n)
            else:
                m.update(obj("this", a))
            if b is not None:
                m.update(obj("that", b))
            args = []
            for i, q in enumerate(f.params):
                t = q["t"].replace("const ", "").strip()
                if i in same:
                    args.append(("ref", ("that",)))
                elif t == "bool":
                    m[(("param", i),)] = ("flag", i)
                    args.append(("ref", (("param", i),)))
                elif t.endswith("*"):
                    m[(("param", i),)] = ("ptr", (("arg", i),))
                    args.append(("ref", (("param", i),)))
                else:
                    args.append(("ref", (("param", i),)))
            out.append((a, b, m, args, False))
            for i, q in enumerate(f.params):
                if a and q["t"].replace("const ", "").strip() == o.fields[o.ptr]["t"].replace("const ", "").strip():
                    m2 = dict(m)
                    m2[(("param", i),)] = ("ptr", (("heap", "this"),))
                    out.append((a, b, m2, args, False))
            if same and a == b and a is not None and f.kind != "ctor":
                m2 = {c: v for c, v in m.items() if c[0] != "that"}
                out.append((a, None, m2, [("ref", ("this",)) if i in same else x for i, x in enumerate(args)], True))
    return out


def run_one(R, prog, o, f):
    ws = worlds(o, f)
    fname = "%s::%s" % (o.name, strip_tmpl(f.short))
    if ws is None:
        R.note("%s takes several objects of its class" % f.where())
        return
    copying = f.kind == "ctor" and any(m["key"] == f.key and m.get("cc") == "copy" for m in o.rec["methods"]) or \
        any(m["key"] == f.key and m.get("cc") == "copyassign" for m in o.rec["methods"])
    bad = set()

    def fire(rule, what, msg):
        if (rule, what) not in bad:
            bad.add((rule, what))
            R.violation(rule, fname, what, f.where(), msg)
    R.count("member functions analysed")
    for own, other, mem, args, alias in ws:
        I = Heap(prog)
        try:
            outs = I.run(f, this=None, args=args, mem=mem) if False else list(I.call(f, start(mem), bound(f, args), ("ref", ("this",))))
        except (Limit, RecursionError):
            R.note("%s not decided (loops over a run-time number)" % f.where())
            continue
        asked = {t[2] for q, v in outs for t in q.trace if t[0] == "new" and t[2][:1] == ("w",) and t[2][1][0][0] == "param"} \
            if o.size and not any(t[0] == "new" and not isinstance(t[2], tuple) for q, v in outs for t in q.trace) else set()
        for q, v in outs:
            R.count("executions analysed")
            if len(asked) == 1:
                S = State(o, q, ["this"], v)
                if S.owns("this") is False or not S.equal(S.size["this"], *asked):
                    fire("size", "asked", "on some path the object does not own a block of the size asked for")
            objs = ["this"] + (["that"] if other is not None else [])
            S = State(o, q, objs, v)
            blocks = {}
            if own:
                blocks[("heap", "this")] = ("w", ("this", o.size))
            if other:
                blocks[("heap", "that")] = ("w", ("that", o.size))
            freed = {}
            for t in q.trace:
                if t[0] == "new":
                    blocks[t[1][0]] = t[2]
                elif t[0] == "unset" and t[1][1] in (o.ptr, o.flag, o.size):
                    fire("unset", t[1][1], "%s is read before it has a value" % t[1][1])
                elif t[0] == "delete":
                    d = S.ptr(t[1])
                    if d == 0:
                        continue
                    if heap(d):
                        c = d[1][0]
                        if freed.get(c):
                            fire("freed", "twice", "memory is freed twice")
                        freed[c] = True
                        if c == ("heap", "that") and "that" in objs and S.data.get("that") == d:
                            fire("freed", "other", "the memory of another object is freed")
                    elif isinstance(d, tuple) and d[0] == "ptr" and d[1][0][0] in ("ext", "arg"):
                        fire("freed", "foreign", "memory the object does not own is freed")
                    elif isinstance(d, tuple) and d[0] == "unset":
                        fire("unset", o.ptr, "an uninitialised pointer is freed")
                    else:
                        R.note("%s: what is freed is not decided" % f.where())
                elif t[0] in ("copy", "fill"):
                    for p in t[1:3]:
                        p = S.ptr(p)
                        if heap(p) and freed.get(p[1][0]):
                            fire("freed", "use", "memory is used after it was freed")
            odd = any(isinstance(S.data[x], tuple) and S.data[x][0] not in ("ptr", "unset") for x in objs) or \
                any(S.owns(x) is None and not (isinstance(S.flag[x], tuple) and S.flag[x][0] in ("flag", "unset")) for x in objs)
            if odd:
                R.note("%s: the final owner is not decided" % f.where())
                continue
            R.count("final states decided")
            for x in objs:
                if x == "this" and f.kind == "dtor":
                    continue
                d = S.data[x]
                if isinstance(d, tuple) and d[0] == "unset":
                    fire("unset", o.ptr, "%s has no value after construction" % o.ptr)
                    continue
                if isinstance(S.flag[x], tuple) and S.flag[x][0] == "unset":
                    fire("unset", o.flag, "%s has no value after construction" % o.flag)
                    continue
                if heap(d) and freed.get(d[1][0]):
                    fire("freed", "dangling", "the object keeps a pointer to freed memory")
                if isinstance(d, tuple) and d[0] == "ptr" and not heap(d) and S.owns(x):
                    given = isinstance(S.flag[x], tuple) and S.flag[x][0] == "flag"
                    if o.flag is not None and not (given and d[1][0][0] == "arg"):
                        fire("freed", "foreign", "the object claims memory that it was not given to own")
                if o.size and heap(d) and S.owns(x) and d[1][0] in blocks:
                    if isinstance(S.size[x], tuple) and S.size[x][0] == "unset":
                        fire("unset", o.size, "%s has no value after construction" % o.size)
                    elif not S.equal(S.size[x], blocks[d[1][0]]):
                        fire("size", "size", "the size is not that of the block")
                if o.size and d == 0 and x == "this" and S.size[x] != 0 and own and freed.get(("heap", "this")):
                    fire("size", "released", "the size stays although the memory is gone")
            for c in blocks:
                if freed.get(c):
                    continue
                hold = [x for x in objs if S.data[x] == ("ptr", (c,)) and S.owns(x) is not False and not (x == "this" and f.kind == "dtor")]
                back = S.ptr(v if not (isinstance(v, tuple) and v and v[0] == "ref") else q.mem.get(v[1])) == ("ptr", (c,))
                if not hold and not back:
                    # a caller may take the memory over by naming it as not owned
                    given = any(isinstance(S.flag[x], tuple) and S.data[x] == ("ptr", (c,)) or
                                any(k in S.same for k in [("ptr", (("arg", i),)) for i in range(len(f.params))]) for x in objs)
                    if not given:
                        fire("freed", "leak", "owned memory is neither freed nor kept")
                if len(hold) > 1:
                    fire("freed", "shared", "two objects own the same memory")
            if copying and not alias:
                d = S.data["this"]
                src = ("ptr", (("heap" if other else "ext", "that"),))
                n = ("w", ("that", o.size))
                if heap(d) and d[1][0] != ("heap", "that"):
                    R.count("copies decided")
                    cp = [t for t in q.trace if t[0] == "copy" and S.ptr(t[1]) == d]
                    if not any(S.ptr(t[2]) == src and (o.size is None or S.equal(t[3], n)) for t in cp):
                        if any(isinstance(x, tuple) for x in q.odd) and not cp:
                            R.note("%s: the copied content is not decided" % f.where())
                        else:
                            fire("copy", "content", "not all bytes of the copied object reach the copy")
                    if o.size and not S.equal(S.size["this"], n):
                        fire("copy", "size", "the copy has another size")
                elif other and d == ("ptr", (("heap", "that"),)):
                    if S.owns("this"):
                        fire("copy", "shared", "two objects own the same memory")
                    else:
                        fire("copy", "alias", "a copy of an owner refers to the memory of the original")
                elif d != src:
                    fire("copy", "content", "the copy does not refer to what was copied")
                elif o.size and not S.equal(S.size["this"], n):
                    fire("copy", "size", "the copy has another size")


def start(mem):
    from ..absint import Path
    p = Path()
    p.mem.update(mem)
    return p


def bound(f, args):
    return {q["d"]: a for q, a in zip(f.params, args)}


SMART = ("shared_ptr", "unique_ptr", "cv::Ptr", "auto_ptr", "__shared_ptr", "weak_ptr")


def news(R, prog, own):
    """every new expression reaches an owner"""
    fields = {(o.rec["key"], o.ptr) for o in own}
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if not f.blocks or "/test/" in f.file:
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "CXXDeleteExpr":
                deleted(R, prog, f, i, fields)
            if n["k"] != "CXXNewExpr":
                continue
            R.count("new expressions")
            where = "%s:%s" % (f.file, n.get("l"))
            p, ch = climb(f, i)
            if p is None:
                if any(isinstance(el, dict) and el.get("e") in (ch, i) for b in f.blocks for el in b["el"]):
                    R.count("new expressions owned")
                else:
                    R.violation("new", f.qual, "lost", where, "the result of new is dropped")
                continue
            pn = f.nodes[p]
            k = pn["k"]
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXMemberCallExpr", "CallExpr", "ReturnStmt", "InitListExpr",
                     "CXXOperatorCallExpr"):
                R.count("new expressions owned")
                continue
            if k == "DeclStmt":
                d = next((d for d in pn["decls"] if d.get("init") == ch), None)
                if d is not None:
                    local_owner(R, prog, f, i, d["d"], d["n"], where)
                    continue
            if k == "BinaryOperator" and pn["op"] == "=":
                l = f.nodes[pn["c"][0]]
                if l["k"] == "DeclRefExpr" and l.get("dk") == "local":
                    local_owner(R, prog, f, i, l["d"], l["n"], where)
                    continue
                fl = this_field(f, pn["c"][0])
                if fl is not None and (f.rec, fl) in fields or l["k"] == "UnaryOperator" and l["op"] == "*":
                    R.count("new expressions owned")
                    continue
            R.note("%s: who owns the new object is not decided" % where)


def local_owner(R, prog, f, nid, d, name, where):
    G = Graph(prog, f, volatile=True)
    start = [e.id for e in G.ev if e.id in G.live and e.frame is G.root and e.kind == "stmt" and e.nid == nid]
    if not start:
        R.note("%s: not reached" % where)
        return
    R.count("local owners")

    names = {d}
    for _ in range(3):
        for x in f.nodes:
            if x["k"] == "DeclStmt":
                for y in x["decls"]:
                    if y.get("init") is not None and y["init"] >= 0 and y["t"].rstrip().replace("*const", "* const").endswith(("*", "* const")):
                        z = f.nodes[y["init"]]
                        if z["k"] == "DeclRefExpr" and z.get("d") in names:
                            names.add(y["d"])

    def ends(e):
        if e.kind != "stmt" or e.frame is not G.root:
            return False
        n = e.node
        def is_d(x):
            return any(f.nodes[y]["k"] == "DeclRefExpr" and f.nodes[y].get("d") in names for y in below(f, x) if y >= 0)
        if n["k"] in ("CXXDeleteExpr", "ReturnStmt"):
            return bool(n["c"]) and n["c"][0] is not None and n["c"][0] >= 0 and is_d(n["c"][0])
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and any(s in n.get("t", "") for s in SMART):
            return any(is_d(c) for c in n["c"])
        if n["k"] == "CXXMemberCallExpr" and short(n.get("fn", "")) in ("reset", "emplace_back", "push_back"):
            return any(is_d(c) for c in n["c"][1:])
        if n["k"] == "BinaryOperator" and n["op"] == "=" and f.nodes[n["c"][0]]["k"] in ("MemberExpr", "UnaryOperator"):
            return is_d(n["c"][1])
        return False
    exits = [e.id for e in G.ev if e.kind == "exit" and e.frame is G.root]
    w = must_pass(G, start[0], exits, ends)
    if w is not None:
        R.violation("new", f.qual, name, where, "on some path to the end nothing frees or keeps what new returned")


def deleted(R, prog, f, nid, fields):
    """what is deleted is not reachable afterwards through something that outlives the call"""
    n = f.nodes[nid]
    G = Graph(prog, f, volatile=True)
    R.count("delete expressions")
    if f.kind == "dtor" or (f.rec, this_field(f, n["c"][0])) in fields or f.nodes[below(f, n["c"][0])[0]]["k"] == "DeclRefExpr":
        return
    for s in [e for e in G.ev if e.id in G.live and e.frame is G.root and e.kind == "stmt" and e.nid == nid]:
        t = G.term(s.frame, n["c"][0])
        if t[0] not in ("fld", "deref", "mem"):
            continue

        def set_again(e):
            return e.kind == "stmt" and e.node["k"] == "BinaryOperator" and e.node["op"] == "=" and \
                G.term(e.frame, e.node["c"][0]) == t
        w = must_pass(G, s.id, [e.id for e in G.ev if e.kind == "exit" and e.frame is G.root], set_again)
        if w is not None:
            R.violation("dangling", f.qual, "delete", "%s:%s" % (f.file, n.get("l")), "a freed pointer stays reachable after the call")


def P16(R):
    R.rule("freed", "every member function of a class that owns memory, run on all combinations of owning and not owning objects "
           "(abstract heap): each block is freed once or kept by exactly one owner, nothing else is freed, nothing freed is kept or used")
    R.rule("unset", "no function reads the pointer, the flag or the size before it has a value, and constructors set them")
    R.rule("size", "the size an owner reports is the size of its block, and the size that was asked for")
    R.rule("copy", "copy operations of such classes are defined or deleted; a copy of an owner owns a full copy of the bytes")
    R.rule("new", "the result of every new expression goes to a smart pointer, to an owner, to the caller or is freed on all paths")
    R.rule("dangling", "a pointer that outlives the call is set again after it was freed")
    prog = programs.whole("thread_pool.cc", "channels.cc", "cameras.cc", "common_headers.cc")
    own = owners(prog)
    R.count("owning classes", len({o.name for o in own}))
    for o in own:
        R.sample("%s owns %s%s" % (o.name, o.ptr, " if " + o.flag if o.flag else ""))
        decide(R, prog, o)
    news(R, prog, own)
    R.atleast("owning classes", 2)
    R.atleast("final states decided", 20)
    R.atleast("new expressions", 15)
    R.atleast("copies decided", 2)


CHECKS = {"P16": P16}
