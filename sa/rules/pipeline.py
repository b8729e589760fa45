"""The visual n-pipeline: wake-ups, the order in which completed frame sets leave it, bounds of its queue."""
from ..graph import *
from ..ir import short, strip_tmpl
from ..facts import Facts
from .. import programs
from .locking import *
from .repo import DRV

CLS = "aslam::VisualNPipeline"
OLD = ("getNext", "getNextBlocking")
NEW = ("getLatestAndClear", "getLatestAndClearBlocking")
OFFER = ("processImage", "processImageBlockingIfFull", "processImageNonBlockingDroppingOldestNFrameIfFull")
CAP = 48


class Pipeline:
    def __init__(self, R):
        self.prog = programs.whole(*DRV)
        self.rec = self.prog.record(CLS)
        R.need(self.rec, "class " + CLS)
        self.CL = ClassLocks(self.prog, self.rec)
        self.done = self.counted(R, "getNumFramesComplete")
        self.busy = self.counted(R, "getNumFramesProcessing")
        flags = [f["n"] for f in self.rec["fields"] if f["t"].replace("std::atomic", "").strip("<>").endswith("bool")]
        R.need(len(flags) == 1, "one flag for the shutdown")
        self.flag = flags[0]
        R.count("functions analysed", len({f.key for f, G in self.CL.gs}))
        self._f = {}

    def counted(self, R, name):
        out = set()
        for f, G in self.graphs(name):
            for e in G.ev:
                if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
                    t = G.term(e.frame, e.nid)
                    if t[0] == "size" and t[1][0] == "fld" and t[1][1] == ("this",):
                        out.add(t[1][2])
        R.need(len(out) == 1, "%s counts one container" % name)
        return out.pop()

    def graphs(self, name):
        return [(f, G) for f, G in self.CL.gs if f.short == name]

    def F(self, G):
        if id(G) not in self._f:
            self._f[id(G)] = Facts(G, sync=True)
        return self._f[id(G)]

    def is_field(self, t, name):
        return t == ("fld", ("this",), name)


# ---------------------------------------------------------------------------------------------- where a value comes from
class Origins:
    """Possible combinations of (what each location holds, what was taken out of the map, whether the map is empty).
    Values: ('it', w) iterator, ('el', w) frame set, ('key', w) its time, w in first, last, end, other; None: null."""

    def __init__(self, G, P, field, status=True):
        self.G, self.P, self.field, self.status = G, P, field, status
        self.facts = P.F(G)
        self.IN = forward(G, frozenset({(frozenset(), "none", "?")}), self.step, self.join, self.edge)

    def join(self, A, B):
        return self.few(A | B)

    @staticmethod
    def few(C):
        """too many combinations: what all of them agree on"""
        if len(C) <= CAP:
            return frozenset(C)
        one = lambda x: x.pop() if len(x) == 1 else "?"
        return frozenset({(frozenset.intersection(*[c[0] for c in C]), one({c[1] for c in C}), one({c[2] for c in C}))})

    def is_map(self, fr, nid):
        return self.P.is_field(self.G.term(fr, nid), self.field)

    def edge(self, S, cond):
        if cond is None or cond[0] != "if":
            return S
        t, pol = self.facts.cond_term(cond[1], cond[2]), cond[3]
        while t[0] == "un" and t[1] == "!":
            t, pol = t[2], not pol
        c = ("fld", ("this",), self.field)
        size = ("size", c)
        empty = None
        if t[0] == "m" and t[1] == "empty" and t[2] == c:
            empty = pol
        elif t == size:
            empty = not pol
        elif t[0] == "bin" and size in t[2:4] and ("int", 0) in t[2:4] and t[1] in ("==", "!=", ">", "<"):
            empty = pol == (t[1] == "==")
        elif t[0] == "bin" and t[1] in ("==", "!=") and {x[1] for x in t[2:4] if x[0] == "m" and x[2] == c} in ({"begin", "end"}, {"cbegin", "cend"}):
            empty = pol == (t[1] == "==")
        if empty is None:
            return S
        S = frozenset((env, st, empty) for env, st, em in S if em in ("?", empty))
        return S or None

    def local(self, fr, nid):
        """location of a plain variable, resolved to the frame that owns it"""
        n = fr.fn.nodes[nid]
        if n["k"] != "DeclRefExpr":
            return None
        r = self.G._lookup(fr, n["d"])
        if r is None:
            return None
        if r[0] == "decl":
            return ("var", r[1].id, n["d"]), r
        return ("par", r[2].id if r[0] != "ownparam" else r[1].id, n["d"]), r

    def strip(self, fr, nid):
        for _ in range(12):
            n = fr.fn.nodes[nid]
            c = [x for x in n["c"] if x >= 0]
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr",
                          "MaterializeTemporaryExpr", "ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr") and len(c) == 1:
                nid = c[0]
            elif n["k"] == "CallExpr" and strip_tmpl(n.get("fn", "")) in ("std::move", "std::forward", "google::CheckNotNull"):
                nid = c[-1]
            elif n["k"] == "UnaryOperator" and n["op"] == "+":
                nid = c[0]
            else:
                return nid
        return nid

    def value(self, env, fr, nid, depth=0):
        if depth > 14 or nid is None or nid < 0:
            return "?"
        nid = self.strip(fr, nid)
        n = fr.fn.nodes[nid]
        k, c = n["k"], n["c"]
        V = lambda x: self.value(env, fr, x, depth + 1)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not c and "shared_ptr<" in n.get("t", ""):
            return None
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return None
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            nf = self.facts.callee_frame(fr, nid)
            if nf is not None:
                return env.get(("ret", nf.id), "?")
        if k == "CXXMemberCallExpr":
            me = fr.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and me["c"] and not me.get("arrow") and self.is_map(fr, me["c"][0]):
                w = {"begin": "first", "cbegin": "first", "rbegin": "last", "crbegin": "last", "end": "end", "cend": "end"}.get(me["n"])
                if w:
                    return ("it", w)
                if me["n"] == "erase" and len(c) > 1:
                    return env.get(("erased", fr.id, nid), "?")
            if me["k"] == "MemberExpr" and me["n"] in ("get", "base") and me["c"]:
                return V(me["c"][0]) if me["n"] == "get" else "?"
            return "?"
        if k == "CallExpr" and strip_tmpl(n.get("fn", "")) == "std::prev" and len(c) >= 2:
            v = V(c[1])
            return ("it", "last") if v == ("it", "end") else ("it", "other") if v == ("it", "first") else "?"
        if k == "CallExpr" and strip_tmpl(n.get("fn", "")) == "std::next" and len(c) >= 2:
            return ("it", "other") if V(c[1]) in (("it", "first"), ("it", "other")) else "?"
        if k == "CXXOperatorCallExpr" and n["op"] in ("*", "->"):
            v = V(c[1])
            return v if isinstance(v, tuple) and v[0] in ("it", "el") else self.at(env, fr, nid)
        if k == "CXXOperatorCallExpr" and n["op"] in ("++", "--"):
            return env.get(self.loc(fr, c[1]), "?") if len(c) == 2 else "?"
        if k == "MemberExpr" and n["n"] in ("first", "second") and c:
            v = V(c[0])
            if isinstance(v, tuple) and v[0] == "it":
                return ("el" if n["n"] == "second" else "key", v[1])
            return "?"
        if k == "DeclRefExpr":
            l = self.local(fr, nid)
            if l is not None:
                loc, r = l
                if loc in env:
                    return env[loc]
                if r[0] == "bind":
                    return self.value(env, r[1][0], r[1][1], depth + 1)
                if r[0] == "decl" and r[2].get("ref") and r[2].get("init") is not None:
                    return self.value(env, r[1], r[2]["init"], depth + 1)
            return "?"
        return self.at(env, fr, nid)

    def at(self, env, fr, nid):
        t = self.loc(fr, nid)
        return env.get(t, "?") if t is not None else "?"

    def loc(self, fr, nid):
        nid = self.strip(fr, nid)
        l = self.local(fr, nid)
        if l is not None:
            loc, r = l
            if r[0] == "decl" and r[2].get("ref") and r[2].get("init") is not None:
                return self.loc(r[1], r[2]["init"])
            if r[0] == "bind" and next((p for p in r[2].fn.params if p["d"] == loc[2]), {}).get("ref"):
                return self.loc(r[1][0], r[1][1])
            return loc
        t = self.G.term(fr, nid, "ref")
        return t

    def step(self, e, S):
        if e.kind not in ("stmt", "enter", "cbhead", "init"):
            return S
        out = set()
        for env, st, em in S:
            env = dict(env)
            st, em = self.one(e, env, st, em)
            if not self.status:
                st, em = "none", "?"
                env = {k: v for k, v in env.items() if isinstance(v, tuple) and v[0] in ("it", "el")}
            out.add((frozenset(env.items()), st, em))
        return self.few(out)

    def put(self, env, loc, v):
        if loc is None:
            return
        if v == "?":
            env.pop(loc, None)
        else:
            env[loc] = v

    def one(self, e, env, st, em):
        G, fr = self.G, e.frame
        if self.facts.acquires(e):
            for k in [k for k, v in env.items() if isinstance(v, tuple) and v[0] == "it"]:
                del env[k]
            em = "?"
            return st, em
        if e.kind == "enter":
            for p in fr.fn.params:
                b = fr.binds.get(p["d"])
                env.pop(("par", fr.id, p["d"]), None)
                if not p.get("ref") and isinstance(b, tuple) and len(b) == 2 and hasattr(b[0], "binds"):
                    self.put(env, ("par", fr.id, p["d"]), self.value(env, b[0], b[1]))
            return st, em
        if e.kind != "stmt":
            return st, em
        n = e.node
        k, c = n["k"], n["c"]
        if k == "DeclStmt":
            for d in n["decls"]:
                if d.get("ref") or d.get("static"):
                    continue
                v = self.value(env, fr, d["init"]) if d.get("init") is not None else None if "shared_ptr<" in d["t"] else "?"
                self.put(env, ("var", fr.id, d["d"]), v)
        elif k == "ReturnStmt":
            if c and c[0] >= 0:
                m = fr.fn.nodes[self.strip(fr, c[0])]
                v = ("bool", bool(int(m["v"]))) if m["k"] == "CXXBoolLiteralExpr" and "v" in m else self.value(env, fr, c[0])
                self.put(env, ("ret", fr.id), v)
        elif k == "BinaryOperator" and n["op"] == "=" or k == "CXXOperatorCallExpr" and n["op"] == "=" and len(c) > 2:
            l, r = (c[0], c[1]) if k == "BinaryOperator" else (c[1], c[2])
            v = self.value(env, fr, r)
            self.put(env, self.loc(fr, l), v)
        elif k in ("CXXOperatorCallExpr", "UnaryOperator") and n["op"] in ("++", "--"):
            x = c[1] if k == "CXXOperatorCallExpr" else c[0]
            v = self.value(env, fr, x)
            if isinstance(v, tuple) and v[0] == "it":
                w = ("it", "last") if n["op"] == "--" and v[1] == "end" else ("it", "other")
                self.put(env, self.loc(fr, x), w)
        elif k == "CXXMemberCallExpr" and self.facts.callee_frame(fr, e.nid) is None:
            me = fr.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and me["c"]:
                nm = me["n"]
                if not me.get("arrow") and self.is_map(fr, me["c"][0]):
                    st, em = self.change(e, env, st, em, nm, c)
                elif nm in ("reset", "swap") and "shared_ptr<" in fr.fn.nodes[me["c"][0]].get("t", ""):
                    l = self.loc(fr, me["c"][0])
                    if nm == "reset" and len([x for x in c[1:] if x >= 0]) == 0:
                        self.put(env, l, None)
                    elif nm == "swap" and len(c) > 1:
                        a, b = self.value(env, fr, me["c"][0]), self.value(env, fr, c[1])
                        self.put(env, l, b)
                        self.put(env, self.loc(fr, c[1]), a)
                    else:
                        self.put(env, l, "?")
        elif k == "CallExpr" and strip_tmpl(n.get("fn", "")) in ("std::swap", "std::tie") and len(c) > 2:
            for x in c[1:]:
                self.put(env, self.loc(fr, x), "?")
        return st, em

    def change(self, e, env, st, em, nm, c):
        fr = e.frame
        if nm == "erase":
            a = [x for x in c[1:] if x >= 0]
            v = self.value(env, fr, a[0]) if a else "?"
            if len(a) == 2:
                b = self.value(env, fr, a[1])
                now = "all" if (v, b) == (("it", "first"), ("it", "end")) else "?"
            else:
                now = {("it", "first"): "first", ("key", "first"): "first", ("it", "last"): "last", ("key", "last"): "last",
                       ("it", "other"): "other"}.get(v, "?")
            self.gone(env, now)
            self.put(env, ("erased", fr.id, e.nid), ("it", "first") if now == "first" else "?")
            return (now if st == "none" else "more"), True if now == "all" else "?"
        if nm == "clear":
            self.gone(env, "all")
            return ("all" if st == "none" else "more" if st != "first" else "all"), True
        if nm in ("insert", "emplace", "swap", "operator=", "emplace_hint", "insert_or_assign", "try_emplace"):
            for k in [k for k, v in env.items() if isinstance(v, tuple) and v[0] == "it"]:
                del env[k]
            return st, False if nm != "swap" else "?"
        return st, em

    @staticmethod
    def gone(env, what):
        """iterators move on; frame sets and times held outside keep their meaning"""
        for k, v in list(env.items()):
            if isinstance(v, tuple) and v[0] == "it" and v[1] != "end":
                del env[k]


def taken(R, P):
    for name in OLD + NEW:
        gs = P.graphs(name)
        R.need(gs, CLS + "::" + name)
        want, drop = ("first", "first") if name in OLD else ("last", "all")
        for f, G in gs:
            O = Origins(G, P, P.done)
            out = next((i for i, p in enumerate(f.params) if "VisualNFrame" in p["t"]), None)
            S = O.IN.get(G.exit, frozenset())
            if not S:
                R.note("%s: no way to its end" % f.qual)
            bad = set()
            for env, st, em in S:
                env = dict(env)
                R.count("ways out of the queue decided")
                if st == "?":
                    R.note("%s: what leaves the queue is not recognised" % f.qual)
                    continue
                r = env.get(("ret", G.root.id), "?")
                if out is None:
                    got = r
                else:
                    if r == ("bool", False):
                        if st != "none":
                            bad.add(("taken and refused", "takes a frame set out of the queue and reports that there is none"))
                        continue
                    p = f.params[out]
                    got = env.get(("deref", ("param", out, p["n"])), "?")
                    if r == ("bool", True) and st == "none" and got == "?":
                        bad.add(("nothing delivered", "reports success without taking a frame set out of the queue"))
                        continue
                if got is None:
                    if st != "none":
                        bad.add(("taken and lost", "takes a frame set out of the queue and delivers none"))
                    elif em is not True:
                        bad.add(("nothing delivered", "delivers no frame set although the queue may hold one"))
                    continue
                if isinstance(got, tuple) and got[0] == "el":
                    if got[1] != want:
                        bad.add(("wrong end", "delivers the %s frame set of the queue, not the %s one" % (
                            {"first": "oldest", "last": "newest"}.get(got[1], "wrong"), "oldest" if want == "first" else "newest")))
                    elif st == "none":
                        bad.add(("not removed", "delivers a frame set that stays in the queue"))
                    elif st != drop:
                        bad.add(("wrong removal", "delivers the %s frame set but removes %s" % (
                            "oldest" if want == "first" else "newest",
                            {"all": "all of them", "first": "only the oldest", "last": "only the newest", "more": "more than that one"}.get(st, "another one"))))
                    R.sample("%s: delivers the %s, removes %s" % (f.qual, got[1], st))
                else:
                    R.note("%s: where the delivered frame set comes from is not recognised" % f.qual)
            for c, m in sorted(bad):
                R.violation("taken", f.qual, c, "%s:%d" % (f.file, f.line), "%s %s" % (f.qual, m))


def older_dropped(R, P):
    """taking the newest set drops every set in progress that is not newer"""
    for name in NEW:
        for f, G in P.graphs(name):
            O = Origins(G, P, P.done)
            F = P.F(G)
            busy = ("fld", ("this",), P.busy)
            clears = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and
                      e.node["fn"].endswith("::clear") and P.is_field(G.obj_term(e.frame, e.node["c"][0]), P.done)]
            ops = [(e, fl, d) for e, fl, d in writes_in(G, P.rec, {P.busy}, P.CL)]

            def newest(fr, nid, at):
                S = O.IN.get(at, frozenset())
                return bool(S) and all(O.value(dict(env), fr, nid) == ("key", "last") for env, st, em in S if st in ("all", "more")) and \
                    any(st in ("all", "more") for env, st, em in S)

            def passes(ev, c):
                """the branch says that no older set in progress is left"""
                if c is None or c[0] != "if":
                    return False
                return says(ev, c[1], c[2], c[3])

            def says(ev, fr, nid, pol):
                nid = O.strip(fr, nid)
                n = fr.fn.nodes[nid]
                if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
                    x = [says(ev, fr, y, pol) for y in n["c"]]
                    return any(x) if pol == (n["op"] == "&&") else all(x)
                while n["k"] == "UnaryOperator" and n["op"] == "!":
                    pol = not pol
                    nid = O.strip(fr, n["c"][0])
                    n = fr.fn.nodes[nid]
                t = F.cond_term(fr, nid)
                if t[0] == "m" and t[1] == "empty" and t[2] == busy:
                    return pol
                if t[0] == "bin" and t[1] in ("==", "!=") and any(x[0] == "m" and x[1] in ("end", "cend") and x[2] == busy for x in t[2:4]):
                    return pol == (t[1] == "==")
                if n["k"] == "BinaryOperator" and n["op"] in ("<", "<=", ">", ">="):
                    a, b = n["c"]
                    op = n["op"] if pol else {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[n["op"]]
                    if newest(fr, a, ev.id):
                        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                    if newest(fr, b, ev.id):
                        return op == ">"
                return False

            def bulk(e):
                n = e.node
                if n["k"] != "CXXMemberCallExpr" or len([x for x in n["c"][1:] if x >= 0]) != 2:
                    return False
                t = G.term(e.frame, n["c"][2])
                return t[0] == "m" and t[1] == "upper_bound"

            for cl in clears:
                R.count("clearings of the queue decided")
                hit = [e for e, fl, d in ops if e.node["k"] == "CXXMemberCallExpr" and bulk(e)]
                seen, todo, leak = set(), [cl.id], False
                while todo:
                    x = todo.pop()
                    if x in seen or G.ev[x] in hit:
                        continue
                    seen.add(x)
                    if x == G.exit:
                        leak = True
                        break
                    todo += [t for t, c in G.ev[x].succ if not passes(G.ev[x], c)]
                if leak:
                    R.violation("older-dropped", f.qual, "older sets in progress stay", cl.where(),
                                "%s delivers the newest frame set, but a way to its end leaves sets in progress that are not newer" % f.qual)
            for e, fl, d in ops:
                if d != "down" or bulk(e):
                    continue
                S = F.at(e.id)
                n = e.node
                a = [x for x in n["c"][1:] if x >= 0] if n["k"] == "CXXMemberCallExpr" else []
                if len(a) != 1 or S is None:
                    if n["k"] == "CXXMemberCallExpr" and n["fn"].endswith("::clear"):
                        R.violation("older-dropped", f.qual, "newer sets dropped", e.where(), "%s drops every set in progress, also newer ones" % f.qual)
                    continue
                R.count("removals of sets in progress decided")
                it = G.term(e.frame, a[0])
                key = ("fld", deref(it), "first")
                ok = any(x[0] == "le" and x[1] == key and x[3] <= 0 for x in S)
                if not ok:
                    R.violation("older-dropped", f.qual, "newer sets dropped", e.where(),
                                "%s drops a set in progress without having found that it is not newer than the delivered one" % f.qual)


def completed(R, P):
    """a set enters the queue only when complete, oldest first, and leaves the sets in progress"""
    n = 0
    for f, G in P.CL.gs:
        ins = [e for e, fl, d in writes_in(G, P.rec, {P.done}, P.CL) if d == "up"]
        if not ins:
            continue
        F = P.F(G)
        O = Origins(G, P, P.busy, status=False)
        for e in ins:
            n += 1
            R.count("entries into the queue decided")
            c = e.node["c"]
            a = [x for x in c[1:] if x >= 0]
            S = O.IN.get(e.id, frozenset())
            vs = {O.value(dict(env), e.frame, a[0]) for env, st, em in S} if len(a) == 1 else \
                {O.value(dict(env), e.frame, a[1]) for env, st, em in S} if len(a) == 2 else {"?"}
            if len(a) == 1 and vs == {"?"}:
                # make_pair(it->first, it->second)
                m = e.frame.fn.nodes[O.strip(e.frame, a[0])]
                x = [y for y in m["c"] if y >= 0]
                if len(x) >= 2:
                    vs = {O.value(dict(env), e.frame, x[-1]) for env, st, em in S}
            if any(v in (("it", "other"), ("el", "other"), ("it", "last"), ("el", "last")) for v in vs):
                R.violation("completed", f.qual, "overtakes", e.where(),
                            "a frame set enters the queue of completed sets although an older one is still in progress")
            elif not vs or not all(v in (("it", "first"), ("el", "first")) for v in vs):
                R.note("%s: which frame set enters the queue is not recognised" % e.where())
            fs = F.at(e.id) or frozenset()
            fin = [x for x in fs if x[0] == "T" and x[1][0] == "m" and x[1][1] == "areAllFramesSet"]
            ret = {}
            for x in fs:
                if x[0] == "T" and x[1][0] == "ret":
                    fr = next((q for q in G.frames if q.id == x[1][1]), None)
                    if fr is not None and fr.fn.short == "areAllFramesSet":
                        fin.append(x)
            if not fin and not asked(G, F, e):
                R.violation("completed", f.qual, "incomplete", e.where(),
                            "a frame set enters the queue of completed sets on a path on which it was not found to be complete")
            # and it leaves the sets in progress before the function ends
            outs = {x.id for x, fl, d in writes_in(G, P.rec, {P.busy}, P.CL) if d == "down"}
            r = reachable(G, e.id, stop=lambda ev: ev.id in outs)
            if G.exit in r:
                R.violation("completed", f.qual, "stays in progress", e.where(),
                            "a frame set enters the queue of completed sets and stays among those in progress")
    R.need(n, "a place where completed frame sets enter the queue")


def asked(G, F, e):
    """every path to e passes, last of all tests of completeness, one that answered yes"""
    good, bad = set(), set()
    for x in G.live:
        for t, c in G.ev[x].succ:
            if c is None or c[0] != "if":
                continue
            fr, nid, pol = c[1], c[2], c[3]
            n = fr.fn.nodes[nid]
            while n["k"] == "UnaryOperator" and n["op"] == "!":
                pol, nid = not pol, n["c"][0]
                n = fr.fn.nodes[nid]
            if n["k"] == "DeclRefExpr":
                r = G._lookup(fr, n["d"])
                if r and r[0] == "decl" and r[2].get("init") is not None:
                    fr, nid = r[1], r[2]["init"]
                    n = fr.fn.nodes[nid]
            if n["k"] == "CXXMemberCallExpr" and short(strip_tmpl(n.get("fn", ""))) == "areAllFramesSet":
                (good if pol else bad).add((x, t))
    # backwards from e: reaching a loop's re-entry or the function's start without a yes
    seen, todo = set(), [e.id]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == G.entry:
            return False
        for p, c in G.ev[x].pred:
            if (p, x) in bad:
                return False
            if (p, x) not in good:
                todo.append(p)
    return True


def offered(R, P):
    """the image is handed to the workers exactly once, unless the call reports that it was not"""
    for name in OFFER:
        gs = P.graphs(name)
        R.need(gs, CLS + "::" + name)
        for f, G in gs:
            F = P.F(G)
            calls = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] in ("CXXMemberCallExpr", "CallExpr") and
                     short(strip_tmpl(e.node.get("fn", ""))) in ("enqueue", "enqueueOrdered") and "ThreadPool" in e.node.get("fn", "") and "ThreadPool" not in e.frame.fn.qual]
            R.need(calls, "%s hands its image to the thread pool" % f.qual)
            ids = {e.id for e in calls}
            R.count("ways to hand over an image decided")
            for e in calls:
                if [x for x in reachable(G, e.id, stop=lambda ev: ev.id in ids and ev.id != e.id) if x in ids and x != e.id] or in_loop(G, e.id):
                    R.violation("offered", f.qual, "twice", e.where(), "%s may hand the same image to the workers twice" % f.qual)
                a = [x for x in e.node["c"][1:] if x >= 0]
                ts = [strip_addr(G.term(e.frame, x)) for x in a[-3:]]
                want = [("param", i, f.params[i]["n"]) for i in range(3)]
                if len(ts) == 3 and all(t[0] == "param" for t in ts) and ts != want:
                    R.violation("offered", f.qual, "arguments", e.where(), "%s hands over another camera index, image or time than it was given" % f.qual)
            bound = f.params[3] if len(f.params) > 3 else None
            quiet = reachable(G, G.entry, stop=lambda ev: ev.id in ids, edge_ok=lambda x, t, c: not shut(F, c, P))
            if G.exit in quiet:
                R.violation("offered", f.qual, "lost", calls[0].where(), "%s may end without handing its image to the workers although the pipeline was not shut down" % f.qual)
            if bound is not None and f.short == "processImageBlockingIfFull":
                for e in calls:
                    S = F.at(e.id)
                    if S is not None and not F.entails_le(S, ("size", ("fld", ("this",), P.done)), ("param", 3, bound["n"]), -1):
                        R.violation("offered", f.qual, "beyond the limit", e.where(),
                                    "%s hands over an image on a path on which the queue was not found below its limit" % f.qual)


def strip_addr(t):
    while t[0] == "ctor" and len(t) == 3 and isinstance(t[2], tuple):
        t = t[2]
    return t


def in_loop(G, x):
    return x in reachable(G, [t for t, c in G.ev[x].succ][0]) if G.ev[x].succ else False


def shut(F, c, P):
    if c is None or c[0] != "if":
        return False
    t, pol = F.cond_term(c[1], c[2]), c[3]
    while t[0] == "un" and t[1] == "!":
        t, pol = t[2], not pol
    if t[0] == "m" and t[1] in ("load", "operator bool") or t[0] == "m" and t[1].startswith("operator "):
        t = t[2]
    return pol and t == ("fld", ("this",), P.flag)


def released(R, P):
    """a blocking call refuses only after shutdown"""
    for name in OLD[1:] + NEW[1:] + OFFER[1:2]:
        for f, G in P.graphs(name):
            F = P.F(G)
            O = Origins(G, P, P.done)
            no = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "ReturnStmt" and e.frame is G.root and
                  e.node["c"] and f.nodes[O.strip(G.root, e.node["c"][0])]["k"] == "CXXBoolLiteralExpr" and
                  not int(f.nodes[O.strip(G.root, e.node["c"][0])].get("v", 0))]
            R.count("refusals decided", len(no))
            r = reachable(G, G.entry, edge_ok=lambda x, t, c: not shut(F, c, P))
            for e in no:
                if e.id in r:
                    R.violation("released", f.qual, "refused", e.where(), "%s may report a shutdown although there was none" % f.qual)


def indexed(R, P):
    """the camera index selects pipeline and frame only inside the rig"""
    n = 0
    for f, G in P.CL.gs:
        F = P.F(G)
        for e in G.ev:
            if e.id not in G.live or e.kind != "stmt" or e.frame is not G.root:
                continue
            m = e.node
            if m["k"] == "CXXOperatorCallExpr" and m["op"] == "[]" and len(m["c"]) > 2:
                obj, ix = G.term(G.root, m["c"][1]), G.term(G.root, m["c"][2])
                if obj[0] == "fld" and obj[1] == ("this",) and "VisualPipeline" in field_type(P, obj[2]) and ix[0] == "param":
                    n += 1
                    R.count("uses of the camera index decided")
                    S = F.at(e.id)
                    if S is not None and not F.entails_le(S, ix, ("size", obj), -1):
                        R.violation("indexed", f.qual, "camera index", e.where(),
                                    "the camera index selects a pipeline on a path on which it was not found to be below their number")
            if m["k"] == "CXXMemberCallExpr" and short(m.get("fn", "")) == "processImage":
                o = G.obj_term(G.root, m["c"][0])
                sets = [x for x in G.ev if x.id in G.live and x.kind == "stmt" and x.node["k"] == "CXXMemberCallExpr" and
                        short(x.node.get("fn", "")) == "setFrame" and x.frame is G.root]
                sel = [y for y in subterms(o) if y[0] == "idx"]
                for x in sets:
                    k = G.term(G.root, x.node["c"][1])
                    if sel and k[0] == "param" and sel[0][2][0] == "param" and k != sel[0][2]:
                        R.violation("indexed", f.qual, "frame of another camera", x.where(), "the frame is stored under another camera than the one that processed it")
    if not n:
        R.note("no use of the camera index recognised")


def field_type(P, name):
    return next((f["t"] for f in P.rec["fields"] if f["n"] == name), "")


def P21(R):
    P = Pipeline(R)
    R.rule("wait-loop", "each wait of the pipeline holds its mutex and re-tests its condition over shared state")
    R.rule("notify", "each change of the queue or of the shutdown flag that can release a waiter is made under the waiter's mutex, or "
           "followed by taking it, and is followed by a notification on every feasible path")
    R.rule("taken", "getNext… delivers the oldest completed set and removes just it; getLatest… delivers the newest and empties the queue; "
           "nothing is delivered only where the queue was found empty")
    R.rule("older-dropped", "together with the newest set, the sets in progress that are not newer are dropped, and no newer one")
    R.rule("completed", "a set enters the queue only when found complete and no older one is in progress, and is then no longer in progress")
    R.rule("offered", "an image is handed to the workers exactly once unless the pipeline was shut down, below the limit where the call waits for it")
    R.rule("released", "a blocking call refuses only after the shutdown flag was seen set")
    R.rule("indexed", "the camera index is below the number of pipelines where it selects one, and the frame is stored under the same index")
    cv_discipline(R, P.CL, "wait-loop", "notify", own=True)
    taken(R, P)
    older_dropped(R, P)
    completed(R, P)
    offered(R, P)
    released(R, P)
    indexed(R, P)
    R.atleast("wait sites", 2)
    R.atleast("state changes checked for a notification", 8)
    R.atleast("ways out of the queue decided", 4)


CHECKS = {"P21": P21}
