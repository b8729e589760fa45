"""Canonical terms and the inlined control-flow graph of an entry function.

A term is a nested tuple describing a value or a storage location:
  ('this',)                      the object the entry method runs on
  ('param', i, name)             parameter i of the entry
  ('var', frame, decl, name)     a local variable
  ('fld', base, name)            field of the object `base`
  ('deref', p) / ('addr', o)
  ('idx', base, i...)            operator[], at(), operator()
  ('size', base)                 size()/length()
  ('int', n) ('str', s) ('null',) ('enum', q) ('glob', q)
  ('bin', op, a, b) ('un', op, a) ('cond', c, a, b)
  ('m', name, base, args...)     member call      ('call', name, args...)  other call
  ('new', ...) ('lambda', key) ('ctor', type, args...)  ('iter', container, uid) ('elem', container, uid)
  ('unk', frame, nid)
"""
import itertools
from .ir import short, strip_tmpl, relp, AnalysisError

INPLACE = {"all_of", "any_of", "none_of", "for_each", "find_if", "find_if_not", "count_if", "sort", "stable_sort",
           "remove_if", "transform", "accumulate", "copy_if", "generate", "generate_n", "partition", "stable_partition",
           "min_element", "max_element", "lower_bound", "upper_bound", "nth_element", "partial_sort", "equal",
           "remove_copy_if", "replace_if", "call_once", "adjacent_find", "binary_search", "is_sorted", "unique",
           "mismatch", "search", "iota", "inner_product"}
CV_WAIT = {"wait", "wait_for", "wait_until"}
# algorithm -> (predicate value that continues, truth of the result when stopped early)
SHORT_CIRCUIT = {"all_of": (True, False), "any_of": (False, True), "none_of": (False, False), "find_if": (False, True),
                 "find_if_not": (True, True)}
GUARD_TYPES = ("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<")


def is_cv_type(t):
    return "condition_variable" in t


def is_mutex_type(t):
    t = t.replace("volatile ", "").replace("const ", "")
    return t in ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::recursive_timed_mutex",
                 "std::shared_timed_mutex", "std::shared_mutex")


class Frame:
    __slots__ = ("fn", "parent", "call", "id", "this", "binds", "memo", "depth", "outer", "G", "ret")
    _ids = itertools.count()

    def __init__(self, G, fn, parent=None, call=None, this=None, outer=None):
        self.G = G
        self.fn = fn
        self.parent = parent
        self.call = call
        self.id = next(Frame._ids)
        self.this = this
        self.binds = {}
        self.memo = {}
        self.depth = 0 if parent is None else parent.depth + 1
        self.outer = outer

    def chain(self):
        f = self
        while f:
            yield f
            f = f.parent

    def path(self):
        return " <- ".join("%s" % f.fn.short for f in self.chain())


def deref(t):
    if t[0] == "addr":
        return t[1]
    if t[0] == "iter":
        return ("elem", t[1], t[2])
    return ("deref", t)


def addr(t):
    if t[0] == "deref":
        return t[1]
    return ("addr", t)


WRAP_FNS = {"std::move", "std::forward", "google::CheckNotNull", "google::GetReferenceableValue",
            "google::logging_internal::CheckNotNull"}
CASTS = {"CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr"}
STABLE_SCALAR = ("bool", "int", "long", "unsigned", "char", "short", "float", "double", "size_t")


MUTABLE = ("fld", "size", "deref", "idx", "elem", "m", "glob", "iter")


class Ev:
    __slots__ = ("id", "frame", "kind", "nid", "d", "succ", "pred")

    def __init__(self, i, frame, kind, nid=None, d=None):
        self.id = i
        self.frame = frame
        self.kind = kind
        self.nid = nid
        self.d = d
        self.succ = []  # (target id, cond or None)
        self.pred = []

    @property
    def node(self):
        return self.frame.fn.nodes[self.nid] if self.nid is not None and self.nid >= 0 else None

    @property
    def line(self):
        if self.nid is not None and self.nid >= 0:
            return self.frame.fn.nodes[self.nid].get("l")
        if self.d:
            return self.d.get("l")
        return self.frame.fn.line

    def where(self):
        l = self.line or self.frame.fn.line
        return "%s:%d" % (relp(self.frame.fn.file), l)


class Graph:
    """Inlined event graph of one entry function."""

    def __init__(self, prog, entry, depth=8, inline=None, max_events=60000, volatile=False, enum_int=False):
        self.enum_int = enum_int
        self.volatile = volatile
        self.prog = prog
        self.maxdepth = depth
        self.inline_pred = inline
        self.max_events = max_events
        self.ev = []
        self.frames = []
        self.truncated = []
        self.inlined = set()
        self.root = Frame(self, entry)
        if entry.rec and not entry.d.get("static"):
            self.root.this = ("this",)
        for i, p in enumerate(entry.params):
            self.root.binds[p["d"]] = ("param", i, p["n"])
        self.entry = self._new(self.root, "entry")
        first, last = self._build(self.root)
        self.exit = self._new(self.root, "exit")
        self._edge(self.entry, first)
        self._edge(last, self.exit)
        for e in self.ev:
            for t, c in e.succ:
                self.ev[t].pred.append((e.id, c))
        self._reach()

    def _reach(self):
        seen = set()
        st = [self.entry]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for t, c in self.ev[x].succ:
                st.append(t)
        self.live = seen
        for e in self.ev:
            e.pred = [(p, c) for p, c in e.pred if p in seen]

    def _new(self, frame, kind, nid=None, d=None):
        if len(self.ev) > self.max_events:
            raise AnalysisError("inlined graph of %s too large" % self.root.fn.name)
        e = Ev(len(self.ev), frame, kind, nid, d)
        self.ev.append(e)
        return e.id

    def _edge(self, a, b, cond=None):
        self.ev[a].succ.append((b, cond))

    def _lambda_frame(self, frame, key):
        for f in frame.chain():
            g = f
            while g:
                for n in g.fn.nodes:
                    if n["k"] == "LambdaExpr" and n["fk"] == key:
                        return g
                g = g.outer
        return None

    def _callee(self, frame, n):
        """(Fn, this term, outer frame) to inline for call node n, or None"""
        fk = n.get("fk")
        if not fk:
            return None
        prog = self.prog
        fn = prog.fns.get(fk)
        if fn is None or not fn.blocks:
            return None
        if frame.depth >= self.maxdepth:
            self.truncated.append(fn.name)
            return None
        if any(f.fn.key == fk for f in frame.chain()):
            return None
        if self.inline_pred and not self.inline_pred(fn, frame):
            return None
        this = None
        outer = None
        if fn.kind == "lambda":
            outer = self._lambda_frame(frame, fk)
            if outer is None:
                return None
            this = outer.this
        elif n["k"] == "CXXMemberCallExpr":
            me = frame.fn.nodes[n["c"][0]]
            if me["k"] != "MemberExpr":
                return None
            obj = self.obj_term(frame, n["c"][0])
            this = obj
            if n.get("virt") and not me.get("qual"):
                ov = [o for o in prog.overriders.get(fk, ()) if o != fk]
                if ov:
                    return None
        elif n["k"] == "CXXOperatorCallExpr" and n.get("rec"):
            this = self.term(frame, n["c"][1])
            if n.get("virt") and prog.overriders.get(fk):
                return None
        elif n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            this = self._construct_target(frame, n)
        elif n["k"] == "CallExpr" and fn.rec and not fn.d.get("static"):
            return None
        return fn, this, outer

    def _construct_target(self, frame, n):
        # object under construction: the declared variable when the parent is a DeclStmt
        nid = None
        for i, m in enumerate(frame.fn.nodes):
            if m is n:
                nid = i
                break
        for p in frame.fn.parents.get(nid, []):
            pn = frame.fn.nodes[p]
            if pn["k"] == "DeclStmt":
                for d in pn["decls"]:
                    if d.get("init") == nid:
                        return ("var", frame.id, d["d"], d["n"])
        return ("tmpobj", frame.id, nid)

    def _bind(self, nf, fn, frame, args):
        for i, p in enumerate(fn.params):
            if i < len(args):
                nf.binds[p["d"]] = (frame, args[i])

    def _splice(self, cur, frame, nid, fn, this, outer, args):
        nf = Frame(self, fn, frame, nid, this, outer)
        self.frames.append(nf)
        self.inlined.add(fn.key)
        self._bind(nf, fn, frame, args)
        en = self._new(nf, "enter", None, {"call": nid, "l": fn.line})
        self._edge(cur, en)
        first, last = self._build(nf)
        self._edge(en, first)
        lv = self._new(frame, "leave", nid, {"frame": nf})
        self._edge(last, lv)
        return lv

    def _build(self, frame):
        fn = frame.fn
        start = {}
        ends = {}
        first = self._new(frame, "begin")
        last = self._new(frame, "end")
        for b in fn.blocks:
            start[b["id"]] = self._new(frame, "block", None, {"b": b["id"], "l": None})
        for b in fn.blocks:
            cur = start[b["id"]]
            dead = False
            for el in b["el"]:
                if dead:
                    break
                if isinstance(el, dict):
                    if "dtor" in el:
                        e = self._new(frame, "dtor", None, el)
                        self._edge(cur, e)
                        cur = e
                        dfn = self.prog.fns.get(el.get("fk"))
                        if dfn is not None and dfn.blocks and frame.depth < self.maxdepth and \
                                not any(f.fn.key == dfn.key for f in frame.chain()):
                            cur = self._splice(cur, frame, None, dfn, self.var_term(frame, el["dtor"], el["n"]), None, [])
                    elif "tdtor" in el:
                        e = self._new(frame, "tdtor", el["e"], el)
                        self._edge(cur, e)
                        cur = e
                        if "LogMessageFatal" in el["tdtor"]:
                            dead = True
                    else:
                        e = self._new(frame, "init", el.get("e"), el)
                        self._edge(cur, e)
                        cur = e
                    continue
                n = fn.nodes[el]
                e = self._new(frame, "stmt", el)
                self._edge(cur, e)
                cur = e
                k = n["k"]
                if k == "CXXThrowExpr":
                    dead = True
                    continue
                if n.get("noret"):
                    dead = True
                    continue
                if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "LogMessageFatal" in n["t"]:
                    dead = True  # the message is the last thing that happens
                    continue
                if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
                         "CXXTemporaryObjectExpr"):
                    c = self._callee(frame, n)
                    if c:
                        f2, this, outer = c
                        args = self._args(n, f2)
                        cur = self._splice(cur, frame, el, f2, this, outer, args)
                    else:
                        cur = self._callbacks(cur, frame, el, n)
            ends[b["id"]] = (cur, dead)
        for b in fn.blocks:
            cur, dead = ends[b["id"]]
            if dead or b.get("noret"):
                continue
            if b["id"] == fn.exit:
                self._edge(cur, last)
                continue
            succ = b["succ"]
            term = b.get("term")
            if term and term["k"] == "SwitchStmt":
                seen = []
                for s in succ:
                    if s is None:
                        continue
                    lab = fn.bmap[s].get("label") or {}
                    v = lab.get("v") if lab.get("k") == "case" else None
                    cond = ("switch", frame, term.get("cond"), v)
                    self._edge(cur, start[s], cond)
            elif len(succ) == 2 and term and "cond" in term and not term.get("tmpdtor"):
                for s, pol in zip(succ, (True, False)):
                    if s is not None:
                        self._edge(cur, start[s], ("if", frame, term["cond"], pol))
            else:
                for s in succ:
                    if s is not None:
                        self._edge(cur, start[s])
                        if term and term["k"] == "CXXTryStmt":
                            pass
        self._edge(first, start[fn.entry])
        return first, last

    def _args(self, n, fn):
        c = n["c"]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return c
        if n["k"] == "CXXOperatorCallExpr":
            if n.get("rec"):
                return c[2:]
            return c[1:]
        return c[1:]

    def find_lambda(self, frame, nid, depth=0):
        """LambdaExpr reachable from an argument expression -> (frame, node) or None"""
        if depth > 6:
            return None
        n = frame.fn.nodes[nid]
        k = n["k"]
        if k == "LambdaExpr":
            return frame, n
        if k == "DeclRefExpr" and n.get("dk") in ("local", "param"):
            r = self._lookup(frame, n["d"])
            if r and r[0] == "bind":
                f2, a = r[1]
                return self.find_lambda(f2, a, depth + 1)
            if r and r[0] == "decl":
                f2, d = r[1], r[2]
                if d.get("init") is not None:
                    return self.find_lambda(f2, d["init"], depth + 1)
            return None
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") or \
                (k == "CallExpr" and n.get("fn") in WRAP_FNS):
            for c in n["c"]:
                if c >= 0:
                    r = self.find_lambda(frame, c, depth + 1)
                    if r:
                        return r
        return None

    def _callbacks(self, cur, frame, el, n):
        name = n.get("fn", "")
        s = short(name)
        ok = (name.startswith("std::") and s in INPLACE) or \
             (n["k"] == "CXXMemberCallExpr" and s in CV_WAIT and is_cv_type(n.get("rec", "")))
        if not ok:
            return cur
        lam = []
        for a in n["c"][1:]:
            if a >= 0:
                r = self.find_lambda(frame, a)
                if r:
                    lam.append(r)
        if not lam:
            return cur
        # call; then the callable any number of times; then continue
        is_wait = s in CV_WAIT
        res = None
        head = self._new(frame, "cbhead", el, {"wait": is_wait})
        self._edge(cur, head)
        out = self._new(frame, "cbend", el)
        for (of, ln) in lam:
            fn = self.prog.fns.get(ln["fk"])
            if not fn or not fn.blocks or frame.depth >= self.maxdepth:
                continue
            nf = Frame(self, fn, frame, el, of.this, of)
            self.frames.append(nf)
            self.inlined.add(fn.key)
            cont = None if is_wait else self._range_args(frame, n)
            if cont is not None and fn.params:
                nf.binds[fn.params[0]["d"]] = ("elem", cont, (frame.id, el))
            first, last = self._build(nf)
            en = self._new(nf, "enter", None, {"call": el, "l": fn.line, "over": cont})
            self._edge(head, en)
            self._edge(en, first)
            lv = self._new(frame, "leave", el, {"frame": nf, "cb": True})
            self._edge(last, lv)
            if is_wait:
                self._edge(lv, head, ("ret", nf, False))
                self._edge(lv, out, ("ret", nf, True))
            elif s in SHORT_CIRCUIT and len(lam) == 1:
                go_on, stopped = SHORT_CIRCUIT[s]
                sc = self._new(frame, "cbres", el, {"val": stopped})
                self._edge(lv, head, ("ret", nf, go_on))
                self._edge(lv, sc, ("ret", nf, not go_on))
                self._edge(sc, out)
                res = not stopped
            else:
                self._edge(lv, head)
        if not is_wait:
            ex = self._new(frame, "cbres", el, {"val": res, "over": self._range_args(frame, n)})
            self._edge(head, ex)
            self._edge(ex, out)
        return out

    def _range_args(self, frame, n):
        """container c when the first two arguments are c.begin() and c.end()"""
        if n["k"] != "CallExpr" or len(n["c"]) < 3:
            return None
        a, b = self.term(frame, n["c"][1]), self.term(frame, n["c"][2])
        if a[0] == "m" and b[0] == "m" and a[1] in ("begin", "cbegin") and b[1] in ("end", "cend") and a[2] == b[2]:
            return a[2]
        return None

    # ------------------------------------------------------------------------------------------------ terms
    def _lookup(self, frame, d):
        f = frame
        while f:
            if d in f.binds:
                b = f.binds[d]
                if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], Frame):
                    return ("bind", b, f)
                return ("term", b, f)
            if d in f.fn.decls:
                return ("decl", f, f.fn.decls[d][0])
            if any(p["d"] == d for p in f.fn.params):
                return ("ownparam", f, d)
            f = f.outer
        return None

    def var_term(self, frame, d, name, mode="val"):
        r = self._lookup(frame, d)
        if r is None:
            return ("var", frame.id, d, name)
        if r[0] == "term":
            own = r[2].fn.writes.get(d, [])
            return r[1]
        if r[0] == "bind":
            (f2, a), owner = r[1], r[2]
            p = next((p for p in owner.fn.params if p["d"] == d), None)
            wr = [k for k, i in owner.fn.writes.get(d, []) if k in ("write", "addr", "capture")]
            if p and not p.get("ref") and wr:
                return ("var", owner.id, d, name)
            if p and not p.get("ref") and not p.get("ptr") and not self._scalar(p["t"]):
                # by-value object parameter: a copy, but equal to the argument
                wr2 = owner.fn.writes.get(d, [])
                if wr2:
                    return ("var", owner.id, d, name)
            return self.term(f2, a, mode)
        if r[0] == "ownparam":
            return ("var", r[1].id, d, name)
        f2, dd = r[1], r[2]
        own = ("var", f2.id, d, name)
        init = dd.get("init")
        if dd.get("static"):
            return ("var", "static " + f2.fn.qual, 0, name)  # one object for all calls
        if init is None:
            return own
        t = dd["t"]
        if dd.get("ref") or t.startswith("google::CheckOpString"):
            return self.term(f2, init, mode)
        if dd.get("impl") and dd["n"].startswith("__begin"):
            c = self._range_of(f2, init)
            if c is not None:
                return ("iter", c, (f2.id, d))
        w = f2.fn.writes.get(d, [])
        hard = [k for k, i in w if k in ("write", "addr", "refarg", "refbind", "capture", "mut")]
        if hard and "iterator" in t and all(self._is_increment(f2.fn, i) for k, i in w if k == "write") and \
                not any(k in ("addr", "refarg", "refbind", "capture", "mut") for k in hard):
            x = self.term(f2, init, mode)
            if x[0] == "m" and x[1] in ("begin", "cbegin"):
                return ("iter", x[2], (f2.id, d))
        if hard:
            return own
        if t.endswith(("*", "*const")) or "* const" in t or "iterator" in t or "shared_ptr" in t:
            x = self.term(f2, init, mode)
            if x[0] in ("new", "ctor"):
                return own
            return x
        if mode == "val" and self._scalar(t):
            x = self.term(f2, init, mode)
            if self._pure(x) and not (self.volatile and any(y[0] in MUTABLE for y in subterms(x))):
                return x
        return own

    @staticmethod
    def _is_increment(fn, nid):
        ps = fn.parents.get(nid, [])
        return bool(ps) and all(fn.nodes[p]["k"] in ("CXXOperatorCallExpr", "UnaryOperator", "DeclStmt") and
                                fn.nodes[p].get("op") == "++" for p in ps if fn.nodes[p].get("op") in
                                ("++", "--", "=", "+=", "-=")) and \
            any(fn.nodes[p].get("op") == "++" for p in ps)

    def _range_of(self, f, nid):
        n = f.fn.nodes[nid]
        while n["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr") and len(n["c"]) == 1:
            nid = n["c"][0]
            n = f.fn.nodes[nid]
        if n["k"] == "CXXMemberCallExpr" and short(n.get("fn", "")) == "begin":
            return self.obj_term(f, n["c"][0])
        if n["k"] == "CallExpr" and n.get("fn", "").endswith("begin") and len(n["c"]) == 2:
            return self.term(f, n["c"][1])
        if n["k"] == "DeclRefExpr":
            return self.term(f, nid)
        return None

    @staticmethod
    def _scalar(t):
        t = t.replace("const ", "").replace("volatile ", "").strip()
        return t in ("bool", "int", "long", "unsigned int", "unsigned long", "char", "unsigned char", "short",
                     "unsigned short", "float", "double", "long long", "unsigned long long", "signed char") or \
            t.startswith("Eigen::Index")

    def _pure(self, t):
        if t[0] in ("unk", "new", "lambda", "ctor", "tmpobj", "post", "assigned"):
            return False
        if t[0] in ("call",):
            return t[1] in ("std::min", "std::max", "std::abs", "sizeof", "std::distance", "std::floor", "std::ceil")
        return all(self._pure(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    def obj_term(self, frame, me):
        """object a member call through MemberExpr node `me` acts on"""
        n = frame.fn.nodes[me]
        if n["k"] != "MemberExpr":
            return ("unk", frame.id, me)
        b = self.term(frame, n["c"][0])
        return deref(b) if n.get("arrow") else b

    def term(self, frame, nid, mode="val"):
        key = (nid, mode)
        m = frame.memo.get(key)
        if m is not None:
            return m
        frame.memo[key] = ("unk", frame.id, nid)  # cycles
        t = self._term(frame, nid, mode)
        frame.memo[key] = t
        return t

    def _term(self, frame, nid, mode):
        if nid is None or nid < 0:
            return ("none",)
        fn = frame.fn
        n = fn.nodes[nid]
        k = n["k"]
        T = lambda c: self.term(frame, c, mode)
        c = n["c"]
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("local", "param", "static", "binding", "other"):
                if "cv" in n:
                    return ("int", int(n["cv"]))
                return self.var_term(frame, n["d"], n["n"], mode)
            if dk == "enumc":
                if self.enum_int and "cv" in n:
                    return ("int", int(n["cv"]))
                return ("enum", n["q"])
            if dk == "func":
                return ("func", n.get("fn"))
            if "cv" in n:
                return ("int", int(n["cv"]))
            return ("glob", n.get("q", n["n"]))
        if k == "MemberExpr":
            if n.get("mk") == "field":
                b = T(c[0])
                if n.get("arrow"):
                    b = deref(b)
                return ("fld", b, n["n"])
            if n.get("mk") == "staticfield":
                if "cv" in n:
                    return ("int", int(n["cv"]))
                return ("glob", n["q"])
            return ("m", n["n"], self.obj_term(frame, nid))
        if k == "CXXThisExpr":
            return addr(frame.this) if frame.this else ("unk", frame.id, nid)
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
            v = int(n["v"])
            if n.get("t") == "int" and v >= 1 << 31:
                v -= 1 << 32
            elif n.get("t") in ("long", "long long") and v >= 1 << 63:
                v -= 1 << 64
            return ("int", v)
        if k == "FloatingLiteral":
            return ("float", n["v"])
        if k == "StringLiteral":
            return ("str", n["v"])
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("null",)
        if k == "UnaryExprOrTypeTraitExpr":
            return ("sizeof", n.get("ut", ""), n.get("cv", ""))
        if k == "UnaryOperator":
            op = n["op"]
            a = T(c[0])
            if op == "*":
                return deref(a)
            if op == "&":
                return addr(a)
            if op in ("++", "--"):
                if n.get("post"):
                    return ("post", op, a, frame.id, nid)
                return a
            if op == "-" and a[0] == "int":
                return ("int", -a[1])
            if op == "+":
                return a
            return ("un", op, a)
        if k == "BinaryOperator":
            op = n["op"]
            if op == "=":
                return T(c[0])
            if op == ",":
                return T(c[1])
            a, b = T(c[0]), T(c[1])
            if a[0] == "int" and b[0] == "int":
                try:
                    r = {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1],
                         "<<": a[1] << b[1] if 0 <= b[1] < 64 else None}.get(op)
                    if r is not None:
                        return ("int", r)
                except Exception:
                    pass
            return ("bin", op, a, b)
        if k == "CompoundAssignOperator":
            return T(c[0])
        if k == "ArraySubscriptExpr":
            return ("idx", T(c[0]), T(c[1]))
        if k in ("ConditionalOperator", "BinaryConditionalOperator"):
            if len(c) == 3:
                return ("cond", T(c[0]), T(c[1]), T(c[2]))
            return ("unk", frame.id, nid)
        if k in CASTS:
            return T(c[0]) if c else ("unk", frame.id, nid)
        if k == "CXXDynamicCastExpr":
            return ("dyncast", n["tw"], T(c[0]))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if n.get("cc") in ("copy", "move") and c:
                return T(c[0])
            if len(c) == 1 and ("iterator" in n["t"] or "shared_ptr" in n["t"] or "weak_ptr" in n["t"]):
                return T(c[0])
            return ("ctor", strip_tmpl(n["t"])) + tuple(T(x) for x in c) + ((frame.id, nid),) if not c else \
                ("ctor", strip_tmpl(n["t"])) + tuple(T(x) for x in c)
        if k == "CXXNewExpr":
            return ("new", n["at"], bool(n.get("arr")), frame.id, nid)
        if k == "LambdaExpr":
            return ("lambda", n["fk"])
        if k == "CXXOperatorCallExpr":
            op = n.get("op")
            a = c[1:]
            if op == "->":
                return T(a[0])
            if op == "*" and len(a) == 1:
                return deref(T(a[0]))
            if op == "&" and len(a) == 1:
                return addr(T(a[0]))
            if op == "[]":
                r = self._inline_ret(frame, nid, n, mode)
                if r is not None:
                    return r
                return ("idx", T(a[0]), T(a[1]))
            if op == "()":
                fnl = self.prog.fns.get(n.get("fk"))
                if fnl is not None:
                    r = self._inline_ret(frame, nid, n, mode)
                    if r is not None:
                        return r
                    return ("call", n.get("fn", "?")) + tuple(T(x) for x in a)
                return ("idx",) + tuple(T(x) for x in a)
            if op == "=":
                return T(a[0])
            if op in ("++", "--"):
                if len(a) == 2:
                    return ("post", op, T(a[0]), frame.id, nid)
                return T(a[0])
            if op in ("+=", "-=", "*=", "/=", "|=", "&=", "<<=", "^="):
                return T(a[0])
            r = self._inline_ret(frame, nid, n, mode)
            if r is not None:
                return r
            if len(a) == 2:
                return ("bin", op, T(a[0]), T(a[1]))
            if len(a) == 1:
                return ("un", op, T(a[0]))
            return ("call", n.get("fn", "?")) + tuple(T(x) for x in a)
        if k == "CXXMemberCallExpr":
            me = fn.nodes[c[0]]
            if me["k"] != "MemberExpr":
                return ("unk", frame.id, nid)
            obj = self.obj_term(frame, c[0])
            nm = me["n"]
            std = not me.get("repo")
            if std:
                if nm in ("size", "length") and len(c) == 1:
                    return ("size", obj)
                if nm == "empty" and len(c) == 1:
                    return ("bin", "==", ("size", obj), ("int", 0))
                if nm == "get" and len(c) == 1 and ("_ptr" in me.get("rec", "") or "cv::Ptr" in me.get("rec", "")):
                    return obj
                if nm in ("at", "coeff", "coeffRef"):
                    return ("idx", obj) + tuple(T(x) for x in c[1:])
                if nm == "operator bool" or nm.startswith("operator "):
                    return obj
                if nm == "load" and "atomic" in me.get("rec", ""):
                    return obj
            r = self._inline_ret(frame, nid, n, mode)
            if r is not None:
                return r
            t = ("m", nm, obj) + tuple(T(x) for x in c[1:])
            if not me.get("cm") and not me.get("static"):
                if nm not in ("begin", "end", "find", "front", "back", "data", "second", "first", "count", "rbegin", "rend",
                              "col", "row", "block", "head", "tail", "segment", "array", "matrix", "derived"):
                    if me.get("repo"):
                        return t
                    return t + (("at", frame.id, nid),)
            return t
        if k == "CallExpr":
            name = n.get("fn", "")
            if n.get("builtin") and short(name) == "__builtin_expect":
                return T(c[1])
            if strip_tmpl(name) in WRAP_FNS:
                return T(c[-1])
            if short(name) == "static_pointer_cast" or short(name) == "const_pointer_cast":
                return T(c[1])
            if short(name) in ("dynamic_pointer_cast",):
                return ("dyncast", n["t"], T(c[1]))
            if strip_tmpl(name) == "std::addressof":
                return addr(T(c[1]))
            r = self._inline_ret(frame, nid, n, mode)
            if r is not None:
                return r
            return ("call", strip_tmpl(name) if name else "?") + tuple(T(x) for x in c[1:])
        if k == "InitListExpr":
            if len(c) == 1:
                return T(c[0])
            return ("list",) + tuple(T(x) for x in c)
        if k == "CXXScalarValueInitExpr" or k == "ImplicitValueInitExpr":
            return ("int", 0) if self._scalar(n.get("t", "")) else ("zero", n.get("t", ""))
        if k == "CXXTypeidExpr":
            return ("typeid", n.get("ut") or (T(c[0]) if c else ""))
        if k == "CXXStdInitializerListExpr" and c:
            return T(c[0])
        if k == "CXXDeleteExpr" or k == "CXXThrowExpr":
            return ("unk", frame.id, nid)
        return ("unk", frame.id, nid)

    def _inline_ret(self, frame, nid, n, mode):
        """value of a call to a repository function whose body is a single return expression"""
        fk = n.get("fk")
        fn = self.prog.fns.get(fk) if fk else None
        if fn is None or frame.depth > 12:
            return None
        rn = fn.simple_return()
        if rn is None:
            return None
        if n.get("virt") and [o for o in self.prog.overriders.get(fk, ()) if o != fk]:
            return None
        if any(f.fn.key == fk for f in frame.chain()):
            return None
        save = self.maxdepth
        self.maxdepth = 100
        pred, self.inline_pred = self.inline_pred, None
        try:
            c = self._callee(frame, n)
        finally:
            self.maxdepth = save
            self.inline_pred = pred
        if not c:
            return None
        f2, this, outer = c
        nf = Frame(self, f2, frame, nid, this, outer)
        self._bind(nf, f2, frame, self._args(n, f2))
        return self.term(nf, rn, mode)


# ---------------------------------------------------------------------------------------------------- term helpers
def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subterms(x)


def contains(t, s):
    return any(x == s for x in subterms(t))


def fields_in(t):
    return [x for x in subterms(t) if x[0] == "fld"]


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "this":
        return "*this"
    if k == "param":
        return t[2]
    if k == "var":
        return t[3]
    if k == "fld":
        b = t[1]
        if b == ("this",):
            return t[2]
        if b[0] == "deref":
            return show(b[1]) + "->" + t[2]
        return show(b) + "." + t[2]
    if k == "deref":
        return "*" + show(t[1])
    if k == "addr":
        return "&" + show(t[1])
    if k == "idx":
        return show(t[1]) + "[" + ",".join(show(x) for x in t[2:]) + "]"
    if k == "size":
        return show(t[1]) + ".size()"
    if k == "int":
        return str(t[1])
    if k == "str":
        return '"%s"' % t[1]
    if k == "null":
        return "nullptr"
    if k in ("enum", "glob", "func"):
        return str(t[1])
    if k == "bin":
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "un":
        return "%s%s" % (t[1], show(t[2]))
    if k == "cond":
        return "(%s ? %s : %s)" % tuple(show(x) for x in t[1:4])
    if k == "m":
        return "%s.%s(%s)" % (show(t[2]), t[1], ",".join(show(x) for x in t[3:] if not (x and x[0] == "at")))
    if k == "call":
        return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2:]))
    if k == "elem":
        return "elem(%s)" % show(t[1])
    if k == "iter":
        return "iter(%s)" % show(t[1])
    if k == "ctor":
        return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2:] if x and isinstance(x[0], str)))
    if k == "post":
        return "%s%s" % (show(t[2]), t[1])
    return "<%s>" % k


# ---------------------------------------------------------------------------------------------------- dataflow
def forward(G, init, transfer, join, edge=None, order=None, start=None, stop=None, join_at=None):
    """generic forward worklist; returns IN states (dict ev id -> state)"""
    start = G.entry if start is None else start
    IN = {start: init}
    import heapq
    rpo = rpo_index(G)
    work = [(rpo[start], start)]
    inq = {start}
    first = True
    it = 0
    while work:
        _, x = heapq.heappop(work)
        inq.discard(x)
        it += 1
        if it > 3000000:
            raise AnalysisError("dataflow does not converge")
        if stop is not None and stop(G.ev[x]) and not (first and x == start):
            continue
        first = False
        out = transfer(G.ev[x], IN[x])
        for t, c in G.ev[x].succ:
            s = edge(out, c) if edge and c is not None else out
            if s is None:
                continue
            if t in IN and t != start and len(G.ev[t].pred) == 1:
                if IN[t] == s:
                    continue
                IN[t] = s
            elif t in IN:
                j = join_at(t, IN[t], s) if join_at else join(IN[t], s)
                if j == IN[t]:
                    continue
                IN[t] = j
            else:
                IN[t] = s
            if t not in inq:
                inq.add(t)
                heapq.heappush(work, (rpo[t], t))
    return IN


def rpo_index(G):
    if hasattr(G, "_rpo"):
        return G._rpo
    seen, post = set(), []
    st = [(G.entry, iter(G.ev[G.entry].succ))]
    seen.add(G.entry)
    while st:
        x, it = st[-1]
        adv = False
        for t, c in it:
            if t not in seen:
                seen.add(t)
                st.append((t, iter(G.ev[t].succ)))
                adv = True
                break
        if not adv:
            post.append(x)
            st.pop()
    idx = {x: i for i, x in enumerate(reversed(post))}
    G._rpo = idx
    return idx


def reachable(G, start, stop=lambda e: False, edge_ok=None, back=False):
    """event ids reachable from the successors of `start`, not expanding events for which stop() holds (they are
    included)"""
    seen = set()
    st = [t for t, c in (G.ev[start].pred if back else G.ev[start].succ) if edge_ok is None or edge_ok(start, t, c)]
    while st:
        x = st.pop()
        if x in seen or x not in G.live:
            continue
        seen.add(x)
        if stop(G.ev[x]):
            continue
        for t, c in (G.ev[x].pred if back else G.ev[x].succ):
            if edge_ok is None or edge_ok(x, t, c):
                st.append(t)
    return seen


def must_pass(G, start, targets, pred):
    """True if every path from `start` to any event in targets passes an event satisfying pred (strictly after start).
    Returns a witness target id if not."""
    r = reachable(G, start, stop=lambda e: pred(e))
    for t in targets:
        if t in r and not pred(G.ev[t]):
            return t
    return None
