"""Must-facts: which comparisons are guaranteed at each event of an inlined graph.

Facts (elements of a frozenset):
  ('le', x, y, c)       x - y <= c        (x, y terms or ('zero',))
  ('ne', x, y, c)       x - y != c
  ('T', t) / ('F', t)   truth of a boolean / non-nullness of a pointer-like term
  ('imp', d, pol, f)    f holds whenever the truth of d is pol  (kept at joins, so that a helper returning a
                        status, or a status flag, does not lose what was tested)
"""
from .graph import *
from . import graph as g

Z = ("zero",)
NOKILL = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "front", "back", "data", "at", "operator[]",
          "operator()", "operator*", "operator->", "lower_bound", "upper_bound", "equal_range", "col", "row", "block",
          "head", "tail", "segment", "get", "cols", "rows", "size", "topRows", "leftCols", "rightCols", "array",
          "matrix", "noalias", "coeffRef", "coeff", "derived", "reserve", "wait", "lock", "unlock", "notify_one",
          "notify_all", "stream", "ptr", "str", "setZero", "setConstant", "setIdentity", "setOnes", "normalize",
          "swap_never"}


def lin(t):
    off = 0
    while True:
        if t[0] == "int":
            return Z, off + t[1]
        if t[0] == "bin" and t[1] == "+" and t[3][0] == "int":
            off += t[3][1]
            t = t[2]
        elif t[0] == "bin" and t[1] == "+" and t[2][0] == "int":
            off += t[2][1]
            t = t[3]
        elif t[0] == "bin" and t[1] == "-" and t[3][0] == "int":
            off -= t[3][1]
            t = t[2]
        elif t[0] == "enum":
            return t, off
        else:
            break
    if t[0] == "bin" and t[1] in ("+", "*") and repr(t[2]) > repr(t[3]):
        t = ("bin", t[1], t[3], t[2])
    return t, off


def f_le(a, b, c=0):
    (x, i), (y, j) = lin(a), lin(b)
    return ("le", x, y, c + j - i)


def f_ne(a, b):
    (x, i), (y, j) = lin(a), lin(b)
    if repr(x) > repr(y):
        x, y, i, j = y, x, j, i
    return ("ne", x, y, j - i)


CHECKOPS = {"Check_EQImpl": "==", "Check_NEImpl": "!=", "Check_LTImpl": "<", "Check_LEImpl": "<=",
            "Check_GTImpl": ">", "Check_GEImpl": ">="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def atoms(t, pol):
    """facts implied by the truth value `pol` of boolean term t"""
    k = t[0]
    if k == "un" and t[1] == "!":
        return atoms(t[2], not pol)
    if k == "bin" and t[1] in ("==", "!=") and t[3] in (("int", 0), ("int", 1)) and boolish(t[2]):
        tr = (t[3][1] == 1) == (t[1] == "==")
        return atoms(t[2], pol if tr else not pol)
    if k == "bin":
        op = t[1]
        if op in ("&&", "&") and (op == "&&" or boolish(t[2])):
            if pol:
                return atoms(t[2], True) + atoms(t[3], True)
            return [("F", t)]
        if op in ("||", "|") and (op == "||" or boolish(t[2])):
            if not pol:
                return atoms(t[2], False) + atoms(t[3], False)
            return [("T", t)]
        if op in NEG:
            o = op if pol else NEG[op]
            a, b = t[2], t[3]
            if a == ("null",):
                a, b = b, a
            if b == ("null",):
                if o == "==":
                    return [("F", a)]
                if o == "!=":
                    return [("T", a)]
            if is_end(a) and not is_end(b):
                a, b = b, a
            if o == "==":
                r = [f_le(a, b), f_le(b, a)]
                if is_end(b) and not is_end(a):
                    r.append(("F", a))
                return r
            if o == "!=":
                r = [f_ne(a, b)]
                if is_end(b) and not is_end(a):
                    r.append(("T", a))
                if nonneg(a) and b == ("int", 0):
                    r.append(f_le(("int", 1), a))
                return r
            if o == "<":
                return [f_le(a, b, -1)]
            if o == "<=":
                return [f_le(a, b)]
            if o == ">":
                return [f_le(b, a, -1)]
            if o == ">=":
                return [f_le(b, a)]
    if k == "ctor" and "CheckOpString" in t[1] and len(t) > 2:
        return atoms(t[2], pol)
    if k == "call":
        s = t[1].rsplit("::", 1)[-1]
        if s in CHECKOPS and len(t) >= 4:
            # a non-null result is the failure message
            op = CHECKOPS[s]
            if pol:
                op = NEG[op]
            return atoms(("bin", op, t[2], t[3]), True)
    if k == "fld" and t[2] in ("str_", "_str") and t[1][0] == "ctor":
        return atoms(t[1], pol)
    if k == "int":
        return []
    if k == "cond":
        return [("T" if pol else "F", t)]
    return [("T" if pol else "F", t)]


def lookup_twins(f):
    """what a fact about count(k) / contains(k) says about find(k), and the other way round"""
    def tw(t, yes):
        if t[0] == "m" and len(t) == 4 and t[1] in ("count", "contains", "find"):
            o = []
            if t[1] != "find":
                o.append(("T" if yes else "F", ("m", "find") + t[2:]))
            if t[1] != "contains":
                o.append(("T" if yes else "F", ("m", "contains") + t[2:]))
            if t[1] != "count":
                c = ("m", "count") + t[2:]
                o.append(f_le(("int", 1), c) if yes else f_le(c, ("int", 0)))
                o.append(("T" if yes else "F", c))
            return o
        return []
    if f[0] in "TF":
        return tw(f[1], f[0] == "T")
    if f[0] == "le" and f[1] == Z and f[3] <= -1:
        return tw(f[2], True)
    if f[0] == "le" and f[2] == Z and f[3] <= 0:
        return tw(f[1], False)
    return []


def is_end(t):
    """past-the-end iterator of a container"""
    return t[0] == "m" and t[1] in ("end", "cend", "rend", "crend") or t[0] == "call" and t[1] in ("std::end", "std::cend")


def boolish(t):
    if t[0] == "bin":
        return t[1] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||")
    if t[0] == "un":
        return t[1] == "!"
    if t[0] == "call":
        return "Check_" in t[1]
    return False


def nonneg(t):
    if t[0] == "size":
        return True
    if t[0] == "int":
        return t[1] >= 0
    if t[0] == "m" and t[1] in ("rows", "cols", "size", "count", "length"):
        return True
    return False


class Facts:
    join_at = None

    def __init__(self, G, extra_nokill=(), track=None, sync=False, seed=None, run=True):
        """sync: acquiring a lock and waiting on a condition variable drop every fact about fields.
        seed(facts, event, S) -> S may add facts after an event."""
        self.G = G
        self.nokill = NOKILL | set(extra_nokill)
        self.memo_ret = {}
        self.sync = sync
        self.seed = seed
        self.IN = forward(G, frozenset(), self.step, self.join, self.edge, join_at=self.join_at) if run else {}

    def step(self, e, S):
        if self.sync and self.acquires(e):
            S = frozenset(f for f in S if not any(x[0] == "fld" for t in self._terms(f) for x in subterms(t)))
        S = self.transfer(e, S)
        if self.seed is not None:
            S = self.seed(self, e, S)
        return S

    @staticmethod
    def _terms(f):
        if f[0] == "imp":
            return [f[1]] + [x for x in f[3][1:3] if isinstance(x, tuple)]
        return [x for x in f[1:3] if isinstance(x, tuple)]

    def acquires(self, e):
        """another thread may have changed guarded state just before/at this event"""
        if e.kind == "cbhead" and e.d.get("wait"):
            return True
        if e.kind != "stmt":
            return False
        n = e.node
        if n["k"] == "CXXMemberCallExpr":
            me = e.frame.fn.nodes[n["c"][0]]
            if me["k"] == "MemberExpr":
                if me["n"] in ("wait", "wait_for", "wait_until") and is_cv_type(me.get("rec", "")):
                    return True
                if me["n"] in ("lock", "lock_shared") and (me.get("rec", "").startswith(("std::unique_lock", "std::shared_lock"))
                                                            or "mutex" in me.get("rec", "")):
                    return True
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n["t"].replace("const ", "").startswith(GUARD_TYPES) \
                and not n.get("cc"):
            return True
        return False

    def run_from(self, start, stop=None, S=None):
        """facts on the feasible paths that leave event `start`; events for which stop() holds are not passed"""
        if S is None:
            S = self.IN.get(start)
        if S is None:
            return {}
        return forward(self.G, S, self.step, self.join, self.edge, start=start, stop=stop, join_at=self.join_at)

    def escape(self, start, targets, stop):
        """a target event reachable from `start` on a feasible path that passes no event satisfying stop, or None"""
        IN = self.run_from(start, stop)
        for t in targets:
            if t in IN and t != start and not stop(self.G.ev[t]):
                return t
        return None

    # -------------------------------------------------------------------------------------------- lattice
    @staticmethod
    def join(A, B):
        if A == B:
            return A
        C = A & B
        onlyA, onlyB = A - B, B - A
        disc = []
        for f in onlyA:
            if f[0] in "TF":
                o = ("F" if f[0] == "T" else "T", f[1])
                if o in onlyB:
                    disc.append((f[1], f[0] == "T"))
        add = set()
        for d, pa in disc[:4]:
            for f in onlyA:
                if f[0] != "imp" and f[1] != d:
                    add.add(("imp", d, pa, f))
            for f in onlyB:
                if f[0] != "imp" and f[1] != d:
                    add.add(("imp", d, not pa, f))
        for X, Y in ((onlyA, B), (onlyB, A)):
            for f in X:
                if f[0] == "imp":
                    if f[3] in Y or (("F" if f[2] else "T"), f[1]) in Y:
                        add.add(f)
        return C | frozenset(add)

    def assume(self, S, t, pol):
        """S plus the facts implied by t having truth `pol`; None if contradictory"""
        new = atoms(t, pol)
        new = new + [x for f in new for x in lookup_twins(f)]
        for f in new:
            if f[0] == "T" and ("F", f[1]) in S or f[0] == "F" and ("T", f[1]) in S:
                return None
            if f[0] == "le" and f[1] == Z and f[2] == Z and f[3] < 0:
                return None
            if f[0] == "ne" and f[1] == f[2] and f[3] == 0:
                return None
        S = S | frozenset(new)
        if any(f[0] in ("le", "ne") for f in new) and self.refuted(S, [f for f in new if f[0] in ("le", "ne")]):
            return None
        ch = True
        while ch:
            ch = False
            for f in list(S):
                if f[0] == "imp":
                    if (("T" if f[2] else "F"), f[1]) in S:
                        x = f[3]
                        if x not in S:
                            if x[0] == "T" and ("F", x[1]) in S or x[0] == "F" and ("T", x[1]) in S:
                                return None
                            S = (S - {f}) | {x}
                            ch = True
        return S

    def edge(self, S, cond):
        if cond[0] == "ret":
            r = cond[1].fn.simple_return()
            if r is not None:
                return self.assume(S, self.G.term(cond[1], r), cond[2])
            return self.assume(S, ("ret", cond[1].id), cond[2])
        kind, fr, nid, v = cond
        if kind == "if":
            t = self.cond_term(fr, nid)
            return self.assume(S, t, v)
        if kind == "switch":
            t = self.G.term(fr, nid)
            if v is not None:
                return S | frozenset([("le",) + self._eqi(t, int(v)), ("le",) + self._eqi2(t, int(v))])
            return S
        return S

    @staticmethod
    def _eqi(t, v):
        x, i = lin(t)
        return (x, Z, v - i)

    @staticmethod
    def _eqi2(t, v):
        x, i = lin(t)
        return (Z, x, i - v)

    def cond_term(self, fr, nid):
        return self.ret_subst(self.G.term(fr, nid), fr, nid)

    def ret_subst(self, t, fr, nid):
        """the condition is a call that was inlined: use its return-value symbol"""
        n = fr.fn.nodes[nid]
        if n["k"] == "UnaryOperator" and n["op"] == "!":
            return ("un", "!", self.ret_subst(self.G.term(fr, n["c"][0]), fr, n["c"][0]))
        if n["k"] in ("CallExpr",) and n.get("builtin") and short(n.get("fn", "")) == "__builtin_expect":
            return self.ret_subst(t, fr, n["c"][1])
        if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            nf = self.callee_frame(fr, nid)
            if nf is not None and nf.fn.simple_return() is None:
                return ("ret", nf.id)
        if n["k"] == "DeclRefExpr" and n.get("dk") == "local":
            r = self.G._lookup(fr, n["d"])
            if r and r[0] == "decl":
                f2, dd = r[1], r[2]
                hard = [k for k, i in f2.fn.writes.get(n["d"], []) if k in ("write", "addr", "refarg", "refbind", "capture")]
                if not hard and dd.get("init") is not None and dd["t"].replace("const ", "") == "bool":
                    x = self.ret_subst(self.G.term(f2, dd["init"]), f2, dd["init"])
                    if x[0] == "ret" or not (self.G.volatile and any(y[0] in g.MUTABLE for y in subterms(x))):
                        return x
                if dd["t"].startswith("google::CheckOpString") and dd.get("init") is not None:
                    return self.G.term(f2, dd["init"])
        if n["k"] == "MemberExpr" and n.get("n") in ("str_", "_str"):
            return self.ret_subst(t, fr, n["c"][0])
        if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("operator bool"):
            me = fr.fn.nodes[n["c"][0]]
            return self.ret_subst(t, fr, me["c"][0])
        return t

    def callee_frame(self, fr, nid):
        m = self.memo_ret
        if not m:
            for f in self.G.frames:
                if f.call is not None and f.parent is not None:
                    m[(f.parent.id, f.call)] = f
        return m.get((fr.id, nid))

    # -------------------------------------------------------------------------------------------- transfer
    def kill(self, S, loc, deep=True):
        """drop facts mentioning the written location"""
        if not S:
            return S
        fname = loc[2] if loc[0] == "fld" else None

        def hit(t):
            for x in subterms(t):
                if x == loc:
                    return True
                if fname and x[0] == "fld" and x[2] == fname:
                    return True
                if loc[0] == "deref" and x == loc:
                    return True
            return False
        out = []
        for f in S:
            if f[0] == "imp":
                ts = [f[1]] + [x for x in f[3][1:3] if isinstance(x, tuple)]
            else:
                ts = [x for x in f[1:3] if isinstance(x, tuple)]
            if not any(hit(t) for t in ts):
                out.append(f)
        return frozenset(out)

    def shift(self, S, x, d):
        """x := x + d"""
        out = set()
        for f in S:
            if f[0] in ("le", "ne") and (f[1] == x) != (f[2] == x) and \
                    not any(contains(y, x) for y in (f[1], f[2]) if y != x):
                c = f[3] + (d if f[1] == x else -d)
                out.add((f[0], f[1], f[2], c))
            else:
                r = self.kill(frozenset([f]), x)
                out |= r
        return frozenset(out)

    def transfer(self, e, S):
        G, fr = self.G, e.frame
        if e.kind == "leave" and e.nid is not None and not e.d.get("cb"):
            return self.leave(e, S)
        if e.kind == "cbres" and e.d.get("val") is not None:
            t = G.term(fr, e.nid)
            S = frozenset(f for f in S if not any(x == t for y in self._terms(f) for x in subterms(y)))
            return S | {("T" if e.d["val"] else "F", t)}
        if e.kind == "enter":
            return self.bind_params(e, S)
        if e.kind not in ("stmt", "init"):
            return S
        if e.kind == "init":
            if "init" in e.d:
                loc = ("fld", fr.this or ("this",), e.d["init"])
                S = self.kill(S, loc)
                v = G.term(fr, e.nid) if e.nid is not None and e.nid >= 0 else None
                if v and G._pure(v) and not contains(v, loc):
                    S = self._gen_eq(S, loc, v)
            return S
        n = e.node
        k = n["k"]
        c = n["c"]
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in (
                "==", "!=", "<=", ">="):
            loc = G.term(fr, c[0])
            if n["op"] in ("+=", "-="):
                v = G.term(fr, c[1])
                if v[0] == "int":
                    return self.shift(S, loc, v[1] if n["op"] == "+=" else -v[1])
            tv = self.assigned_truth(S, fr, n, loc)
            S = self.kill(S, loc)
            if n["op"] == "=":
                v = G.term(fr, c[1])
                if G._pure(v) and not contains(v, loc):
                    S = self._gen_eq(S, loc, v)
            if tv is not None:
                S = S | {("T" if tv else "F", loc)}
            return S
        if k == "UnaryOperator" and n["op"] in ("++", "--"):
            return self.shift(S, G.term(fr, c[0]), 1 if n["op"] == "++" else -1)
        if k == "CXXOperatorCallExpr":
            op = n["op"]
            if op in ("++", "--", "=", "+=", "-=", "*=", "/=", "|=", "&=", "^="):
                loc = G.term(fr, c[1])
                S = self.kill(S, loc)
                if op == "=" and len(c) > 2:
                    v = G.term(fr, c[2])
                    if G._pure(v) and not contains(v, loc):
                        S = self._gen_eq(S, loc, v)
                return S
            if op == "<<" or op == ">>":
                if op == ">>" and len(c) > 2:
                    S = self.kill(S, G.term(fr, c[2]))
                return S
        if k == "DeclStmt":
            for d in n["decls"]:
                if d.get("static"):
                    continue
                loc = ("var", fr.id, d["d"], d["n"])
                tv = None
                if d.get("init") is not None and d["t"].replace("const ", "") == "bool":
                    tv = self.truth(S, self.cond_term(fr, d["init"]))
                S = self.kill(S, loc)
                if tv is not None:
                    S = S | {("T" if tv else "F", loc)}
                if d.get("init") is not None and not d.get("ref"):
                    v = G.term(fr, d["init"])
                    if G._pure(v) and not contains(v, loc):
                        S = self._gen_eq(S, loc, v)
                    m = fr.fn.nodes[d["init"]]
                    if m["k"] == "CXXConstructExpr" and not m["c"] and d["t"].startswith(
                            ("std::function<", "std::shared_ptr<", "std::unique_ptr<", "cv::Ptr<")):
                        S = S | {("F", loc)}
            return S
        if k == "ReturnStmt" and fr.parent is not None and c and c[0] >= 0:
            v = G.term(fr, c[0])
            r = ("ret", fr.id)
            S = self.kill(S, r)
            if v[0] == "int":
                S = S | {("T", r)} if v[1] else S | {("F", r)}
            elif v[0] == "null":
                S = S | {("F", r)}
            else:
                rt = fr.fn.d.get("ret", "")
                if self.entails_true(S, v):
                    S = S | {("T", r)}
                elif ("F", v) in S:
                    S = S | {("F", r)}
                elif rt != "bool" and v[0] in ("var", "fld", "param", "m", "call", "dyncast", "deref", "idx"):
                    S = S | {("imp", r, True, ("T", v)), ("imp", r, False, ("F", v))}
                if rt == "bool":
                    # truth of the returned expression
                    S = S | frozenset(("imp", r, True, f) for f in atoms(v, True) if f[0] != "imp") | \
                        frozenset(("imp", r, False, f) for f in atoms(v, False) if f[0] != "imp")
            return S
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr"):
            name = n.get("fn", "")
            if strip_tmpl(name).endswith("CheckNotNull") and c:
                T = ("T", G.term(fr, c[-1]))
                S2 = self.assume(S, T[1], True)  # also whatever follows from it, e.g. for the caller's argument
                return S | {T} if S2 is None else S2 | {T}
            if self.callee_frame(fr, e.nid) is not None:
                return S  # effects come from the inlined body
            args = c
            pm = n.get("pm", "")
            if k == "CXXMemberCallExpr":
                me = fr.fn.nodes[c[0]]
                args = c[1:]
                if me["k"] == "MemberExpr":
                    obj = G.obj_term(fr, c[0])
                    nm = me["n"]
                    if not me.get("cm") and not me.get("static") and nm not in self.nokill:
                        if nm in ("push_back", "emplace_back"):
                            S = self.grow(S, obj)
                        elif nm == "resize" and len(c) == 2:
                            S = self.kill(S, obj)
                            v = G.term(fr, c[1])
                            if G._pure(v) and not contains(v, obj):
                                S = S | frozenset(atoms(("bin", "==", ("size", obj), v), True))
                        elif nm == "clear":
                            S = self.kill(S, obj) | frozenset(atoms(("bin", "==", ("size", obj), ("int", 0)), True))
                        elif nm == "reset" and len(c) == 2:
                            S = self.kill(S, obj)
                            v = G.term(fr, c[1])
                            if v[0] == "new":
                                S = S | {("T", obj)}
                        else:
                            S = self.kill(S, obj)
            elif k == "CXXOperatorCallExpr":
                args = c[2:] if n.get("rec") else c[1:]
            elif k == "CallExpr":
                args = c[1:]
            if name.startswith(("google::", "std::forward", "std::move", "std::min", "std::max", "std::make_pair")):
                return S
            for a, m in zip(args, pm):
                if a < 0:
                    continue
                if m in "r":
                    S = self.kill(S, G.term(fr, a, "ref"))
                elif m == "p":
                    t = G.term(fr, a)
                    S = self.kill(S, deref(t))
            return S
        return S

    def bind_params(self, e, S):
        """parameters that the inlined callee modifies start out equal to the argument"""
        fr = e.frame
        for p in fr.fn.params:
            b = fr.binds.get(p["d"])
            if p.get("ref") or not (isinstance(b, tuple) and len(b) == 2 and hasattr(b[0], "binds")):
                continue
            loc = self.G.var_term(fr, p["d"], p["n"])
            if loc == ("var", fr.id, p["d"], p["n"]):
                v = self.G.term(b[0], b[1])
                S = self.kill(S, loc)
                if self.G._pure(v) and not contains(v, loc):
                    S = self._gen_eq(S, loc, v)
        return S

    def truth(self, S, t):
        """True / False if the boolean term is decided by S, else None"""
        if t == ("int", 1):
            return True
        if t == ("int", 0):
            return False
        if self.assume(S, t, True) is None or self.refuted(S, atoms(t, True)):
            return False
        if self.assume(S, t, False) is None or self.refuted(S, atoms(t, False)):
            return True
        return None

    @staticmethod
    def refuted(S, fs):
        """one of the facts contradicts the difference constraints in S"""
        for f in fs:
            if f[0] == "le" and closure_le(S, f[2], f[1], -f[3] - 1):
                return True
            if f[0] == "ne" and closure_le(S, f[1], f[2], f[3]) and closure_le(S, f[2], f[1], -f[3]):
                return True
        return False

    def assigned_truth(self, S, fr, n, loc):
        """truth of a bool after the assignment n (evaluated before the old facts are dropped)"""
        c = n["c"]
        if fr.fn.nodes[c[0]].get("t", "").replace("const ", "") != "bool" or n["op"] not in ("=", "&=", "|="):
            return None
        r = self.truth(S, self.cond_term(fr, c[1]))
        if n["op"] == "=":
            return r
        old = self.truth(S, loc)
        if n["op"] == "&=":
            return False if r is False or old is False else True if r and old else None
        return True if r or old else False if r is False and old is False else None

    def leave(self, e, S):
        """an inlined call returns: what is known of its return value holds for the call expression"""
        nf = e.d["frame"]
        if nf.fn.simple_return() is not None or nf.fn.kind in ("ctor", "dtor"):
            return S
        t = self.G.term(e.frame, e.nid)
        if t[0] not in ("call", "m"):
            return S
        r = ("ret", nf.id)
        S = frozenset(f for f in S if not any(x == t for y in self._terms(f) for x in subterms(y)))
        if ("T", r) in S:
            return S | {("T", t)}
        if ("F", r) in S:
            return S | {("F", t)}
        return S | {("imp", t, True, ("T", r)), ("imp", t, False, ("F", r))}

    def grow(self, S, obj):
        """obj.size() increases by one; other facts about the container's elements stay"""
        s = ("size", obj)
        out = set()
        for f in S:
            if f[0] in ("le", "ne") and (f[1] == s) != (f[2] == s):
                out.add((f[0], f[1], f[2], f[3] + (1 if f[1] == s else -1)))
            elif any(contains(x, s) for x in f[1:3] if isinstance(x, tuple)):
                continue
            else:
                out.add(f)
        return frozenset(out)

    def _gen_eq(self, S, loc, v):
        if v[0] == "null":
            return S | {("F", loc)}
        if v[0] in ("new", "addr"):
            return S | {("T", loc)}
        if v[0] in ("str", "list", "zero", "float", "typeid"):
            return S
        if boolish(v):
            return S | frozenset(("imp", loc, True, f) for f in atoms(v, True)) | frozenset(
                ("imp", loc, False, f) for f in atoms(v, False))
        new = {f_le(loc, v), f_le(v, loc)}
        if v[0] in ("fld", "idx", "deref", "m", "var", "ret", "param"):
            new |= {("imp", loc, True, ("T", v)), ("imp", loc, False, ("F", v))}
        if v[0] == "int":
            new.add(("T", loc) if v[1] else ("F", loc))
        if ("T", v) in S:
            new.add(("T", loc))
        if ("F", v) in S:
            new.add(("F", loc))
        return S | frozenset(new)

    # -------------------------------------------------------------------------------------------- queries
    def at(self, evid):
        return self.IN.get(evid)

    def entails_le(self, S, a, b, c=0, unsigned=()):
        """a - b <= c ?"""
        goal = f_le(a, b, c)
        return closure_le(S, goal[1], goal[2], goal[3], unsigned)

    def entails_true(self, S, t):
        if t[0] in ("addr", "this", "new"):
            return True
        if t == ("int", 1):
            return True
        if ("T", t) in S:
            return True
        # equality with a known non-null term
        for f in S:
            if f[0] == "le" and f[3] == 0 and f[1] == t and ("le", f[2], t, 0) in S and ("T", f[2]) in S:
                return True
        return False


def closure_le(S, x, y, c, unsigned=()):
    """is x - y <= c implied by the difference constraints in S (plus non-negativity of sizes)?"""
    if x == y:
        return c >= 0
    edges = {}

    def add(a, b, w):
        # a - b <= w : edge b -> a
        edges.setdefault(b, []).append((a, w))
    terms = {x, y, Z}
    for f in S:
        if f[0] == "le":
            add(f[1], f[2], f[3])
            terms.add(f[1])
            terms.add(f[2])
    ext = set()
    for t in list(terms):
        if nonneg(t) or t in unsigned:
            add(Z, t, 0)
        if t[0] == "call" and t[1] in ("std::min", "std::max") and len(t) == 4:
            for a in t[2:4]:
                b, o = lin(a)
                ext.add(b)
                if t[1] == "std::min":
                    add(t, b, o)
                else:
                    add(b, t, -o)
    # strict: ne sharpening  x-y<=c and x-y!=c  => x-y<=c-1
    for f in S:
        if f[0] == "ne":
            a, b, w = f[1], f[2], f[3]
            if ("le", a, b, w) in S:
                add(a, b, w - 1)
            if ("le", b, a, -w) in S:
                add(b, a, -w - 1)
            if w == 0 and b == Z and (nonneg(a) or a in unsigned):
                add(Z, a, -1)
            if w == 0 and a == Z and (nonneg(b) or b in unsigned):
                add(Z, b, -1)
    dist = {y: 0}
    work = [y]
    n = 0
    while work:
        u = work.pop(0)
        n += 1
        if n > 5000:
            break
        for v, w in edges.get(u, ()):
            d = dist[u] + w
            if v not in dist or d < dist[v]:
                dist[v] = d
                work.append(v)
    return x in dist and dist[x] <= c
