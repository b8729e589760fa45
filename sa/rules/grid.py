"""The weighted occupancy grid: the count is exact, cells are addressed in range, the strongest points survive."""
from ..ir import strip_tmpl, VERIF
from ..graph import *
from ..graph import deref
from ..facts import is_end, f_le, atoms
from ..bounds import LFacts, ladd, ONE
from ..conj import results
from .. import programs

CLS = "aslam::common::WeightedOccupancyGrid"
T, OLD = ("ghost", "total"), ("ghost", "old count")
THIS = ("this",)
KEEP = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "front", "back", "data", "at", "operator[]", "reserve", "size",
        "empty", "capacity", "max_size", "shrink_to_fit", "get_allocator", "crbegin", "crend"}
CONTRACT = ("eraseIndicesFromVector", "eraseIndicesFromContainer", "keepOnlyNSortedElements")
ALL = ("int", -1)


def last(n):
    return strip_tmpl(n or "").rsplit("::", 1)[-1]


def is_list(t):
    """vector of points"""
    return t.replace("const ", "").startswith("std::vector<aslam::common::WeightedKeypoint")


def is_point(t):
    return t.replace("const ", "").startswith("aslam::common::WeightedKeypoint")


class Cls:
    def __init__(self, R, prog, rec):
        self.R, self.prog, self.rec = R, prog, rec
        self.methods = [f for f in prog.fns.values() if f.rec == rec and f.blocks]
        ft = {}
        for f in self.methods:
            for n in f.nodes:
                if n["k"] == "MemberExpr" and n.get("mk") == "field" and n.get("rec") == rec:
                    ft.setdefault(n["n"], set()).add(n.get("t", "").replace("const ", ""))
        g = [x for x, ts in ft.items() if any(t.startswith("std::vector<std::vector<std::vector<") for t in ts)]
        R.need(len(g) == 1, "the grid of cells of " + CLS)
        self.grid = ("fld", THIS, g[0])
        num = [f for f in self.methods if f.short == "getNumPoints"]
        R.need(num, CLS + "::getNumPoints")
        G = Graph(prog, num[0])
        rets = [t for e in G.ev if e.id in G.live and e.kind == "stmt" and e.frame is G.root and e.node["k"] == "ReturnStmt"
                for f2, i in results(G, e.frame, e.node["c"][0]) for t in [G.term(f2, i)]]
        R.need(rets and all(t[0] == "fld" and t[1] == THIS for t in rets) and len(set(rets)) == 1,
               "the field that getNumPoints() returns")
        self.count = rets[0]
        self.ctor = [f for f in self.methods if f.kind == "ctor" and len(f.params) == 4]
        R.need(self.ctor, "constructor of " + CLS)
        self.ctor = self.ctor[0]
        self.dims()

    def graph(self, f):
        return Graph(self.prog, f, inline=lambda g, *a: last(g.qual) not in CONTRACT, volatile=True)

    def dims(self):
        """the fields that hold the number of rows and of columns: what the constructor sizes the grid with"""
        self.rows = self.cols = None
        self.sized = [None, None]
        G = self.gctor = self.graph(self.ctor)
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
                me = e.frame.fn.nodes[e.node["c"][0]]
                if me["k"] == "MemberExpr" and me["n"] in ("resize", "assign") and len(e.node["c"]) > 1:
                    o, v = G.obj_term(e.frame, e.node["c"][0]), G.term(e.frame, e.node["c"][1])
                    if o == self.grid:
                        self.sized[0] = (e, v)
                        if len(e.node["c"]) > 2:
                            w = G.term(e.frame, e.node["c"][2])
                            if w[0] == "ctor" and len(w) > 2:
                                self.sized[1] = (e, w[2])
                    elif o[0] in ("elem", "idx") and o[1] == self.grid:
                        self.sized[1] = (e, v)
        if self.sized[0] and self.sized[0][1][0] == "fld":
            self.rows = self.sized[0][1]
        if self.sized[1] and self.sized[1][1][0] == "fld":
            self.cols = self.sized[1][1]


def direction(prog, G, fr, nid):
    """-1: the comparator orders by decreasing weight, 1: increasing, None: not decided. nid None: the default operator<"""
    fn = None
    if nid is None:
        fn = [f for f in prog.fns.values() if f.short == "operator<" and is_point(f.rec or "")]
        fn = fn[0] if fn else None
    else:
        t = fr.fn.nodes[nid].get("t", "").replace("const ", "")
        for nm, op in (("std::greater<", "operator>"), ("std::less<", "operator<")):
            if t.startswith(nm):
                c = [f for f in prog.fns.values() if f.short == op and is_point(f.rec or "")]
                fn = c[0] if c else None
        if fn is None:
            l = G.find_lambda(fr, nid)
            if l:
                fn = prog.fns.get(l[1]["fk"])
    if fn is None or not fn.blocks:
        return None
    H = Graph(prog, fn)
    r = fn.simple_return()
    if r is None:
        rs = [n["c"][0] for n in fn.nodes if n["k"] == "ReturnStmt" and n["c"]]
        if len(rs) != 1:
            return None
        r = rs[0]
    t = H.term(H.root, r)
    sign = 1
    while t[0] == "un" and t[1] == "!":
        t, sign = t[2], -sign
    if t[0] != "bin" or t[1] not in ("<", ">", "<=", ">="):
        return None
    first = THIS if len(fn.params) == 1 else ("param", 0, fn.params[0]["n"])
    second = ("param", len(fn.params) - 1, fn.params[-1]["n"])

    def side(x):
        a, b = contains(x, first) or contains(x, deref(first)), contains(x, second)
        return 0 if a and not b else 1 if b and not a else None
    x, y = side(t[2]), side(t[3])
    if x is None or y is None or x == y or not all(z[0] == "fld" and z[2] == "weight" for z in t[2:4]):
        return None
    if t[1][0] == ">":
        x = y
    return sign if x == 0 else -sign


class GFacts(LFacts):
    def __init__(self, C, G, **kw):
        self.C = C
        self.cells = {}      # event -> (kind, cell)
        self.shaped = {}     # event -> (method, object, arguments): the grid itself is resized
        self.undecided = []
        self.middles = {}    # event -> (cell, first position that is not sorted)
        super().__init__(G, **kw)

    # ------------------------------------------------------------------------------------------ what is a cell
    def cell_term(self, t):
        """not a local or a caller's list of points"""
        if t[0] in ("var", "param", "ctor", "call"):
            return False
        if t[0] == "deref" and t[1][0] == "param":
            return False
        return True

    def step(self, e, S):
        if e.kind == "entry":
            S = S | self.eq({T: 1, self.C.count: -1}) | self.eq({OLD: 1, self.C.count: -1})
            if e.frame.fn.kind == "ctor":
                S = self.eq({T: 1})
        return super().step(e, S)

    def eq(self, d):
        return frozenset({self.fact(d), self.fact(ladd({}, d, -1))})

    def mutate(self, S, c, f):
        S = self.subst(S, T, {T: 1, ("size", c): -1})
        S = f(S)
        return self.subst(S, T, {T: 1, ("size", c): 1})

    def setsize(self, S, c, L):
        """size(c) := L (L does not mention size(c))"""
        return self.kill(S, c) | self.eq(ladd({("size", c): 1}, L, -1))

    def transfer(self, e, S):
        C, G, fr = self.C, self.G, e.frame
        if e.kind == "leave" and e.nid is not None and not e.d.get("cb"):
            S2 = super().transfer(e, S)
            nf = e.d["frame"]
            if nf.fn.simple_return() is None and nf.fn.d.get("ret", "").startswith("unsigned"):
                S2 = S2 | self.eq({G.term(fr, e.nid): 1, ("ret", nf.id): -1})
            return S2
        if e.kind != "stmt":
            return super().transfer(e, S)
        n = e.node
        k, c = n["k"], n["c"]
        if k == "ReturnStmt" and fr.parent is not None and c and c[0] >= 0 and fr.fn.d.get("ret", "").startswith("unsigned"):
            v = G.term(fr, c[0])
            S = super().transfer(e, S)
            return S | self.eq(ladd({("ret", fr.id): 1}, self.lin_nowrap(v), -1)) if G._pure(v) or self.value(v) else S
        if k in ("BinaryOperator", "CompoundAssignOperator") and G.term(fr, c[0]) == C.count:
            v = G.term(fr, c[1])
            if n["op"] in ("+=", "-="):
                E = self.lin_nowrap(v)
                return self.subst(S, C.count, ladd({C.count: 1}, E, 1 if n["op"] == "+=" else -1))
            if n["op"] == "=" and contains(v, C.count):
                E = self.lin_nowrap(v)
                if E.get(C.count) == 1:
                    return self.subst(S, C.count, E)
        if k in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr", "DeclStmt"):
            r = self.cell_op(e, S)
            if r is not None:
                return r
        return super().transfer(e, S)

    def sizes_of(self, S, v):
        """linear form of the size of the container value v, or None"""
        while v[0] == "call" and last(v[1]) in ("move", "forward") and len(v) > 2:
            v = v[2]
        if v[0] == "call" and last(v[1]) == "eraseIndicesFromVector" and len(v) == 4:
            return ladd({("size", v[2]): 1}, {("size", v[3]): 1}, -1)
        if v[0] in ("var", "fld", "idx", "elem", "deref", "param"):
            return {("size", v): 1}
        if v[0] == "ctor" and len(v) == 2:
            return {}
        if v[0] == "ctor" and len(v) == 3:
            return self.sizes_of(S, v[2])
        return None

    def cell_op(self, e, S):
        G, fr, C = self.G, e.frame, self.C
        n = e.node
        k, c = n["k"], n["c"]
        sup = super().transfer
        if k == "DeclStmt":
            d = n["decls"][0] if len(n["decls"]) == 1 else None
            if d and is_list(d["t"]) and not d.get("ref") and d.get("init") is not None:
                L = self.sizes_of(S, G.term(fr, d["init"]))
                S = sup(e, S)
                if L is not None:
                    v = ("var", fr.id, d["d"], d["n"])
                    return S | self.eq(ladd({("size", v): 1}, L, -1))
                return S
            if d and d.get("init") is not None and d["t"].replace("const ", "").startswith(("unsigned", "int", "long")):
                x = G.term(fr, d["init"])
                if not G._pure(x) and (self.value(x) or self.callee_frame(fr, d["init"]) is not None):
                    L = self.lin(x, S)
                    v = ("var", fr.id, d["d"], d["n"])
                    return sup(e, S) | self.eq(ladd({v: 1}, L, -1))
            return None
        if k == "CallExpr":
            nm = last(n.get("fn"))
            if nm in ("sort", "stable_sort", "partial_sort", "nth_element"):
                return self.ordering(e, S, nm)
            if nm == "swap" and len(c) == 3 and is_list(fr.fn.nodes[c[1]].get("t", "")):
                return self.swap(e, S, G.term(fr, c[1]), G.term(fr, c[2]))
            out = None
            for a in c[1:]:
                if a < 0:
                    continue
                t = fr.fn.nodes[a].get("t", "")
                if not (is_list(t.rstrip("* ")) and nm in CONTRACT and nm != "eraseIndicesFromVector"):
                    continue
                x = G.term(fr, a)
                x = deref(x) if t.rstrip().endswith("*") else x
                if not self.cell_term(x):
                    continue
                self.cells[e.id] = (nm, x)
                if nm == "eraseIndicesFromContainer":
                    idx = G.term(fr, c[1])
                    out = self.mutate(S, x, lambda S: self.subst(S, ("size", x), {("size", x): 1, ("size", idx): -1}))
                else:
                    if nm == "keepOnlyNSortedElements" and direction(C.prog, G, fr, c[2]) not in (-1, None):
                        self.undecided.append((e, "cut", "keeps the points that its comparator puts first: the weakest"))
                    out = self.mutate(S, x, lambda S: self.kill(S, x))
            return out
        if k == "CXXOperatorCallExpr":
            if n.get("op") == "=" and is_list(fr.fn.nodes[c[1]].get("t", "")):
                x = G.term(fr, c[1])
                L = self.sizes_of(S, G.term(fr, c[2])) if len(c) > 2 else None
                if not self.cell_term(x):
                    S = sup(e, S)
                    return S | self.eq(ladd({("size", x): 1}, L, -1)) if L is not None and ("size", x) not in L else S
                self.cells[e.id] = ("=", x)
                if L is not None and ("size", x) in L and L[("size", x)] == 1:
                    return self.mutate(S, x, lambda S: self.subst(S, ("size", x), L))
                return self.mutate(S, x, lambda S: self.setsize(S, x, L) if L is not None else self.kill(S, x))
            return None
        # member calls
        me = fr.fn.nodes[c[0]]
        if me["k"] != "MemberExpr" or me.get("cm") or me["n"] in KEEP or not me["c"] or self.callee_frame(fr, e.nid) is not None:
            return None
        t = fr.fn.nodes[me["c"][0]].get("t", "").replace("const ", "").rstrip("* &")
        x = G.obj_term(fr, c[0])
        nm = me["n"]
        a = [G.term(fr, y) for y in c[1:] if y >= 0]
        if t.startswith("std::vector<std::vector<"):
            return self.grid_op(e, S, x, nm, a)
        if not is_list(t):
            return None
        if not self.cell_term(x):
            if nm == "swap" and a and self.cell_term(a[0]):
                return self.swap(e, S, a[0], x)
            return None
        self.cells[e.id] = (nm, x)
        sz = ("size", x)
        if nm == "swap":
            return self.swap(e, S, x, a[0])
        if nm == "pop_back":
            return self.mutate(S, x, lambda S: self.subst(S, sz, {sz: 1, ONE: -1}))
        if nm == "erase" and len(a) == 1:
            return self.mutate(S, x, lambda S: self.subst(S, sz, {sz: 1, ONE: -1}))
        if nm == "erase" and len(a) == 2 and is_end(a[1]):
            p = self.offset(a[0], x)
            if p is not None:
                L = self.lin(p, S)
                return self.mutate(S, x, lambda S: self.setsize(S, x, L) if sz not in L else
                                   self.subst(S, sz, L) if L[sz] == 1 else self.kill(S, x))
        if nm in ("insert", "emplace") and len(a) == 2 and is_point(fr.fn.nodes[c[2]].get("t", "")):
            return self.mutate(S, x, lambda S: self.subst(self.drop(S, x), sz, {sz: 1, ONE: 1}))
        if nm == "resize" and a:
            L = self.lin(a[0], S)
            return self.mutate(S, x, lambda S: self.setsize(S, x, L) if sz not in L else
                               self.subst(S, sz, L) if L[sz] == 1 else self.kill(S, x))
        if nm in ("push_back", "emplace_back"):
            return self.mutate(S, x, lambda S: sup(e, self.drop(S, x)))
        return self.mutate(S, x, lambda S: sup(e, S))

    def drop(self, S, x):
        """the order of x is no longer known"""
        return frozenset(f for f in S if not (f[0] == "T" and f[1][0] == "desc" and f[1][1] == x))

    def value(self, t):
        """temporaries of grid coordinates are values, and cells are found by them"""
        own = {m.short for m in self.C.methods if m.d.get("ret", "").endswith("&")}
        return not any(y[0] in ("call", "new", "lambda", "unk") or y[0] == "m" and y[1] not in own or
                       y[0] == "ctor" and "GridCoordinates" not in y[1] for y in subterms(t))

    @staticmethod
    def offset(t, x):
        """n for x.begin() + n"""
        if t[0] == "m" and t[1] in ("begin", "cbegin") and t[2] == x or t == ("iter", x):
            return ("int", 0)
        if t[0] == "bin" and t[1] == "+":
            for p, q in ((t[2], t[3]), (t[3], t[2])):
                o = GFacts.offset(p, x)
                if o is not None:
                    return q if o == ("int", 0) else ("bin", "+", o, q)
        if t[0] == "bin" and t[1] == "-":
            o = GFacts.offset(t[2], x)
            if o is not None:
                return ("bin", "-", o, t[3])
            if is_end(t[2]) and t[2][2] == x:
                return ("bin", "-", ("size", x), t[3])
        if t[0] == "call" and last(t[1]) == "next" and len(t) == 4:
            o = GFacts.offset(t[2], x)
            return None if o is None else t[3] if o == ("int", 0) else ("bin", "+", o, t[3])
        return None

    def swap(self, e, S, x, y):
        self.cells[e.id] = ("swap", x)
        cx, cy = self.cell_term(x), self.cell_term(y)
        if cx and cy:
            return self.kill(self.kill(S, x), y)
        if not cx:
            x, y = y, x
        S = self.subst(S, T, {T: 1, ("size", x): -1, ("size", y): 1})
        a, b = ("ghost", "left"), ("ghost", "right")
        S = S | self.eq({("size", x): 1, a: -1}) | self.eq({("size", y): 1, b: -1})
        S = self.kill(self.kill(S, x), y) | self.eq({("size", x): 1, b: -1}) | self.eq({("size", y): 1, a: -1})
        return self.kill(self.kill(S, a), b)

    def grid_op(self, e, S, x, nm, a):
        C = self.C
        if x != C.grid and not contains(x, C.grid):
            return None
        self.shaped[e.id] = (nm, x, a)
        sup = super().transfer
        if nm == "clear" and x == C.grid:
            return self.kill(self.kill(S, T), C.grid) | self.eq({T: 1})
        if nm == "assign" and x == C.grid:
            return self.kill(self.kill(S, T), C.grid) | self.eq({T: 1})
        if nm == "resize" and self.eq0(S, {T: 1}):
            return sup(e, S) | self.eq({T: 1})
        return self.kill(sup(e, S), T)

    def ordering(self, e, S, nm):
        G, fr = self.G, e.frame
        c = e.node["c"]
        a = [G.term(fr, y) for y in c[1:] if y >= 0]
        i = 2 if nm in ("partial_sort", "nth_element") else 1
        if len(a) <= i or not is_end(a[i]):
            return None
        x = a[i][2] if len(a[i]) > 2 else None
        if x is None or self.offset(a[0], x) != ("int", 0):
            return None
        S = self.drop(S, x)
        d = direction(self.C.prog, G, fr, c[1 + i + 1] if len(c) > i + 2 else None)
        if d is None:
            S = S | {("T", ("desc", x, ("unk",)))}
        elif d == -1:
            k = ALL if i == 1 else self.offset(a[1], x)
            if k is not None and k != ALL:
                self.middles[e.id] = (x, k)
            if k is not None:
                S = S | {("T", ("desc", x, ("nth", k) if nm == "nth_element" else k))}
        return S

    def edge(self, S, cond):
        S = super().edge(S, cond)
        if S is not None and self.emptied and cond and cond[0] == "if" and \
                (cond[0], cond[1].id, cond[2], cond[3]) in self.emptied:
            S = self.kill(S, T) | self.eq({T: 1})
        return S
    emptied = frozenset()

    def run_now(self):
        self.IN = forward(self.G, frozenset(), self.step, self.join, self.edge, join_at=self.join_at)


# ------------------------------------------------------------------------------------------------ loops over the cells
def same_row(t, row):
    return t[:2] == row[:2] if row[0] == "elem" and t[0] == "elem" else t == row


class CellLoops:
    """nested complete loops over the grid of one graph"""
    def __init__(self, C, G):
        self.C, self.G = C, G
        self.outer = self.find(lambda t: t == C.grid, C.rows)
        self.inner = {}

    def find(self, pred, bound):
        """[(variable or iterator term, body start events, exit condition keys, head ids)]"""
        G, out = self.G, {}
        for e in G.ev:
            if e.id not in G.live:
                continue
            for t, c in e.succ:
                if not c or c[0] != "if":
                    continue
                for f in atoms(G.term(c[1], c[2]), c[3]):
                    key, stay = None, None
                    if f[0] in "TF" and f[1][0] == "iter" and pred(f[1][1]):
                        key, stay = ("it", f[1][1]), f[0] == "T"
                    elif f[0] == "le" and f[3] in (-1, 0):
                        for v, b, st in ((f[1], f[2], True), (f[2], f[1], False)):
                            if v[0] == "var" and (b == bound and bound is not None or b[0] == "size" and pred(b[1])) and \
                                    (f[3] == -1) == st and self.counts(v):
                                key, stay = ("ix", v), st
                    if key:
                        r = out.setdefault((e.id, key), [key, [], set(), e.id])
                        if stay:
                            r[1].append(t)
                        else:
                            r[2].add((c[0], c[1].id, c[2], c[3]))
        return [r for r in out.values() if r[1] and r[2]]

    def counts(self, v):
        from ..conj import starts_at_zero, steps_by_one
        return starts_at_zero(self.G, v) and steps_by_one(self.G, v)

    def nested(self):
        """(outer, inner) pairs: the inner loop is entered on every round of the outer one"""
        C, G = self.C, self.G
        res = []
        for o in self.outer:
            row = ("elem", C.grid) if o[0][0] == "it" else ("idx", C.grid, o[0][1])
            for i in self.find(lambda t: same_row(t, row), C.cols):
                if i[3] == o[3]:
                    continue
                if all(must_pass(G, b, [o[3]], lambda e: e.id == i[3]) is None or b == i[3] for b in o[1]):
                    res.append((o, i, row))
        return res

    def round(self, o, i):
        """every round of the inner loop comes back to it: no way out except at its end"""
        return all(self.covers(b, i) for b in i[1]) and all(self.covers(b, o) for b in o[1])

    def covers(self, start, loop):
        """from the body every way to the function's end passes the loop head again"""
        return must_pass(self.G, start, [e.id for e in self.G.ev if e.kind == "exit" and e.frame is self.G.root],
                         lambda e: e.id == loop[3]) is None


def accesses(G, C):
    """subscripts of the grid: (event, index term of the row, of the column or None)"""
    out = []
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n = e.node
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" or n["k"] == "CXXMemberCallExpr" and \
                last(n.get("fn")) == "at":
            t = G.term(e.frame, e.nid)
            if t[0] == "idx" and len(t) == 3:
                if t[1] == C.grid:
                    out.append((e, t[2], None))
                elif t[1][0] == "idx" and t[1][1] == C.grid:
                    out.append((e, t[1][2], t[2]))
    return out


def empties(G, row):
    """events that empty a cell of this row"""
    out = set()
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
            me = e.frame.fn.nodes[e.node["c"][0]]
            if me["k"] != "MemberExpr":
                continue
            x = G.obj_term(e.frame, e.node["c"][0])
            if x[0] in ("elem", "idx") and same_row(x[1], row):
                a = [G.term(e.frame, y) for y in e.node["c"][1:] if y >= 0]
                if me["n"] == "clear" or me["n"] == "resize" and a == [("int", 0)] or me["n"] == "erase" and len(a) == 2 and \
                        GFacts.offset(a[0], x) == ("int", 0) and is_end(a[1]):
                    out.add(e.id)
    return out


def fatal_edges(G):
    """branch edges from which the function's end is not reached: failed checks"""
    live = set()
    work = [e.id for e in G.ev if e.kind == "exit" and e.frame is G.root]
    while work:
        i = work.pop()
        if i in live:
            continue
        live.add(i)
        work += [p for p, _ in G.ev[i].pred]
    out = []
    for e in G.ev:
        if e.id in G.live and e.id in live:
            for t, c in e.succ:
                if t not in live and c and c[0] == "if":
                    out.append((e, t, c))
    return out


GLOBAL = ("reset", "setConstantWeightForAllPointsInGrid", "getAllPointsInGrid", "removeWeightedPointsFromOverfullCells",
          "getFullestGridCell", "getOccupancyMask")


def deps(G, t, seen=None, depth=0):
    """the parameters and fields a term is computed from"""
    seen = set() if seen is None else seen
    out = set()
    for x in subterms(t):
        if x in seen:
            continue
        if x[0] == "param" or x[0] == "fld" and x[1] == THIS or x[0] == "fld" and x[1][0] == "param":
            out.add(x)
        if x[0] == "var" and depth < 8:
            seen.add(x)
            fr = next((f for f in [G.root] + G.frames if f.id == x[1]), None)
            if fr is None or x[2] not in fr.fn.decls:
                continue
            d = fr.fn.decls[x[2]][0]
            if d.get("init") is not None:
                out |= deps(G, G.term(fr, d["init"]), seen, depth + 1)
            for k, i in fr.fn.writes.get(x[2], []):
                if k == "write":
                    for p in fr.fn.parents.get(i, []):
                        m = fr.fn.nodes[p]
                        if m["k"] in ("BinaryOperator", "CompoundAssignOperator"):
                            out |= deps(G, G.term(fr, m["c"][1]), seen, depth + 1)
    # a field of a parameter object stands for itself
    return {x for x in out if not any(y != x and y[0] == "fld" and y[1] == x for y in out)}


def P13(R):
    R.rule("count", "in every public operation the counter changes by exactly the number of points added to or removed from the "
           "cells, on every path")
    R.rule("reported", "an operation that removes points and returns a number returns how many it removed; one that removes until "
           "a limit ends only when the limit is met")
    R.rule("range", "a cell is addressed only with a row and a column that were tested against the grid, or that loops bound by it")
    R.rule("coordinates", "the row of a point is computed from its row coordinate and the row size of a cell, the column from the "
           "column coordinate and the column size, after both coordinates were tested against the image; the grid has one cell "
           "per started cell size in each direction")
    R.rule("all-cells", "operations on the whole grid visit every cell")
    R.rule("weakest", "a point is overwritten only by a heavier one and only if it is the lightest of its cell; a cell is cut back "
           "to its heaviest points")
    R.rule("no-abort", "a public operation that is called by another one is called with arguments it accepts")
    prog = programs.common("common_headers.cc")
    recs = sorted({f.rec for f in prog.fns.values() if f.rec and strip_tmpl(f.rec) == CLS and f.blocks})
    R.need(recs, CLS)
    for rec in recs:
        grid(R, prog, Cls(R, prog, rec))
    R.atleast("operations whose effect on the count is decided", 20)
    R.atleast("cell addresses decided", 20)
    R.atleast("whole-grid operations", 12)
    R.atleast("cuts and replacements decided", 4)


def grid(R, prog, C):
    coordinates(R, prog, C)
    for f in sorted(C.methods, key=lambda f: (f.line, f.key)):
        if f.d.get("access") != "public" or f.short.startswith("operator") or f.kind == "dtor":
            continue
        if f.kind == "ctor" and f is not C.ctor:
            continue
        judge(R, prog, C, f)


def judge(R, prog, C, f):
    G = C.graph(f)

    def bad(rule, e, con, msg):
        R.violation(rule, strip_tmpl(f.name), con, e.where(), msg)
    L = CellLoops(C, G)
    nest = L.nested()
    emptied = set()
    for o, i, row in nest:
        em = empties(G, row)
        if em and all(must_pass(G, b, [i[3]], lambda e: e.id in em) is None or b in em for b in i[1]) and L.round(o, i):
            emptied |= o[2]

    returns = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.frame is G.root and e.node["k"] == "ReturnStmt"
               and e.node["c"]]
    counts = f.d.get("ret", "").startswith("unsigned") and f.short.startswith("remove")
    watch = [{T: 1, C.count: -1}]
    if counts:
        base = {OLD: 1, C.count: -1}
        accs = {G.term(e.frame, e.node["c"][0]) for e in returns}
        rets = {("ret", x.id) for x in G.frames if x.fn.d.get("ret", "").startswith("unsigned")}
        watch.append(base)
        for a in accs:
            if a[0] == "var":
                watch.append(ladd(base, {a: -1}))
                for r in rets:
                    watch.append(ladd(ladd(base, {a: -1}), {r: -1}))
        for r in rets:
            watch.append(ladd(base, {r: -1}))
        loc = {("var", x.id, d, v[0]["n"]) for x in [G.root] + G.frames for d, v in x.fn.decls.items()
               if v[0].get("t", "").replace("const ", "").startswith("unsigned") and x.fn.rec == C.rec}
        for v in sorted(loc - accs, key=repr)[:12]:
            watch.append(ladd(base, {v: -1}))
            watch += [ladd(ladd(base, {v: -1}), {a: -1}) for a in accs if a[0] == "var"]

    def entry(F, e, S):
        if e.kind == "entry" and C.rows is not None and f.kind != "ctor":
            return S | F.eq({("size", C.grid): 1, C.rows: -1})
        return S
    F = GFacts(C, G, watch=tuple(watch), seed=entry, run=False)
    F.emptied = frozenset(emptied)
    if counts:
        more = {G.term(e.frame, e.node["c"][0]) for e in G.ev if e.id in G.live and e.kind == "stmt" and
                e.node["k"] == "ReturnStmt" and e.node["c"] and e.node["c"][0] >= 0 and
                e.frame.fn.d.get("ret", "").startswith("unsigned")}
        more = [F.lin_nowrap(b) for b in sorted(more, key=repr) if b[0] == "bin"]
        watch += [ladd(base, b, -1) for b in more]
        watch += [ladd(ladd(base, b, -1), {a: -1}) for b in more for a in accs if a[0] == "var"]
        F.watch = tuple(watch)
    F.run_now()
    # count
    ex = [e for e in G.ev if e.kind == "exit" and e.frame is G.root]
    S = F.at(ex[0].id) if ex else None
    muts = [G.ev[i] for i in F.cells]
    writes = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] in (
        "BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and e.node.get("op") in ("=", "+=", "-=", "++", "--") and
        G.term(e.frame, e.node["c"][0]) == C.count]
    if S is not None:
        R.count("operations whose effect on the count is decided")
        if not F.eq0(S, {T: 1, C.count: -1}):
            e = (muts or writes or [G.ev[0]])[0]
            bad("count", e, "count", "the number of points in the cells and the counter do not change by the same amount on every path")
    # reported
    if counts:
        for e in returns:
            S = F.at(e.id)
            if S is None:
                continue
            R.count("reported removals decided")
            if not F.eq0(S, ladd({OLD: 1, C.count: -1}, F.lin_nowrap(G.term(e.frame, e.node["c"][0])), -1)):
                bad("reported", e, "returned number", "the number returned is not the number of points removed")
    if f.short.endswith("UntilSize") and f.params and ex:
        S = F.at(ex[0].id)
        if S is not None:
            R.count("limits decided")
            if not F.entails_lin(S, {("param", 0, f.params[0]["n"]): 1, C.count: -1}):
                bad("reported", G.ev[0], "limit", "may end with more points than the limit")
    # range
    for e, i, j in accesses(G, C):
        S = F.at(e.id)
        if S is None:
            continue
        R.count("cell addresses decided")
        ok = F.entails_lin(S, ladd(ladd({("size", C.grid): 1}, F.lin(i, S), -1), {ONE: -1})) or C.rows is not None and \
            F.entails_lin(S, ladd(ladd({C.rows: 1}, F.lin(i, S), -1), {ONE: -1}))
        if not ok:
            bad("range", e, "row " + show(i)[:60], "the grid is indexed with row %s, which was not tested" % show(i)[:80])
        if j is not None:
            ok = F.entails_lin(S, ladd(ladd({("size", ("idx", C.grid, i)): 1}, F.lin(j, S), -1), {ONE: -1})) or \
                C.cols is not None and F.entails_lin(S, ladd(ladd({C.cols: 1}, F.lin(j, S), -1), {ONE: -1}))
            if not ok:
                bad("range", e, "column " + show(j)[:60], "the grid is indexed with column %s, which was not tested" % show(j)[:80])
    # shape
    if f.kind != "ctor":
        ops = list(F.shaped.items())
        resized = any(o == C.grid and nm in ("resize", "assign") and a and a[0] == C.rows for _, (nm, o, a) in ops)
        for i, (nm, o, a) in ops:
            if not resized:
                bad("range", G.ev[i], "shape", "the grid is resized outside of the constructor")
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] in ("BinaryOperator", "CompoundAssignOperator") and \
                    e.node.get("op", "").endswith("=") and e.node["op"] not in ("==", "!=", "<=", ">=") and \
                    G.term(e.frame, e.node["c"][0]) in (C.rows, C.cols):
                bad("range", e, "shape", "the number of rows or columns is changed after construction")
    # all cells
    if f.short in GLOBAL:
        R.count("whole-grid operations")
        good = [(o, i, r) for o, i, r in nest if L.round(o, i) and used(G, C, o, i, r)]
        anew = {i for i, (nm, o, a) in F.shaped.items() if o == C.grid and nm in ("clear", "assign")}
        if f.short == "reset" and ex and anew and must_pass(G, 0, [ex[0].id], lambda e: e.id in anew) is None:
            pass
        elif not good:
            e = G.ev[0]
            bad("all-cells", e, "cells", "not every cell of the grid is visited")
        elif ex:
            heads = {o[3] for o, _, _ in good}
            if must_pass(G, 0, [ex[0].id], lambda e: e.id in heads) is not None:
                bad("all-cells", G.ev[0], "cells", "may end without visiting the cells")
    for i, (x, k) in F.middles.items():
        S = F.at(i)
        R.count("cuts and replacements decided")
        if S is not None and not F.entails_lin(S, ladd({("size", x): 1}, F.lin(k, S), -1)):
            bad("range", G.ev[i], "sorted part", "the part of the cell that is to be sorted may extend beyond its end")
    weakest(R, prog, C, f, G, F, bad)
    # no-abort
    pub = {m.key for m in C.methods if m.d.get("access") == "public"}
    for e, t, c in fatal_edges(G):
        fr = e.frame
        if fr is G.root or fr.fn.key not in pub or fr.fn.kind == "ctor":
            continue
        S = F.at(e.id)
        if S is None or not only_args(fr, c):
            continue
        R.count("preconditions of nested calls")
        S = F.step(e, S)
        if F.edge(S, c) is not None and not lin_refuted(F, S, c):
            bad("no-abort", e, "precondition of " + fr.fn.short, "the call of %s may fail its check of its arguments" % fr.fn.short)


def lin_refuted(F, S, c):
    for x in atoms(F.cond_term(c[1], c[2]), c[3]):
        if x[0] == "le":
            g = ladd(ladd(F.lin(x[1], S), F.lin(x[2], S), -1), {ONE: -x[3] - 1})
            if F.entails_lin(S, g):
                return True
    return False


def only_args(fr, c):
    """the check is about the callee's own arguments"""
    names = set()
    work = [c[2]]
    seen = set()
    while work:
        i = work.pop()
        if i in seen or i < 0:
            continue
        seen.add(i)
        n = fr.fn.nodes[i]
        if n["k"] == "DeclRefExpr" and n.get("dk") == "local":
            d = fr.fn.decls[n["d"]][0] if n["d"] in fr.fn.decls else {}
            if d.get("init") is not None:
                work.append(d["init"])
        elif n["k"] == "DeclRefExpr":
            names.add(n.get("dk"))
        elif n["k"] == "CXXThisExpr":
            names.add("this")
        work += [x for x in n["c"]]
    return "param" in names and not names & {"this", "global"}


def used(G, C, o, i, row):
    """the cell of every round is used"""
    def cell(x):
        return x[0] == "elem" and same_row(x[1], row) or x[0] == "idx" and len(x) == 3 and same_row(x[1], row) and \
            i[0] == ("ix", x[2])
    hit = set()
    for e in G.ev:
        if e.id in G.live and e.kind in ("stmt", "enter"):
            if e.kind == "stmt":
                t = G.term(e.frame, e.nid)
                if any(cell(x) for x in subterms(t)):
                    hit.add(e.id)
                elif i[0][0] == "ix" and o[0][0] == "ix" and t[0] == "idx" and len(t) == 3 and t[1][0] == "idx" and \
                        t[1][1] == C.grid and coords(t[1][2], o[0][1]) and coords(t[2], i[0][1]):
                    hit.add(e.id)
    return all(must_pass(G, b, [i[3]], lambda e: e.id in hit) is None or b in hit for b in i[1])


def coords(t, v):
    """t is v, or the coordinate that was built from v in first / second place"""
    return t == v or t[0] == "fld" and t[1][0] == "ctor" and v in t[1]


def weakest(R, prog, C, f, G, F, bad):
    for e, con, msg in F.undecided:
        R.count("cuts and replacements decided")
        bad("weakest", e, con, msg)
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n, fr = e.node, e.frame
        S = F.at(e.id)
        if S is None:
            continue
        c = n["c"]
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and is_point(fr.fn.nodes[c[1]].get("t", "")) and len(c) > 2:
            x, v = G.term(fr, c[1]), G.term(fr, c[2])
            src = element_of(G, x)
            if src is None or not F.cell_term(src[0]):
                continue
            R.count("cuts and replacements decided")
            if not F.entails_le(S, ("fld", x, "weight"), ("fld", v, "weight"), -1):
                bad("weakest", e, "replacement", "a point of a cell is overwritten by one that is not known to be heavier")
            if src[1] is None:
                R.note("%s: which point of the cell is overwritten is not decided" % e.where())
            elif src[1] is False:
                bad("weakest", e, "replaced point", "the point that is overwritten is not the lightest one of its cell")
        elif e.id in F.cells and n["k"] == "CXXMemberCallExpr":
            nm, x = F.cells[e.id]
            a = [G.term(fr, y) for y in c[1:] if y >= 0]
            k = None
            if nm == "resize" and a and a[0] != ("int", 0):
                k = a[0]
            elif nm == "erase" and len(a) == 2 and is_end(a[1]):
                k = F.offset(a[0], x)
            elif nm == "pop_back":
                k = ("bin", "-", ("size", x), ("int", 1))
            elif nm == "erase" and len(a) == 1:
                src = element_of(G, deref(a[0]))
                if src is not None and src[1] is not None:
                    R.count("cuts and replacements decided")
                    if src[1] is False:
                        bad("weakest", e, "removed point", "the point that is removed is not the lightest one of its cell")
                continue
            if k is None or k == ("int", 0):
                continue
            R.count("cuts and replacements decided")
            got = [y[1][2] for y in S if y[0] == "T" and y[1][0] == "desc" and y[1][1] == x]
            if got == [("unk",)]:
                R.note("%s: the order given to the sort is not decided" % e.where())
                continue
            ok = False
            for m in got:
                if m == ALL:
                    ok = True
                elif m[0] == "nth":
                    ok = ok or F.entails_eq(S, m[1], k) or F.eq0(S, ladd(ladd(F.lin(m[1], S), F.lin(k, S), -1), {ONE: 1}))
                else:
                    ok = ok or F.entails_ge(S, m, k)
            if not ok:
                bad("weakest", e, "cut", "a cell is cut back without its heaviest points having been moved to the front")


def element_of(G, x):
    """(cell, is it the lightest point: True / False / None not decided) for an element of a list"""
    if x[0] in ("idx", "elem"):
        return x[1], None
    if x[0] != "deref":
        return None
    p = x[1]
    nid = fr = None
    if p[0] == "var":
        fr = next((f for f in [G.root] + G.frames if f.id == p[1]), None)
        if fr is not None and p[2] in fr.fn.decls and fr.fn.decls[p[2]][0].get("init") is not None and not any(
                k == "write" for k, _ in fr.fn.writes.get(p[2], [])):
            nid = fr.fn.decls[p[2]][0]["init"]
            p = G.term(fr, nid)
    if p[0] == "iter":
        return p[1], None
    if p[0] == "call" and last(p[1]) in ("min_element", "max_element") and len(p) >= 4:
        b, e = p[2], p[3]
        if is_end(e) and len(e) > 2 and GFacts.offset(b, e[2]) == ("int", 0):
            d = 1
            if len(p) > 4:
                d = call_direction(G, last(p[1]), e[2])
            if d is None:
                return e[2], None
            return e[2], (last(p[1]) == "min_element") == (d == 1)
        if is_end(e) and len(e) > 2:
            return e[2], False
    if p[0] == "m" and p[1] in ("begin", "end"):
        return p[2], None
    if p[0] == "bin":
        for y in subterms(p):
            if y[0] == "m" and y[1] == "begin":
                return y[2], None
    return None


def call_direction(G, nm, cell):
    for e in G.ev:
        if e.kind == "stmt" and e.id in G.live and e.node["k"] == "CallExpr" and last(e.node.get("fn")) == nm and \
                len(e.node["c"]) > 3:
            t = G.term(e.frame, e.nid)
            if is_end(t[3]) and t[3][2] == cell:
                return direction(G.prog, G, e.frame, e.node["c"][3])
    return None


# ------------------------------------------------------------------------------------------------ coordinates
def coordinates(R, prog, C):
    G = C.gctor
    P = [("param", i, p["n"]) for i, p in enumerate(C.ctor.params)]
    role = {}
    for e in G.ev:
        if e.id in G.live and e.kind == "init" and e.frame is G.root and "init" in e.d and e.nid is not None and e.nid >= 0:
            t = G.term(e.frame, e.nid)
            if t in P:
                role[("fld", THIS, e.d["init"])] = P.index(t)

    def roles(t, G=G):
        out = set()
        for x in deps(G, t):
            if x in P and G is C.gctor:
                out.add(P.index(x))
            elif x in role:
                out.add(role[x])
            elif x != C.grid:
                out.add(x)
        return out
    where = "%s:%d" % (C.ctor.file.split("/repo/")[-1], C.ctor.line)
    if sorted(role.values()) != [0, 1, 2, 3]:
        R.violation("coordinates", strip_tmpl(C.ctor.name), "extents", where,
                    "the image and cell sizes given to the constructor are not all kept")
        return
    for what, want, sz in (("rows", {0, 2}, C.sized[0]), ("columns", {1, 3}, C.sized[1])):
        if sz is None:
            R.violation("coordinates", strip_tmpl(C.ctor.name), what, where, "the constructor does not give the grid its " + what)
            continue
        R.count("coordinate computations decided")
        t = sz[1]
        v = [t]
        if t[0] == "fld" and t[1] == THIS:
            v = []
            for e in G.ev:
                if e.id in G.live and e.kind == "stmt" and e.node["k"] == "BinaryOperator" and e.node["op"] == "=" and \
                        G.term(e.frame, e.node["c"][0]) == t:
                    v.append(G.term(e.frame, e.node["c"][1]))
                elif e.id in G.live and e.kind == "init" and e.d.get("init") == t[2] and e.nid is not None and e.nid >= 0:
                    v.append(G.term(e.frame, e.nid))
        for x in v:
            if roles(x) != want:
                R.violation("coordinates", strip_tmpl(C.ctor.name), what, where,
                            "the number of %s is not computed from the image size and the cell size of that direction" % what)
            elif not quotient(x, lambda a: roles(a) & {0, 1}, lambda b: roles(b) & {2, 3}):
                R.violation("coordinates", strip_tmpl(C.ctor.name), what, where,
                            "the number of %s is not the quotient of image size and cell size" % what)
            elif any(y[0] == "call" and last(y[1]) in ("floor", "round", "trunc") for y in subterms(x)) or not any(
                    y[0] == "call" and last(y[1]) == "ceil" or y[0] == "bin" and y[1] == "+" for y in subterms(x)):
                R.violation("coordinates", strip_tmpl(C.ctor.name), what, where,
                            "the number of %s is not rounded up: the last started cell is missing" % what)
    # which coordinate is the row
    rc = [f for f in C.methods if f.short == "getGridCell" and len(f.params) == 1]
    R.need(rc, CLS + "::getGridCell(coordinates)")
    H = C.graph(rc[0])
    acc = [(i, j) for e, i, j in accesses(H, C) if j is not None]
    R.need(acc and all(i[0] == "fld" and j[0] == "fld" for i, j in acc), "row and column of the grid coordinates")
    fi, fj = acc[0][0][2], acc[0][1][2]
    conv = [f for f in C.methods if "GridCoordinates" in f.d.get("ret", "") and len(f.params) == 2]
    R.need(conv, "conversion of input coordinates to grid coordinates")
    for f in conv:
        K = C.graph(f)
        F = LFacts(K)
        U, V = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        wh = "%s:%d" % (f.file.split("/repo/")[-1], f.line)
        done = set()
        for e in K.ev:
            if e.id not in K.live or e.nid is None or e.nid < 0:
                continue
            if e.kind == "init" and e.d.get("init") in (fi, fj):
                which, t = e.d["init"], K.term(e.frame, e.nid)
            elif e.kind == "stmt" and e.node["k"] == "BinaryOperator" and e.node["op"] == "=":
                o = K.term(e.frame, e.node["c"][0])
                if o[0] != "fld" or o[2] not in (fi, fj) or o[1] == THIS:
                    continue
                which, t = o[2], K.term(e.frame, e.node["c"][1])
            else:
                continue
            want, u, mx, cs = (which == fi) and ({U, 2}, U, 0, 2) or ({V, 3}, V, 1, 3)
            if t[0] == "fld" and t[2] == which or t[0] == "int":
                continue  # a copy of the coordinates
            got = {x for x in roles(t, K) if not (isinstance(x, int) and x in (0, 1))}
            done.add(which)
            R.count("coordinate computations decided")
            nm = "row" if u == U else "column"
            if got != want:
                R.violation("coordinates", strip_tmpl(f.name), nm, wh,
                            "the %s of a point is not computed from its own coordinate and cell size" % nm)
            elif not quotient(expand(K, t), lambda a: u in set(subterms(a)), lambda b: any(role.get(y) == cs for y in subterms(b))):
                R.violation("coordinates", strip_tmpl(f.name), nm, wh, "the %s of a point is not its coordinate divided by the cell size" % nm)
            elif any(y[0] == "call" and last(y[1]) in ("ceil", "round") for y in subterms(expand(K, t))):
                R.violation("coordinates", strip_tmpl(f.name), nm, wh, "the %s of a point is not rounded down" % nm)
        R.need(done == {fi, fj}, "computation of both grid coordinates")
        rets = [e for e in K.ev if e.id in K.live and e.kind == "stmt" and e.frame is K.root and e.node["k"] == "ReturnStmt"]
        for e in rets:
            S = F.at(e.id)
            if S is None:
                continue
            for u, mx in ((U, 0), (V, 1)):
                m = [x for x, r in role.items() if r == mx][0]
                lo = any(x[0] == "le" and x[2] == u and x[3] <= 0 and (x[1][0] in ("float", "int", "zero")) for x in S)
                if not (lo and F.entails_le(S, u, m, -1)):
                    R.violation("coordinates", strip_tmpl(f.name), "test of " + ("row" if mx == 0 else "column"), wh,
                                "a point is given a cell without its %s coordinate being inside the image" % ("row" if mx == 0 else "column"))


def expand(G, t, depth=0):
    """the term with stable locals replaced by what they were computed from"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "var" and len(t) == 4 and depth < 8:
        fr = next((f for f in [G.root] + G.frames if f.id == t[1]), None)
        if fr is not None and t[2] in fr.fn.decls and fr.fn.decls[t[2]][0].get("init") is not None:
            return expand(G, G.term(fr, fr.fn.decls[t[2]][0]["init"]), depth + 1)
        return t
    return tuple(expand(G, x, depth) if isinstance(x, tuple) else x for x in t)


def quotient(t, num, den):
    return any(y[0] == "bin" and y[1] == "/" and num(y[2]) and den(y[3]) and not num(y[3]) for y in subterms(t))


CHECKS = {"P13": P13}
