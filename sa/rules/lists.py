"""The list helpers: erasing by index, keeping the first N, drawing N, averages."""
from ..ir import strip_tmpl
from ..graph import *
from ..graph import deref
from ..facts import is_end, atoms, f_le
from ..bounds import LFacts, ladd, ONE
from ..conj import loops_over, cond_key, returns, results
from .. import programs
from .grid import GFacts, last

FILL, ROUND, SEEN, ACT, CNT, OLD = [("ghost", x) for x in ("filled", "rounds", "listed", "actions", "summed", "old size")]
BLOCKS = {"middleCols": "cols", "middleRows": "rows", "leftCols": "cols", "topRows": "rows", "rightCols": "cols",
          "bottomRows": "rows", "segment": "rows", "head": "rows", "tail": "rows", "col": "cols", "row": "rows"}
NS = "aslam::common::"


def is_iter(t):
    return "__normal_iterator" in t or t.endswith("const_iterator") or t.endswith("::iterator")


def block(t):
    """(what, object, first, number) of a block of rows / columns"""
    if t[0] != "m" or t[1] not in BLOCKS:
        return None
    w, o, a = BLOCKS[t[1]], t[2], tuple(x for x in t[3:] if x[0] != "at")
    if t[1] in ("middleCols", "middleRows", "segment") and len(a) == 2:
        return w, o, a[0], a[1]
    if t[1] in ("leftCols", "topRows", "head") and len(a) == 1:
        return w, o, ("int", 0), a[0]
    if t[1] in ("rightCols", "bottomRows", "tail") and len(a) == 1:
        return w, o, ("bin", "-", ("m", w, o), a[0]), a[0]
    if t[1] in ("col", "row") and len(a) == 1:
        return w, o, a[0], ("int", 1)
    return None


class ListFacts(LFacts):
    """LFacts in which iterators are positions, with ghosts for what was written and which round of a loop it is"""
    def __init__(self, G, loops=(), param=None, **kw):
        self.loops = list(loops)
        self.appends = {}    # event -> (destination, source, first, number, destination position or None, kind)
        self.actions = {}    # event -> position of the element
        self.sums = {}       # event -> (target, value, [positions read])
        self.cuts = {}       # event -> (list, number kept)
        self.sorted = {}     # event -> (list, first, middle, comparator)
        self.action_param = param
        self.dest = None
        self.stay, self.done = {}, {}
        for i, l in enumerate(self.loops):
            for k in l.done_cond:
                self.done[k] = i
                self.stay[k[:3] + (not k[3],)] = i
        self.listed = {}
        super().__init__(G, run=False, **kw)

    def go(self):
        self.IN = forward(self.G, frozenset(), self.step, self.join, self.edge, join_at=self.join_at)
        return self

    def eq(self, d):
        return frozenset({self.fact(d), self.fact(ladd({}, d, -1))})

    def rnd(self, i):
        return ROUND + (i,)

    def seen(self, i):
        return SEEN + (i,)

    def lin(self, t, S=None):
        if t[0] == "m" and t[1] in ("begin", "cbegin") and len(t) == 3:
            return {}
        if is_end(t) and len(t) == 3:
            return {("size", t[2]): 1}
        if t[0] == "call" and last(t[1]) in ("next", "prev") and len(t) in (3, 4):
            n = self.lin(t[3], S) if len(t) == 4 else {ONE: 1}
            return ladd(self.lin(t[2], S), n, 1 if last(t[1]) == "next" else -1)
        if t[0] == "call" and last(t[1]) == "distance" and len(t) == 4:
            return ladd(self.lin(t[3], S), self.lin(t[2], S), -1)
        return super().lin(t, S)

    def position(self, S, t):
        """(container, linear position) of an element"""
        while len(cargs(t) or ()) == 1:
            t = t[2]
        if t[0] == "idx" and len(t) == 3:
            return t[1], self.lin_nowrap(t[2])
        if t[0] == "deref":
            return None, self.lin_nowrap(t[1])
        if t[0] == "elem":
            for i, l in enumerate(self.loops):
                if l.container == t[1] and i in self.inside(self.now):
                    return t[1], {self.rnd(i): 1, ONE: -1}
        if t[0] == "m" and t[1] == "col" and len(t) > 3:
            return t[2], self.lin_nowrap(t[3])
        return None

    def inside(self, evid):
        """loops whose body the event is in"""
        m = getattr(self, "_inside", None)
        if m is None:
            m = self._inside = {}
            for i, l in enumerate(self.loops):
                # from the body without meeting a head, and able to come back to a head
                fwd, work = set(), list(l.body)
                while work:
                    x = work.pop()
                    if x in fwd or x in l.heads:
                        continue
                    fwd.add(x)
                    work += [t for t, _ in self.G.ev[x].succ]
                bwd, work = set(), [p for h in l.heads for p, _ in self.G.ev[h].pred]
                while work:
                    x = work.pop()
                    if x in bwd or x not in fwd:
                        continue
                    bwd.add(x)
                    work += [p for p, _ in self.G.ev[x].pred]
                for x in bwd:
                    m.setdefault(x, set()).add(i)
        return m.get(evid, ())

    def step(self, e, S):
        self.now = e.id
        if e.kind == "entry":
            for g in (FILL, ACT, CNT):
                S = S | self.eq({g: 1})
            for i in range(len(self.loops)):
                S = S | self.eq({self.rnd(i): 1}) | self.eq({self.seen(i): 1, ONE: 1})
            if self.dest is not None:
                S = S | self.eq({OLD: 1, ("size", self.dest): -1})
        return super().step(e, S)

    def edge(self, S, cond):
        S = super().edge(S, cond)
        k = cond_key(cond)
        if S is None or k is None:
            return S
        if k in self.stay:
            i = self.stay[k]
            S = self.subst(S, self.rnd(i), {self.rnd(i): 1, ONE: 1})
            S = self.kill(S, self.seen(i))
            for t in self.element_terms(i):
                S = S | self.eq({self.seen(i): 1, t: -1})
        elif k in self.done:
            i = self.done[k]
            c = self.loops[i].container
            S = S | self.eq({self.rnd(i): 1, ("size", c): -1})
            if self.entails_lin(S, {("size", c): 1, ONE: -1}):
                S = S | self.eq({self.seen(i): 1, ("m", "back", c): -1})
        return S

    def element_terms(self, i):
        if i not in self.listed:
            out = set()
            c = self.loops[i].container
            for e in self.G.ev:
                if e.id in self.G.live and e.kind == "stmt" and i in self.inside(e.id):
                    for t in subterms(self.G.term(e.frame, e.nid)):
                        if t[0] == "elem" and t[1] == c or t[0] == "idx" and len(t) == 3 and t[1] == c and \
                                self.loop_var(i) == t[2]:
                            out.add(t)
            self.listed[i] = out
        return self.listed[i]

    def loop_var(self, i):
        for h in self.loops[i].heads:
            for t, c in self.G.ev[h].succ:
                if c and c[0] == "if":
                    for f in atoms(self.G.term(c[1], c[2]), c[3]):
                        if f[0] == "le":
                            for x in f[1:3]:
                                if x[0] == "var":
                                    return x
        return None

    # ------------------------------------------------------------------------------------------ effects
    def append(self, e, S, dst, src, first, num, at, kind="size"):
        self.appends[e.id] = (dst, src, first, num, at, kind)
        S = self.subst(S, FILL, ladd({FILL: 1}, num))
        if kind == "size":
            S = self.resized(S, dst, ladd({("size", dst): 1}, num))
        return S

    def transfer(self, e, S):
        G, fr = self.G, e.frame
        sup = super().transfer
        if e.kind != "stmt":
            return sup(e, S)
        n = e.node
        k, c = n["k"], n["c"]
        if k == "DeclStmt":
            for d in n["decls"]:
                if is_iter(d["t"]) and d.get("init") is not None:
                    v = G.term(fr, d["init"])
                    if v[0] not in ("unk", "ctor"):
                        S = self.assign(S, ("var", fr.id, d["d"], d["n"]), v)
            S = sup(e, S)
            for d in n["decls"]:
                if d.get("init") is not None and "&" not in d["t"] and any(
                        w in d["t"] for w in ("set<", "vector<")) and not is_iter(d["t"]):
                    v = G.term(fr, d["init"])
                    if cargs(v) == ():
                        x = ("var", fr.id, d["d"], d["n"])
                        S = self.kill(S, x) | self.eq({("size", x): 1})
            return S
        if k == "CXXOperatorCallExpr":
            op = n.get("op")
            ty = fr.fn.nodes[c[1]].get("t", "") if len(c) > 1 else ""
            if op == "()" and self.action_param is not None and len(c) > 2 and G.term(fr, c[1]) == self.action_param:
                p = self.position(S, G.term(fr, c[2]))
                self.actions[e.id] = p
                return self.subst(sup(e, S), ACT, {ACT: 1, ONE: 1})
            if op == "=" and len(c) > 2:
                x, v = G.term(fr, c[1]), G.term(fr, c[2])
                if is_iter(ty) and x[0] == "var":
                    return self.assign(S, x, v)
                b = block(x)
                if b:
                    s = block(v)
                    if s:
                        return self.append(e, S, b[1], s[1], self.lin_nowrap(s[2]), self.lin_nowrap(s[3]),
                                           self.lin_nowrap(b[2]), (b[0], s[0], self.lin_nowrap(b[3])))
                if x[0] == "deref":
                    o = self.inserter(fr, c[1])
                    p = self.position(S, v)
                    if o is not None:
                        return self.append(e, S, o, p[0] if p else None, p[1] if p else None, {ONE: 1}, None)
            if op in ("++", "--") and is_iter(ty) and G.term(fr, c[1])[0] == "var":
                return self.subst(S, G.term(fr, c[1]), {G.term(fr, c[1]): 1, ONE: 1 if op == "++" else -1})
            if op in ("+=", "-=") and is_iter(ty) and G.term(fr, c[1])[0] == "var":
                return self.subst(S, G.term(fr, c[1]), ladd({G.term(fr, c[1]): 1}, self.lin_nowrap(G.term(fr, c[2])),
                                                            1 if op == "+=" else -1))
        if k == "UnaryOperator" and n["op"] in ("++", "--") and n.get("t", "").endswith("*"):
            x = G.term(fr, c[0])
            return self.subst(S, x, {x: 1, ONE: 1 if n["op"] == "++" else -1})
        if k in ("CompoundAssignOperator", "BinaryOperator") and n["op"] in ("+=", "="):
            x, v = G.term(fr, c[0]), G.term(fr, c[1])
            if n["op"] == "=" and v[0] == "bin" and v[1] == "+" and x in v[2:]:
                v = v[3] if v[2] == x else v[2]
            elif n["op"] == "=":
                v = None
            if v is not None and x[0] == "var":
                ps = [self.position(S, t) for t in sorted(set(reads(v)), key=repr)]
                if ps:
                    self.sums[e.id] = (x, v, ps)
                    return self.subst(sup(e, S), CNT + x[2:], {CNT + x[2:]: 1, ONE: 1})
        if k == "CallExpr":
            nm = last(n.get("fn"))
            a = [G.term(fr, y) for y in c[1:] if y >= 0]
            if nm in ("copy", "move") and len(a) == 3:
                o = self.out(a[2])
                if o is not None:
                    return self.append(e, S, o[0], self.owner(a[0]), self.lin_nowrap(a[0]),
                                       ladd(self.lin_nowrap(a[1]), self.lin_nowrap(a[0]), -1), o[1],
                                       "size" if o[1] is None else "raw")
            if nm in ("sort", "stable_sort", "partial_sort", "nth_element") and len(a) > 1:
                i = 2 if nm in ("partial_sort", "nth_element") else 1
                if len(a) > i:
                    self.sorted[e.id] = (nm, a[0], a[1] if i == 2 else None, a[i], a[i + 1] if len(a) > i + 1 else None)
        if k == "CXXMemberCallExpr" and self.callee_frame(fr, e.nid) is None:
            me = fr.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and me["c"]:
                x = G.obj_term(fr, c[0])
                a = [G.term(fr, y) for y in c[1:] if y >= 0]
                nm = me["n"]
                if nm in BLOCKS and me["rec"].startswith("Eigen::"):
                    return S
                if nm == "resize" and me["rec"].startswith("Eigen::") and len(a) == 2:
                    S = self.kill(S, x)
                    for w, v in zip(("rows", "cols"), a):
                        E = self.lin_nowrap(v)
                        if "NoChange" not in repr(v) and not any(contains(y, x) for y in E if isinstance(y, tuple)):
                            S = S | self.eq(ladd({("m", w, x): 1}, E, -1))
                    return S
                if nm in ("push_back", "emplace_back") and len(a) == 1:
                    p = self.position(S, a[0])
                    S = sup(e, S)
                    self.appends[e.id] = (x, p[0] if p else None, p[1] if p else None, {ONE: 1}, None, "size")
                    return self.subst(S, FILL, {FILL: 1, ONE: 1})
                if nm == "insert" and len(a) == 3 and is_end(a[0]) and a[0][2] == x:
                    return self.append(e, S, x, self.owner(a[1]), self.lin_nowrap(a[1]),
                                       ladd(self.lin_nowrap(a[2]), self.lin_nowrap(a[1]), -1), None)
                if nm == "insert" and len(a) == 1 and "set<" in fr.fn.nodes[me["c"][0]].get("t", ""):
                    # a set grows by one or not at all
                    g = ("ghost", "before")
                    S = S | self.eq({g: 1, ("size", x): -1})
                    S = self.kill(S, x) | {self.fact({("size", x): 1, g: -1}), self.fact({g: 1, ("size", x): -1, ONE: 1})}
                    return self.kill(S, g)
                if nm == "erase" and len(a) == 2 and is_end(a[1]) and a[1][2] == x:
                    self.cuts[e.id] = (x, self.lin_nowrap(a[0]))
                    return self.kill(S, x) | self.eq(ladd({("size", x): 1}, self.lin_nowrap(a[0]), -1))
                if nm == "resize" and len(a) == 1 and me["rec"].startswith("std::"):
                    self.cuts[e.id] = (x, self.lin_nowrap(a[0]))
                    return self.kill(S, x) | self.eq(ladd({("size", x): 1}, self.lin_nowrap(a[0]), -1))
                if nm == "pop_back":
                    self.cuts[e.id] = (x, None)
                    return self.resized(S, x, {("size", x): 1, ONE: -1})
                if nm == "clear":
                    self.cuts[e.id] = (x, {})
        return sup(e, S)

    def resized(self, S, x, E):
        """the size of x becomes E; what is known of its end is known of its size"""
        stale = lambda t: t[0] == "m" and t[1] in ("end", "cend", "back") and t[2] == x
        for f in list(S):
            if f[0] in ("lin", "imp"):
                if any(stale(y) for y in subterms(f) if y) if f[0] == "imp" else any(
                        isinstance(a, tuple) and a and isinstance(a[0], str) and any(stale(y) for y in subterms(a)) for a, _ in f[1]):
                    S = S - {f}
            elif any(stale(y) for t in f[1:3] if isinstance(t, tuple) for y in subterms(t)):
                S = S - {f}
                if f[0] == "le":
                    d = ladd(self.lin_nowrap(f[2]), self.lin_nowrap(f[1]), -1)
                    S = S | {self.fact(ladd(d, {ONE: f[3]}))}
        return self.subst(S, ("size", x), E)

    def assign(self, S, x, v):
        E = self.lin_nowrap(v)
        if E.get(x) == 1:
            return self.subst(S, x, E)
        if x in E:
            return self.kill(S, x)
        S = self.kill(S, x)
        return S | self.eq(ladd({x: 1}, E, -1))

    def lin_nowrap(self, t):
        if t[0] == "bin" and t[1] in "+-":
            return ladd(self.lin_nowrap(t[2]), self.lin_nowrap(t[3]), 1 if t[1] == "+" else -1)
        return self.lin(t)

    def owner(self, t):
        """container an iterator expression points into"""
        found, seen, work = set(), set(), [t]
        while work:
            y = work.pop()
            for x in subterms(y):
                if x[0] == "m" and x[1] in ("begin", "end", "cbegin", "cend") and len(x) == 3:
                    found.add(x[2])
                elif x[0] == "var" and x not in seen:
                    seen.add(x)
                    work += self.values(x)
        return found.pop() if len(found) == 1 else None

    def values(self, x):
        """everything that is assigned to a local iterator or pointer"""
        m = getattr(self, "_values", None)
        if m is None:
            m = self._values = {}
            G = self.G
            for e in G.ev:
                if e.id not in G.live or e.kind != "stmt":
                    continue
                n = e.node
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if d.get("init") is not None and (is_iter(d["t"]) or d["t"].endswith("*")):
                            m.setdefault(("var", e.frame.id, d["d"], d["n"]), []).append(G.term(e.frame, d["init"]))
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["c"]) > 2 or \
                        n["k"] == "BinaryOperator" and n["op"] == "=":
                    a, b = n["c"][-2:]
                    t = e.frame.fn.nodes[a].get("t", "")
                    if is_iter(t) or t.endswith("*"):
                        m.setdefault(G.term(e.frame, a), []).append(G.term(e.frame, b))
        return m.get(x, [])

    def out(self, t):
        """(container, position or None when it appends) of an output iterator"""
        if t[0] == "call" and last(t[1]) == "back_inserter":
            return t[2], None
        if t[0] == "call" and last(t[1]) == "inserter" and len(t) == 4 and is_end(t[3]):
            return t[2], None
        o = self.owner(t)
        if o is not None:
            return o, self.lin_nowrap(t)
        return None

    def inserter(self, fr, nid):
        """container the expression *it++ appends to"""
        for x in subterms(self.G.term(fr, nid)):
            if x[0] == "var":
                f2 = next((f for f in [self.G.root] + self.G.frames if f.id == x[1]), None)
                d = f2.fn.decls.get(x[2]) if f2 is not None else None
                if d and d[0].get("init") is not None:
                    o = self.out(self.G.term(f2, d[0]["init"]))
                    if o is not None and o[1] is None:
                        return o[0]
        return None


def reads(t):
    """elements read by a value"""
    if t[0] in ("deref", "elem") or t[0] == "idx" and len(t) == 3:
        yield t
        return
    if t[0] == "size":
        if t[1][0] in ("elem", "deref", "idx"):
            yield t[1]
        return
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from reads(x)


def cargs(t):
    """arguments of a constructor call"""
    if t[0] != "ctor":
        return None
    return () if isinstance(t[2][0], int) else t[2:]


def expand(G, t, depth=0):
    """the value of a local that is never written again"""
    while t[0] == "ctor" and len(t) == 3 and t[2][0] == "var":
        t = t[2]
    if t[0] == "var" and depth < 6:
        fr = next((x for x in [G.root] + G.frames if x.id == t[1]), None)
        d = fr.fn.decls.get(t[2]) if fr is not None else None
        if d and d[0].get("init") is not None and not any(k == "write" for k, _ in fr.fn.writes.get(t[2], [])):
            return expand(G, G.term(fr, d[0]["init"]), depth + 1)
    return t


def fns(prog, name):
    return sorted([f for f in prog.fns.values() if strip_tmpl(f.name) == name and f.blocks], key=lambda f: (f.line, f.key))


def watches(F, G, base):
    """base, and base with each local number or iterator in place of a ghost"""
    out = [dict(b) for b in base]
    return tuple(out)


def local_numbers(G):
    out = []
    for fr in [G.root] + G.frames:
        for d, v in fr.fn.decls.items():
            t = v[0].get("t", "").replace("const ", "")
            if (t.startswith(("unsigned", "int", "long")) or is_iter(t)) and not t.rstrip().endswith("*"):
                if any(k == "write" for k, _ in fr.fn.writes.get(d, [])):
                    out.append(("var", fr.id, d, v[0]["n"]))
    return sorted(out, key=repr)


def show_l(d):
    return " ".join("%+d*%s" % (c, "1" if a == ONE else show(a) if a[0] != "ghost" else a[1]) for a, c in d.items())


# ------------------------------------------------------------------------------------------------ erase by index
def erase(R, prog):
    E = [f for f in fns(prog, NS + "eraseIndicesFromVector")]
    R.need(E, NS + "eraseIndicesFromVector")
    for f in E:
        blocks(R, prog, f, ("param", 0, f.params[0]["n"]), ("param", 1, f.params[1]["n"]), True)
    C = fns(prog, NS + "stl_helpers::eraseIndicesFromContainer")
    R.need(C, NS + "stl_helpers::eraseIndicesFromContainer")
    for f in C:
        con = deref(("param", len(f.params) - 1, f.params[-1]["n"]))
        lst = ("param", 0, f.params[0]["n"])
        if f.params[-1]["t"].replace("const ", "").startswith("std::vector<"):
            delegate(R, prog, f, con, lst)
        else:
            blocks(R, prog, f, con, lst, False)


def delegate(R, prog, f, con, lst):
    """the list overload hands both lists on and stores the result"""
    G = Graph(prog, f, volatile=True, inline=lambda g, *a: last(g.qual) != "eraseIndicesFromVector")
    F = LFacts(G)
    where = f.where()
    nm = strip_tmpl(f.name)

    def result(t, depth=0):
        while t[0] == "call" and last(t[1]) in ("move", "forward"):
            t = t[2]
        if t[0] == "call" and last(t[1]) == "eraseIndicesFromVector" and len(t) == 4:
            return t[2] == con and t[3] == lst
        if len(cargs(t) or ()) == 1:
            return result(t[2], depth + 1)
        if t[0] == "var" and depth < 6:
            fr = next((x for x in [G.root] + G.frames if x.id == t[1]), None)
            d = fr.fn.decls.get(t[2]) if fr is not None else None
            return bool(d and d[0].get("init") is not None and result(G.term(fr, d[0]["init"]), depth + 1))
        return False
    stores = set()
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n, c = e.node, e.node["c"]
        if n["k"] == "CXXMemberCallExpr":
            me = e.frame.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and me["n"] == "swap" and len(c) > 1:
                x, y = G.obj_term(e.frame, c[0]), G.term(e.frame, c[1])
                if x == con and result(y) or y == con and result(x):
                    stores.add(e.id)
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(c) > 2:
            if G.term(e.frame, c[1]) == con and result(G.term(e.frame, c[2])):
                stores.add(e.id)
        elif n["k"] == "CallExpr" and last(n.get("fn")) == "swap" and len(c) == 3:
            x, y = G.term(e.frame, c[1]), G.term(e.frame, c[2])
            if x == con and result(y) or y == con and result(x):
                stores.add(e.id)
    R.count("erasing functions decided")
    ex = [e.id for e in G.ev if e.kind == "exit" and e.frame is G.root]

    def skip(e):
        S = F.at(e.id)
        return e.id in stores or S is not None and e.kind == "stmt" and e.node["k"] == "ReturnStmt" and \
            F.eq0(S, {("size", lst): 1})
    if must_pass(G, 0, ex, skip) is not None:
        R.violation("erase", nm, "stored", where, "may return without having stored the list from which the listed elements were erased")
    count_checked(R, G, F, f, con, stores)


def count_checked(R, G, F, f, con, stores):
    """the number of elements the caller expects is tested before the container changes"""
    if len(f.params) != 3:
        return
    exp = ("param", 1, f.params[1]["n"])
    for i in sorted(stores):
        S = F.at(i)
        if S is None:
            continue
        R.count("expected counts decided")
        sizes = [("size", con), ("m", "cols", con), ("m", "rows", con)] + \
            [("m", w, deref(("fld", con, "matrix"))) for w in ("cols", "rows")]

        def same(e):
            S = F.at(e.id)
            return S is not None and any(F.entails_eq(S, exp, y) for y in sizes)
        ok = same(G.ev[i]) or must_pass(G, 0, [i], same) is None
        if not ok:
            R.violation("erase", strip_tmpl(f.name), "expected count", G.ev[i].where(),
                        "the container is changed without its size having been compared with the expected one")


def blocks(R, prog, f, data, lst, vec):
    G = Graph(prog, f, volatile=True)
    nm = strip_tmpl(f.name)
    lists = {lst}
    sorts = {}
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.node["k"] == "DeclStmt":
            for d in e.node["decls"]:
                if d.get("init") is not None and d["t"].replace("const ", "").startswith("std::vector<unsigned long"):
                    t = G.term(e.frame, d["init"])
                    t = t[2] if len(cargs(t) or ()) == 1 else t
                    if t == lst or GFacts.offset(t, lst) is not None or t[0] == "ctor" and len(t) == 4 and \
                            t[2] == ("m", "begin", lst):
                        lists.add(("var", e.frame.id, d["d"], d["n"]))
    loops = loops_over(G, lambda c: c in lists)
    ldata = deref(("fld", data, "matrix"))
    F = ListFacts(G, loops)
    base = []
    for i, l in enumerate(loops):
        base.append({FILL: 1, F.rnd(i): 1, F.seen(i): -1, ONE: -1})
        for v in local_numbers(G):
            base.append({FILL: 1, v: -1})
            base.append({FILL: 1, F.rnd(i): 1, v: -1})
            base.append({F.rnd(i): 1, v: -1})
    for v in local_numbers(G):
        base.append({FILL: 1, v: -1})
    F.watch = tuple(base)

    def seed(F_, e, S):
        # a copy of the list has its size and last element only
        if e.kind == "stmt" and e.node["k"] == "DeclStmt":
            for d in e.node["decls"]:
                v = ("var", e.frame.id, d["d"], d["n"])
                if v in lists:
                    S = S | F.eq({("size", v): 1, ("size", lst): -1})
        return S
    step = F.step

    def step2(e, S):
        return seed(F, e, step(e, S))
    F.step = step2
    F.go()

    def bad(e, con, msg):
        R.violation("erase", nm, con, e.where() if e is not None else f.where(), msg)
    apps = {i: a for i, a in F.appends.items() if a[1] in (data, ldata) or a[1] is None}
    part = partial(G, F, lists)
    if apps and not loops and part:
        R.count("erasing functions decided")
        for e in part:
            bad(e, "all listed", "the loop over the listed elements leaves some of them out")
        return
    if not apps or not loops:
        R.note("%s at %s does not copy blocks between listed elements: not decided" % (nm, f.where()))
        R.count("erasing functions not decided")
        return
    R.count("erasing functions decided")
    dsts = {a[0] for a in apps.values()}
    if len(loops) != 1 or len(dsts) != 1 or any(a[1] is None or a[2] is None for a in apps.values()):
        R.note("%s at %s: source or destination of a copy is not decided" % (nm, f.where()))
        return
    dst = dsts.pop()
    l = loops[0]
    for i, (d, s, first, num, at, kind) in sorted(apps.items()):
        e, S = G.ev[i], F.at(i)
        if S is None:
            continue
        R.count("copied blocks decided")
        ins = 0 in F.inside(i)
        head = {FILL: 1, F.rnd(0): 1}
        if ins:
            head[ONE] = -1
        if not F.eq0(S, ladd(first, head, -1)):
            bad(e, "start of the block", "a block that is kept does not start right after the previously listed element")
            continue
        if at is not None and not F.eq0(S, ladd(at, {FILL: 1}, -1)):
            bad(e, "destination of the block", "a block that is kept is not stored right after the previous one")
            continue
        if isinstance(kind, tuple) and (kind[0] != kind[1] or not F.eq0(S, ladd(num, kind[2], -1))):
            bad(e, "shape of the block", "source and destination of a block that is kept differ in shape")
            continue
        if not F.entails_lin(S, num):
            bad(e, "length of the block", "a block may have a negative length: the listed elements may repeat or be out of order")
            continue
        if ins and not F.entails_lin(S, ladd({F.seen(0): 1}, ladd(first, num), -1)):
            bad(e, "end of the block", "a block that is kept reaches beyond the next listed element")
    for h in sorted(l.heads):
        S = F.at(h)
        if S is not None and not F.eq0(S, {FILL: 1, F.rnd(0): 1, F.seen(0): -1, ONE: -1}):
            bad(G.ev[h], "listed element", "after a round not exactly the elements up to the listed one were kept or skipped")
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
            me = e.frame.fn.nodes[e.node["c"][0]]
            if me["k"] == "MemberExpr" and me["n"] in ("back", "front") and me["rec"].startswith("std::"):
                S = F.at(e.id)
                if S is not None:
                    R.count("ends of lists decided")
                    x = G.obj_term(e.frame, e.node["c"][0])
                    if not F.entails_lin(S, {("size", x): 1, ONE: -1}):
                        bad(e, me["n"] + " of an empty list", "the %s element of a list that may be empty is read" % (
                            "last" if me["n"] == "back" else "first"))
    # the end
    ends = []
    kind = next(iter(apps.values()))[5]
    N = {("m", kind[0], ldata if dst != data and any(a[1] == ldata for a in apps.values()) else data): 1} \
        if isinstance(kind, tuple) else {("size", data): 1}
    outs = set()
    if vec:
        for e in returns(G):
            S = F.at(e.id)
            if S is None:
                continue
            for fr, i in results(G, e.frame, e.node["c"][0]):
                t = G.term(fr, i)
                while len(cargs(t) or ()) == 1 or t[0] == "call" and last(t[1]) == "move":
                    t = t[2]
                R.count("results decided")
                if t == data:
                    if not F.eq0(S, {("size", lst): 1}):
                        bad(e, "unchanged result", "all elements are returned although some are listed")
                elif t == dst:
                    ends.append((e, S))
                elif not (cargs(t) == () and F.entails_lin(S, ladd({("size", lst): 1}, N, -1))):
                    bad(e, "result", "something else than the kept elements is returned")
    else:
        sw = set()
        for e in G.ev:
            if e.id not in G.live or e.kind != "stmt":
                continue
            n, c = e.node, e.node["c"]
            x = y = None
            if n["k"] == "CXXMemberCallExpr" and e.frame.fn.nodes[c[0]]["k"] == "MemberExpr" and \
                    e.frame.fn.nodes[c[0]]["n"] == "swap" and len(c) > 1 and F.callee_frame(e.frame, e.nid) is None:
                x, y = G.obj_term(e.frame, c[0]), G.term(e.frame, c[1])
            elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(c) > 2:
                x, y = G.term(e.frame, c[1]), G.term(e.frame, c[2])
                while y[0] == "call" and last(y[1]) == "move":
                    y = y[2]
            elif n["k"] == "CallExpr" and last(n.get("fn")) == "swap" and len(c) == 3:
                x, y = G.term(e.frame, c[1]), G.term(e.frame, c[2])
            if x is not None and {x, y} & {data, ldata} and dst in (x, y) and x != y:
                sw.add(e.id)
                S = F.at(e.id)
                if S is not None:
                    ends.append((e, S))

        def skip(e):
            S = F.at(e.id)
            return e.id in sw or S is not None and e.kind == "stmt" and e.node["k"] == "ReturnStmt" and \
                F.eq0(S, {("size", lst): 1})
        ex = [e.id for e in G.ev if e.kind == "exit" and e.frame is G.root]
        R.count("results decided")
        if must_pass(G, 0, ex, skip) is not None:
            bad(None, "stored", "may return without having stored the kept elements in the container")
        count_checked(R, G, F, f, data, sw)
    totals = [N]
    if len(f.params) == 3 and not any(k == "write" for k, _ in f.writes.get(1, [])):
        totals.append({("param", 1, f.params[1]["n"]): 1})    # compared with the size of the container (count_checked)
    for e, S in ends:
        if not any(F.eq0(S, ladd({FILL: 1, F.rnd(0): 1}, n, -1)) for n in totals):
            bad(e, "last block", "the elements behind the last listed one are not all kept")
        elif not F.eq0(S, {F.rnd(0): 1, ("size", lst): -1}):
            bad(e, "all listed", "not every listed element is skipped")
        if isinstance(kind, tuple):
            R.count("result sizes decided")
            if not F.eq0(S, {("m", kind[0], dst): 1, FILL: -1}):
                bad(e, "size of the result", "the result is not as large as what was kept")
            other = "rows" if kind[0] == "cols" else "cols"
            src = next(iter(apps.values()))[1]
            o = F.lin(("m", other, dst))
            if not F.eq0(S, ladd(o, F.lin(("m", other, src)), -1)) and not fixed(F, dst, other):
                bad(e, "shape of the result", "the result does not have as many %s as the container" % other)
    # the order of the list
    if vec:
        sort = set()
        for i, (s, b, m, e2, cmp) in F.sorted.items():
            if s in ("sort", "stable_sort") and is_end(e2) and e2[2] == l.container and GFacts.offset(b, e2[2]) == ("int", 0) and \
                    (cmp is None or "less" in repr(cmp)):
                sort.add(i)
        R.count("orders decided")
        if must_pass(G, 0, sorted(l.heads), lambda e: e.id in sort) is not None and not sorted_type(G, l.container):
            bad(None, "order of the list", "the list of indices is used without being sorted")


def partial(G, F, lists):
    """conditions of loops over one of the lists that begin behind its first or end before its last element"""
    out = []
    for e in G.ev:
        if e.id not in G.live:
            continue
        for t, c in e.succ:
            if not c or c[0] != "if":
                continue
            for f in atoms(G.term(c[1], c[2]), c[3]):
                if f[0] not in ("le", "ne"):
                    continue
                d = ladd(F.lin_nowrap(f[2]), F.lin_nowrap(f[1]), -1)
                vs = [x for x in d if isinstance(x, tuple) and x[0] == "var"]
                ss = [x for x in d if x[0] == "size" and x[1] in lists]
                if len(vs) != 1 or len(ss) != 1 or set(d) - {vs[0], ss[0], ONE} or d[vs[0]] != -d[ss[0]] or abs(d[vs[0]]) != 1:
                    continue
                if e.id not in reach_after(G, e.id):
                    continue
                k = d.get(ONE, 0) + (f[3] if f[0] == "le" else 0)
                fr, dd = next(((x, x.fn.decls[vs[0][2]][0]) for x in [G.root] + G.frames if x.id == vs[0][1] and
                               vs[0][2] in x.fn.decls), (None, None))
                if dd is None or dd.get("init") is None or d[ss[0]] != 1:
                    continue
                start = F.lin_nowrap(G.term(fr, dd["init"]))
                if start and set(start) != {ONE}:
                    continue
                # stays while var + (-k) <= size + ...: exact is var <= size - 1
                if start or f[0] == "le" and k != -1 or f[0] == "ne" and k != 0:
                    out.append(e)
    return out


def fixed(F, dst, what):
    d = F.fixed_dims().get(dst)
    return bool(d) and d[what == "cols"] > 0


def sorted_type(G, c):
    return False


# ------------------------------------------------------------------------------------------------ keep the first N
def keep_n(R, prog):
    K = fns(prog, NS + "keepOnlyNSortedElements")
    R.need(K, NS + "keepOnlyNSortedElements")
    for f in K:
        nm = strip_tmpl(f.name)
        G = Graph(prog, f, volatile=True)
        P = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        con, mx = deref(P[2]), P[0]
        loops = loops_over(G, lambda c: c == con)
        F = ListFacts(G, loops, param=P[3])
        F.dest = con
        sz = ("size", con)
        base = [{OLD: 1, sz: -1}, {OLD: 1, ACT: -1, sz: -1}, {OLD: 1, ACT: -1, mx: -1}, {sz: 1, mx: -1}]
        for v in local_numbers(G):
            base += [{ACT: 1, v: -1}, {ACT: 1, v: -1, mx: 1}]
        for i in range(len(loops)):
            base += [{ACT: 1, F.rnd(i): -1}]
        F.watch = tuple(base)
        F.go()

        def bad(e, con_, msg):
            R.violation("keep", nm, con_, e.where(), msg)
        R.count("cutting functions decided")
        for i, p in sorted(F.actions.items()):
            S = F.at(i)
            if S is None:
                continue
            R.count("removal actions decided")
            if p is None or p[0] not in (None, con):
                R.note("%s: the element given to the action is not decided" % G.ev[i].where())
            elif not F.eq0(S, ladd(ladd(p[1], {mx: 1}, -1), {ACT: 1}, -1)):
                bad(G.ev[i], "action", "the action is not run on the removed elements one after the other")
        for e in returns(G):
            S = F.at(e.id)
            if S is None:
                continue
            R.count("cut results decided")
            if not (F.eq0(S, {sz: 1, mx: -1}) or F.eq0(S, {sz: 1, OLD: -1}) and F.entails_lin(S, {mx: 1, sz: -1})):
                bad(e, "number kept", "neither exactly the given number is kept nor everything of a short enough list")
            if not F.eq0(S, {ACT: 1, OLD: -1, sz: 1}):
                bad(e, "number of actions", "the action is not run once per removed element")
            t = F.lin_nowrap(G.term(e.frame, e.node["c"][0]))
            if not F.eq0(S, ladd(t, {sz: 1}, -1)):
                bad(e, "returned number", "the number returned is not the number of elements kept")
        for i, (x, k) in sorted(F.cuts.items()):
            S = F.at(i)
            if S is None or x != con or k == {}:
                continue
            R.count("cuts decided")
            if k is None:
                k = ladd({sz: 1}, {ONE: 1}, -1)
            good = {j for j, s in F.sorted.items() if prefix(F, j, s, con, k, P[1], {mx: 1})}
            if not good or must_pass(G, 0, [i], lambda e: e.id in good) is not None:
                bad(G.ev[i], "order", "the elements are cut without those to keep having been ordered to the front by the given comparator")
            acts = set(F.actions)
            if any(a in reach_after(G, i) for a in acts):
                bad(G.ev[i], "action after the cut", "the action runs after the elements were removed")


def reach_after(G, i):
    out, work = set(), [t for t, _ in G.ev[i].succ]
    while work:
        x = work.pop()
        if x not in out:
            out.add(x)
            work += [t for t, _ in G.ev[x].succ]
    return out


def prefix(F, j, s, con, k, cmp, mx):
    """the ordering at event j brings the first k elements of con (by cmp) to the front"""
    nm, b, m, e, c = s
    if c != cmp or not is_end(e) or e[2] != con or GFacts.offset(b, con) != ("int", 0):
        return False
    S = F.at(j)
    if S is None:
        return False
    if m is None:
        return True
    d = ladd(F.lin_nowrap(m), k, -1)
    if not F.entails_lin(S, ladd({("size", con): 1}, F.lin_nowrap(m), -1)):
        return False
    if F.entails_lin(S, ladd({}, d, -1)) and F.eq0(S, ladd(F.lin_nowrap(m), mx, -1)):
        return True    # cut further later: the number kept in the end is checked where the function returns
    if nm == "partial_sort":
        return F.entails_lin(S, d)
    return F.eq0(S, d) or F.eq0(S, ladd(d, {ONE: 1}))


# ------------------------------------------------------------------------------------------------ draw
def draw(R, prog):
    D = [f for f in fns(prog, NS + "drawNRandomElements")]
    R.need(D, NS + "drawNRandomElements")
    for f in D:
        nm = strip_tmpl(f.name)
        G = Graph(prog, f, volatile=True)
        P = [("param", i, p["n"]) for i, p in enumerate(f.params)]
        n, inp, out = P[0], P[1], deref(P[2])
        ty = {}
        for fr in [G.root] + G.frames:
            for d, v in fr.fn.decls.items():
                ty[("var", fr.id, d, v[0]["n"])] = v[0].get("t", "")
        loops = loops_over(G, lambda c: c != inp)
        F = ListFacts(G, loops)
        F.dest = inp
        so = ("size", out)
        base = [{OLD: 1, ("size", inp): -1}]
        for i, l in enumerate(loops):
            base += [{so: 1, F.rnd(i): -1}, {FILL: 1, F.rnd(i): -1}]
        for v in ty:
            if "set<" in ty[v] or "vector<" in ty[v]:
                base.append({("size", v): 1, n: -1})
        F.watch = tuple(base)
        F.go()

        def bad(e, con_, msg):
            R.violation("draw", nm, con_, e.where() if e is not None else f.where(), msg)
        whole, apps = [], []
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXOperatorCallExpr" and e.node.get("op") == "=" and \
                    len(e.node["c"]) > 2 and G.term(e.frame, e.node["c"][1]) == out:
                whole.append((e, G.term(e.frame, e.node["c"][2])))
        apps = [(G.ev[i], a) for i, a in sorted(F.appends.items()) if a[0] == out]
        if not apps or any(a[2] is None for _, a in apps):
            R.note("%s at %s: how the drawn elements are stored is not decided" % (nm, f.where()))
            continue
        R.count("drawing functions decided")
        wid = set()
        for e, v in whole:
            S = F.at(e.id)
            if S is None:
                continue
            wid.add(e.id)
            R.count("draws decided")
            if v != inp or not F.entails_lin(S, {n: 1, ("size", inp): -1}):
                bad(e, "whole input", "the whole input is returned although it has more elements than asked for")
        for e, (d, s, first, num, at, kind) in apps:
            S = F.at(e.id)
            if S is None:
                continue
            R.count("draws decided")
            if s is not None and s != inp:
                bad(e, "source", "a drawn element does not come from the input")
                continue
            if len(first) != 1 or next(iter(first.values())) != 1:
                R.note("%s: the index of a drawn element is not decided" % e.where())
                continue
            x = expand(G, next(iter(first)))
            src = x[1] if x[0] == "elem" else None
            if src is None or src not in ty:
                R.note("%s: where the index of a drawn element comes from is not decided" % e.where())
                continue
            if "set<" not in ty[src]:
                bad(e, "distinct", "the drawn indices are not kept in a set: an element may be drawn twice")
            elif "multiset<" in ty[src]:
                bad(e, "distinct", "the drawn indices may repeat: an element may be drawn twice")
            ins = F.inside(e.id)
            if not any(F.loops[i].container == src for i in ins):
                bad(e, "all drawn", "not every drawn index is used")
        # how many
        ex = [e for e in G.ev if e.kind == "exit" and e.frame is G.root]
        heads = [h for l in loops for h in l.heads]
        for e in ex:
            # the state on the way that did not return the whole input
            S0 = F.IN.get(0)
            IN = forward(G, frozenset(), F.step, F.join, F.edge, join_at=F.join_at, stop=lambda e: e.id in wid)
            S = IN.get(e.id)
            if S is None:
                continue
            R.count("draws decided")
            if not F.eq0(S, {so: 1, n: -1}):
                bad(None, "number", "not exactly the given number of elements is drawn")
        # range of the indices
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
                me = e.frame.fn.nodes[e.node["c"][0]]
                if me["k"] == "MemberExpr" and me["n"] in ("insert", "emplace") and len(e.node["c"]) == 2 and \
                        G.obj_term(e.frame, e.node["c"][0]) in {l.container for l in loops}:
                    t = expand(G, G.term(e.frame, e.node["c"][1]))
                    drawn = [x for x in subterms(t) if x[0] == "idx" and len(x) == 3 and "uniform_int" in ty.get(x[1], "")]
                    if drawn:
                        R.count("draws decided")
                        if t not in drawn:
                            bad(e, "range", "something else than the drawn index is used")
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "DeclStmt":
                for d in e.node["decls"]:
                    if "uniform_int_distribution" in d["t"] and d.get("init") is not None:
                        t = G.term(e.frame, d["init"])
                        S = F.at(e.id)
                        if t[0] == "ctor" and len(t) == 4 and S is not None:
                            R.count("draws decided")
                            if t[2] != ("int", 0) or not F.eq0(S, ladd(ladd(F.lin_nowrap(t[3]), {("size", inp): 1}, -1), {ONE: 1})):
                                bad(e, "range", "the indices are not drawn from all elements of the input")
                    if ("engine" in d["t"] or "mt19937" in d["t"] or "mersenne" in d["t"]) and d.get("init") is not None:
                        t = G.term(e.frame, d["init"])
                        seed(R, G, e, t, P[3] if len(P) > 3 else None, bad)
                        if d.get("static") or d.get("tls"):
                            bad(e, "state", "the generator is kept between calls: what is drawn depends on earlier draws")


def seed(R, G, e, t, flag, bad):
    """the generator is seeded with a constant iff the flag asks for it"""
    def expand(t, depth=0):
        if len(cargs(t) or ()) == 1:
            return expand(t[2], depth + 1)
        if t[0] == "var" and depth < 6:
            fr = next((x for x in [G.root] + G.frames if x.id == t[1]), None)
            d = fr.fn.decls.get(t[2]) if fr is not None else None
            if d and d[0].get("init") is not None and not any(k == "write" for k, _ in fr.fn.writes.get(t[2], [])):
                return expand(G.term(fr, d[0]["init"]), depth + 1)
        return t
    t = expand(t)
    rnd = lambda x: any(y[0] == "ctor" and "random_device" in y[1] for y in subterms(x))
    if t[0] == "cond" and len(t) == 4:
        c, a, b = t[1], t[2], t[3]
        while c[0] == "un" and c[1] == "!":
            c, a, b = c[2], b, a
        R.count("draws decided")
        if c in (("int", 0), ("int", 1), ("bool", 0), ("bool", 1)):
            t = a if c[1] else b
        elif c == flag:
            if rnd(a) or not rnd(b):
                bad(e, "seed", "the generator is not seeded with a constant exactly when that is asked for")
            return
        else:
            return
    if t[0] == "int" and flag is None:
        bad(e, "seed", "the generator is seeded with a constant although that was not asked for")
    elif flag is not None and not contains(t, flag) and t[0] != "var":
        R.count("draws decided")
        bad(e, "seed", "whether the seed is fixed does not depend on the argument")


# ------------------------------------------------------------------------------------------------ averages, sums
def averages(R, prog):
    for name in ("mean", "stddev", "median"):
        fs = [f for f in fns(prog, NS + name) if len(f.params) == 2]
        R.need(fs, NS + name)
        for f in fs:
            G = Graph(prog, f, volatile=True, inline=lambda g, *a: last(g.qual) != "mean")
            F = ListFacts(G, [])
            b, e = [("param", i, p["n"]) for i, p in enumerate(f.params)]
            base = []
            accs = {}
            F.go()
            for i, (x, v, ps) in F.sums.items():
                accs.setdefault(x, []).append(i)
            for x in accs:
                for v in local_numbers(G):
                    base.append({CNT + x[2:]: 1, v: -1, b: 1})
            F = ListFacts(G, [])
            st = F.step

            def step(ev, S, st=st, F=F, accs=accs):
                if ev.kind == "entry":
                    for x in accs:
                        S = S | F.eq({CNT + x[2:]: 1})
                return st(ev, S)
            F.step = step
            F.watch = tuple(base)
            F.go()

            def bad(ev, con, msg):
                R.violation("average", strip_tmpl(f.name), con, ev.where(), msg)
            R.count("averages decided")
            # never of nothing
            for ev in returns(G):
                S = F.at(ev.id)
                if S is None:
                    continue
                ne = ("bin", "!=", b, e)
                if not (("ne", b, e, 0) in S or ("ne", e, b, 0) in S or F.entails_true(S, ne) or F.entails_true(S, ("bin", "!=", e, b)) or
                        F.entails_lin(S, {e: 1, b: -1, ONE: -1})):
                    bad(ev, "empty", "an average of no elements is returned")
                if name == "median":
                    middle(R, G, F, ev, S, b, e, bad)
                else:
                    sums(R, G, F, ev, S, b, e, bad, name)


def sums(R, G, F, ev, S, b, e, bad, name):
    t = G.term(ev.frame, ev.node["c"][0])
    if name == "stddev":
        if t[0] != "call" or last(t[1]) != "sqrt" or len(t) != 3:
            R.note("%s: the standard deviation is not computed as a root: not decided" % ev.where())
            return
        t = t[2]
    num = {("bin", "-", e, b)}
    if t[0] != "bin" or t[1] != "/":
        R.note("%s: not a quotient: not decided" % ev.where())
        return
    if F.lin_nowrap(t[3]) != ladd({e: 1}, {b: 1}, -1):
        bad(ev, "number", "the sum is not divided by the number of elements")
        return
    x = t[2]
    own = [i for i, s in F.sums.items() if s[0] == x]
    if not own:
        R.note("%s: how the elements are summed is not decided" % ev.where())
        return
    if not F.eq0(S, ladd({CNT + x[2:]: 1}, ladd({e: 1}, {b: 1}, -1), -1)):
        bad(ev, "all elements", "not every element is added exactly once")
    for i in own:
        S2 = F.at(i)
        v = F.sums[i][1]
        R.count("sums decided")
        ok = False
        for y in reads(v):
            p = F.position(S2, y)
            if p is None or not F.eq0(S2, ladd(ladd(p[1], {b: 1}, -1), {CNT + x[2:]: 1}, -1)):
                bad(G.ev[i], "element", "a summand is not the next element")
        rs = set(reads(v))
        if name == "mean":
            ok = len(rs) == 1 and v in rs
        else:
            ok = len(rs) == 1 and square(G, v, next(iter(rs)), b, e)
        if not ok:
            bad(G.ev[i], "summand", "a summand is not %s" % ("the element" if name == "mean" else
                                                             "the squared difference of the element to the mean"))


def square(G, v, y, b, e):
    def mean(t, depth=0):
        if t[0] == "call" and last(t[1]) == "mean" and t[2:] == (b, e):
            return True
        if t[0] == "var" and depth < 5:
            fr = next((x for x in [G.root] + G.frames if x.id == t[1]), None)
            d = fr.fn.decls.get(t[2]) if fr is not None else None
            return bool(d and d[0].get("init") is not None and not any(k == "write" for k, _ in fr.fn.writes.get(t[2], [])) and
                        mean(G.term(fr, d[0]["init"]), depth + 1))
        return False

    def expand(t, depth=0):
        if t[0] == "var" and depth < 5 and not mean(t):
            fr = next((x for x in [G.root] + G.frames if x.id == t[1]), None)
            d = fr.fn.decls.get(t[2]) if fr is not None else None
            if d and d[0].get("init") is not None and not any(k == "write" for k, _ in fr.fn.writes.get(t[2], [])):
                return expand(G.term(fr, d[0]["init"]), depth + 1)
        return t

    def diff(t):
        t = expand(t)
        return t[0] == "bin" and t[1] == "-" and (expand(t[2]) == y and mean(t[3]) or expand(t[3]) == y and mean(t[2]))
    v = expand(v)
    if v[0] == "bin" and v[1] == "*":
        return diff(v[2]) and diff(v[3])
    if v[0] == "call" and last(v[1]) == "pow" and len(v) == 4:
        return diff(v[2]) and v[3] in (("int", 2), ("float", "2"), ("float", 2.0))
    return False


def middle(R, G, F, ev, S, b, e, bad):
    """the median: the middle element, or half of the sum of both middle ones, each read while it is in its place"""
    N = ladd({e: 1}, {b: 1}, -1)
    half = ("bin", "/", ("bin", "-", e, b), ("int", 2))
    odd = None
    for x in S:
        if x[0] in "TF" or x[0] in ("le", "ne"):
            for y in x[1:3]:
                if isinstance(y, tuple) and y and y[0] == "bin" and y[1] == "%":
                    if F.lin_nowrap(y[2]) == N and y[3] == ("int", 2):
                        ne = lambda v: ("ne", y, v, 0) in S or ("ne", v, y, 0) in S
                        if F.entails_le(S, y, ("int", 0), 0) or ne(("int", 1)):
                            odd = False
                        elif F.entails_le(S, ("int", 1), y, 0) or ne(("int", 0)) or ne(("zero",)):
                            odd = True
    if odd is None:
        R.note("%s: parity of the number of elements is not decided here" % ev.where())
        return
    R.count("medians decided")

    def value(fr, nid, at, depth=0):
        """(position, event where it is read) of an element read"""
        t = G.term(fr, nid)
        if t[0] == "deref":
            return F.lin_nowrap(t[1]), at
        if t[0] == "var" and depth < 5:
            f2 = next((x for x in [G.root] + G.frames if x.id == t[1]), None)
            d = f2.fn.decls.get(t[2]) if f2 is not None else None
            if d and d[0].get("init") is not None and not any(k == "write" for k, _ in f2.fn.writes.get(t[2], [])):
                for e2 in G.ev:
                    if e2.id in G.live and e2.kind == "stmt" and e2.node["k"] == "DeclStmt" and e2.frame is f2 and any(
                            x["d"] == t[2] for x in e2.node["decls"]):
                        return value(f2, d[0]["init"], e2.id, depth + 1)
        return None
    hi, lo = ladd({b: 1}, {half: 1}), ladd(ladd({b: 1}, {half: 1}), {ONE: -1})
    # the places that are right at an event: after nth_element(begin, p, end) only p (and what is left of it is not ordered)

    def placed(i, p):
        good = set()
        kill = set()
        for j, (nm, b2, m, e2, cmp) in F.sorted.items():
            if F.lin_nowrap(e2) == {e: 1} and F.lin_nowrap(b2) == {b: 1} and cmp is None and (
                    m is None or nm == "nth_element" and F.lin_nowrap(m) == p or
                    nm == "partial_sort" and F.lin_nowrap(m) in (ladd(p, {ONE: 1}), ladd(p, {ONE: 2}))):
                good.add(j)
            elif not (nm == "nth_element" and F.lin_nowrap(b2) == {b: 1} and F.lin_nowrap(e2) == p):
                kill.add(j)
        if must_pass(G, 0, [i], lambda x: x.id in good) is not None:
            return False
        for j in kill:
            if must_pass(G, j, [i], lambda x: x.id in good) is not None:
                return False
        return True
    fr, nid = ev.frame, ev.node["c"][0]
    t = G.term(fr, nid)
    if odd:
        v = value(fr, nid, ev.id)
        if v is None or v[0] != hi or not placed(v[1], hi):
            bad(ev, "odd number", "for an odd number of elements not the middle one of the ordered elements is returned")
        return
    # half of a sum
    n = fr.fn.nodes[nid]
    while n["k"] in CASTS and len(n["c"]) == 1:
        nid = n["c"][0]
        n = fr.fn.nodes[nid]
    parts = None
    if n["k"] == "BinaryOperator" and n["op"] in "/*":
        q = strip_casts(fr, n["c"][0])
        if fr.fn.nodes[q]["k"] == "BinaryOperator" and fr.fn.nodes[q]["op"] == "+":
            parts = [strip_casts(fr, x) for x in fr.fn.nodes[q]["c"]]
        if n.get("t", "double") not in ("double", "float", "long double"):
            bad(ev, "even number", "the mean of both middle elements is cut to an integer")
            return
    if parts is None and value(fr, nid, ev.id) is not None:
        bad(ev, "even number", "for an even number of elements not both middle ones are averaged")
        return
    if parts is None:
        R.note("%s: the mean of both middle elements is not decided" % ev.where())
        return
    vs = [value(fr, p, ev.id) for p in parts]
    if any(v is None for v in vs):
        R.note("%s: the mean of both middle elements is not decided" % ev.where())
        return
    got = [v[0] for v in vs]
    if sorted(got, key=repr) != sorted([hi, lo], key=repr):
        bad(ev, "even number", "for an even number of elements not both middle ones are averaged")
        return
    for v in vs:
        if not placed(v[1], v[0]):
            bad(ev, "even number", "a middle element is read while the elements are not ordered around it")


def strip_casts(fr, nid):
    n = fr.fn.nodes[nid]
    while n["k"] in set(CASTS) | {"ParenExpr"} and len(n["c"]) == 1:
        nid = n["c"][0]
        n = fr.fn.nodes[nid]
    return nid


def nested(R, prog):
    fs = fns(prog, NS + "countNumberOfElementsInNestedList")
    R.need(fs, NS + "countNumberOfElementsInNestedList")
    for f in fs:
        G = Graph(prog, f, volatile=True)
        p = ("param", 0, f.params[0]["n"])
        loops = loops_over(G, lambda c: c == p)
        F = ListFacts(G, loops).go()
        if not loops:
            R.note("%s: how the elements are counted is not decided" % f.where())
            continue
        R.count("sums decided")
        for e in returns(G):
            x = G.term(e.frame, e.node["c"][0])
            own = {i: s for i, s in F.sums.items() if s[0] == x and s[1][0] == "size" and s[1][1][0] in ("elem", "idx") and
                   s[1][1][1] == p}
            other = [i for i, s in F.sums.items() if s[0] == x and i not in own]
            ok = own and not other
            for l in loops:
                for b in l.body:
                    if must_pass(G, b, sorted(l.heads), lambda e: e.id in own) is not None and b not in own:
                        ok = False
            if len(own) != 1 or not ok:
                R.violation("count", strip_tmpl(f.name), "sum", e.where(), "not the size of every inner list is added once")


def convert(R, prog):
    fs = fns(prog, NS + "convertEigenToStlVector")
    R.need(fs, NS + "convertEigenToStlVector")
    for f in fs:
        G = Graph(prog, f, volatile=True)
        p, out = ("param", 0, f.params[0]["n"]), deref(("param", 1, f.params[1]["n"]))
        F = ListFacts(G)
        F.watch = tuple({FILL: 1, v: -1} for v in local_numbers(G))
        F.go()
        apps = {i: a for i, a in F.appends.items() if a[0] == out}
        if not apps or any(a[2] is None for a in apps.values()):
            R.note("%s: how the columns are copied is not decided" % f.where())
            continue
        R.count("sums decided")
        for i, a in apps.items():
            S = F.at(i)
            if S is not None and (a[1] != p or not F.eq0(S, ladd(a[2], {FILL: 1}, -1))):
                R.violation("columns", strip_tmpl(f.name), "column", G.ev[i].where(), "the elements are not the columns in their order")
        for e in G.ev:
            if e.kind == "exit" and e.frame is G.root:
                S = F.at(e.id)
                if S is not None and not F.eq0(S, {FILL: 1, ("m", "cols", p): -1}):
                    R.violation("columns", strip_tmpl(f.name), "number", f.where(), "not every column is copied")
        clears = {e.id for e in G.ev if e.id in G.live and e.kind == "stmt" and e.id in F.cuts and F.cuts[e.id] == (out, {})}
        if must_pass(G, 0, sorted(apps), lambda e: e.id in clears) is not None:
            R.violation("columns", strip_tmpl(f.name), "clear", f.where(), "what the output held before is kept")


def P14(R):
    R.rule("erase", "blocks between listed elements are copied gaplessly to consecutive places: start, length, destination and end "
           "of every block are linear facts over the number of rounds; the rest follows; the result replaces the container")
    R.rule("keep", "after the cut exactly the given number (or a whole short list) remains, ordered to the front by the given "
           "comparator before the cut; the action runs once on each removed element before; the number kept is returned")
    R.rule("draw", "indices come from a set, range over all elements, and as many as asked for are used")
    R.rule("average", "an average is never taken of nothing; every element is added once; the median reads ordered places")
    R.rule("count", "the size of every inner list is added once")
    R.rule("columns", "every column is copied once, in order")
    prog = programs.common("common_headers.cc")
    erase(R, prog)
    keep_n(R, prog)
    draw(R, prog)
    averages(R, prog)
    nested(R, prog)
    convert(R, prog)


CHECKS = {"P14": P14}
