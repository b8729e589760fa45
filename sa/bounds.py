"""Linear must-facts: Facts plus linear inequalities over terms (a weakly relational polyhedral domain).

  ('lin', ((atom, coef), ...), k)     sum coef*atom + k >= 0

The difference facts ('le', x, y, c) recorded by Facts already carry compound terms; they are read as linear
inequalities over the atoms of x and y. Assignments that Facts drops (x += e, x = x - e) rewrite the inequalities, and
a killed location is projected away (Fourier-Motzkin) instead of dropping all that mentions it.
A product of atoms is one atom. a - b counts as linear only where a >= b is entailed (unsigned arithmetic); additive
wrap-around of 64-bit sizes is not modelled.
"""
import re
from .graph import *
from .facts import Facts, Z, nonneg, lin as lin_, f_le, atoms

UNSIGNED = ("unsigned", "size_t", "uint", "std::size_t")


INTEGERS = ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long",
            "size_t", "std::size_t")


def is_unsigned(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t.startswith(UNSIGNED) and "*" not in t


def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0:
            del r[x]
    return r


ONE = ("one",)


class LFacts(Facts):
    MAXROWS = 600

    def __init__(self, G, watch=(), **kw):
        self.watch = watch  # linear forms whose being zero is kept at joins
        self.types = None
        self.joins = {}
        super().__init__(G, **kw)

    # ------------------------------------------------------------------------------------------ types
    def _types(self):
        vt, ft = {}, {}
        for fr in [self.G.root] + self.G.frames:
            for n in fr.fn.nodes:
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        vt[d["d"]] = d["t"]
                elif n["k"] == "MemberExpr" and n.get("mk") == "field":
                    ft.setdefault(n["n"], set()).add(n.get("t", ""))
            for p in fr.fn.params:
                vt[p["d"]] = p["t"]
        self.types = (vt, ft)
        return self.types

    def nonneg(self, t):
        if t[0] == "mul":
            return all(self.nonneg(x) for x in t[1:])
        if nonneg(t) or t[0] in ("size", "sizeof"):
            return True
        vt, ft = self.types or self._types()
        if t[0] == "var":
            return is_unsigned(vt.get(t[2], ""))
        if t[0] == "fld":
            ts = ft.get(t[2], ())
            return bool(ts) and all(is_unsigned(x) for x in ts)
        if t[0] == "deref" and t[1][0] == "param":
            p = self.G.root.fn.params[t[1][1]]["t"].replace("const", "").strip()
            return p.endswith("*") and is_unsigned(p[:-1].strip())
        if t[0] == "param":
            return is_unsigned(self.G.root.fn.params[t[1]]["t"])
        return False

    # ------------------------------------------------------------------------------------------ linear forms
    def lin(self, t, S=None):
        """linear form {atom: coef} (ONE for the constant)"""
        k = t[0]
        if k == "int":
            return {ONE: t[1]} if t[1] else {}
        if t == Z:
            return {}
        if k == "sizeof" and str(t[2]).isdigit():
            return {ONE: int(t[2])}
        if k == "bin" and t[1] == "+":
            return ladd(self.lin(t[2], S), self.lin(t[3], S))
        if k == "bin" and t[1] == "-":
            a, b = self.lin(t[2], S), self.lin(t[3], S)
            if set(b) <= {ONE} or S is None or self.entails_lin(S, ladd(a, b, -1)):
                return ladd(a, b, -1)
            return {t: 1}
        if k == "bin" and t[1] == "*":
            return self.prod(self.lin(t[2], S), self.lin(t[3], S))
        if k == "addr" and t[1][0] == "idx" and len(t[1]) == 3:
            # &p[i]  (byte pointers only)
            b = t[1][1]
            if b[0] == "deref" or b[0] in ("var", "fld", "param"):
                base = ("m", "data", b) if self.is_string(b) else b
                return ladd({base: 1}, self.lin(t[1][2], S))
        if k == "un" and t[1] == "-":
            return ladd({}, self.lin(t[2], S), -1)
        if k == "m" and t[1] in ("rows", "cols"):
            d = self.fixed_dims().get(t[2])
            if d and d[t[1] == "cols"] > 0:
                return {ONE: d[t[1] == "cols"]}
        return {t: 1}

    def fixed_dims(self):
        """{object: (rows, cols)} as far as its Eigen type fixes them (-1: dynamic)"""
        m = getattr(self, "_dims", None)
        if m is not None:
            return m
        m = self._dims = {}
        for e in self.G.ev:
            if e.kind != "stmt" or e.node["k"] != "CXXMemberCallExpr":
                continue
            me = e.frame.fn.nodes[e.node["c"][0]]
            if me["k"] != "MemberExpr" or me["n"] not in ("rows", "cols", "data", "size", "resize") or not me["c"]:
                continue
            o = me["c"][0]
            while e.frame.fn.nodes[o]["k"] in CASTS and len(e.frame.fn.nodes[o]["c"]) == 1:
                o = e.frame.fn.nodes[o]["c"][0]
            x = re.search(r"Eigen::Matrix<[\w: ]+, (-?\d+), (-?\d+)", e.frame.fn.nodes[o].get("t", ""))
            if x:
                m.setdefault(self.G.obj_term(e.frame, e.node["c"][0]), (int(x.group(1)), int(x.group(2))))
        return m

    def lin_nowrap(self, t):
        """linear form reading every subtraction as exact"""
        if t[0] == "bin" and t[1] == "-":
            return ladd(self.lin_nowrap(t[2]), self.lin_nowrap(t[3]), -1)
        return self.lin(t)

    def const_of(self, S, t):
        """the integer the term is known to equal"""
        for v in range(0, 8):
            if self.eq0(S, ladd(self.lin(t, S), {ONE: -v})):
                return v
        return None

    def is_string(self, b):
        vt, ft = self.types or self._types()
        if b[0] == "deref" and b[1][0] == "param":
            return "string" in self.G.root.fn.params[b[1][1]]["t"]
        if b[0] == "param":
            return "string" in self.G.root.fn.params[b[1]]["t"]
        if b[0] == "var":
            return "string" in vt.get(b[2], "")
        return False

    @staticmethod
    def prod(a, b):
        r = {}
        for x, c in a.items():
            for y, d in b.items():
                fs = []
                for z in (x, y):
                    if z == ONE:
                        continue
                    fs += list(z[1:]) if z[0] == "mul" else [z]
                fs.sort(key=repr)
                m = ONE if not fs else fs[0] if len(fs) == 1 else ("mul",) + tuple(fs)
                r[m] = r.get(m, 0) + c * d
        return {x: c for x, c in r.items() if c}

    def rows(self, S):
        """the linear inequalities of S"""
        m = getattr(self, "_rowmemo", None)
        if m is None:
            m = self._rowmemo = {}
        if S in m:
            return m[S]
        base = []
        m[S] = base
        for f in S:
            if f[0] == "le":
                r = ladd(ladd({ONE: f[3]}, self.lin(f[2])), self.lin(f[1]), -1)
                base.append({x: c for x, c in r.items() if c})
            elif f[0] == "lin":
                r = dict(f[1])
                if f[2]:
                    r[ONE] = f[2]
                base.append(r)
        # subtractions that are known not to wrap
        out = list(base)
        for f in S:
            if f[0] == "le" and any(x[0] == "bin" and x[1] == "-" for t in f[1:3] for x in subterms(t)):
                r = ladd(ladd({ONE: f[3]}, self.lin(f[2], S)), self.lin(f[1], S), -1)
                out.append({x: c for x, c in r.items() if c})
        # products of equals
        eq = self.equal_atoms(out)
        if eq:
            for r in list(out):
                if any(x[0] == "mul" for x in r):
                    out.append(self.canon(r, eq))
        m[S] = out
        return out

    @staticmethod
    def equal_atoms(rows):
        """{atom: representative} from pairs of rows x - y >= 0 and y - x >= 0, and atom: constant"""
        le = set()
        for r in rows:
            it = [(x, c) for x, c in r.items() if x != ONE]
            if len(it) == 2 and ONE not in r and sorted(c for _, c in it) == [-1, 1]:
                p = [x for x, c in it if c == 1][0]
                q = [x for x, c in it if c == -1][0]
                le.add((q, p))
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        for q, p in le:
            if (p, q) in le:
                a, b = find(p), find(q)
                if a != b:
                    if repr(a) < repr(b):
                        a, b = b, a
                    par[a] = b
        out = {x: find(x) for x in par}
        lo, hi = {}, {}
        for r in rows:
            if len(r) <= 2:
                for x, c in r.items():
                    if x != ONE and c in (1, -1) and (len(r) == 1 or ONE in r):
                        (lo if c == 1 else hi).setdefault(x, set()).add(-c * r.get(ONE, 0))
        for x in lo:
            both = lo[x] & hi.get(x, set())
            if both:
                out[x] = ("int", next(iter(both)))
        return out

    @staticmethod
    def canon(r, eq):
        out = {}
        for x, c in r.items():
            if x[0] == "mul":
                fs = sorted((eq.get(y, y) for y in x[1:]), key=repr)
                for y in fs:
                    if y[0] == "int":
                        c *= y[1]
                fs = [y for y in fs if y[0] != "int"]
                x = ONE if not fs else fs[0] if len(fs) == 1 else ("mul",) + tuple(fs)
            out[x] = out.get(x, 0) + c
        return {x: c for x, c in out.items() if c}

    def entails_lin(self, S, goal):
        """goal >= 0 ?"""
        goal = {x: c for x, c in goal.items() if c}
        if set(goal) <= {ONE}:
            return goal.get(ONE, 0) >= 0
        if all(c >= 0 for c in goal.values()) and all(x == ONE or self.nonneg(x) for x in goal):
            return True
        rows = self.rows(S)
        eq = self.equal_atoms(rows)
        if eq and any(x[0] == "mul" for x in goal):
            goal = self.canon(goal, eq)
        neg = {x: -c for x, c in goal.items()}
        neg[ONE] = neg.get(ONE, 0) - 1
        return not feasible(relevant(rows, neg, self.nonneg), self.MAXROWS)

    def entails_ge(self, S, a, b, k=0):
        """a >= b + k for terms"""
        return self.entails_lin(S, ladd(ladd(self.lin(a, S), self.lin(b, S), -1), {ONE: -k}))

    def entails_eq(self, S, a, b):
        d = ladd(self.lin(a, S), self.lin(b, S), -1)
        return self.eq0(S, d)

    def eq0(self, S, d):
        return self.entails_lin(S, d) and self.entails_lin(S, ladd({}, d, -1))

    # ------------------------------------------------------------------------------------------ transfer
    @staticmethod
    def _terms(f):
        if f[0] == "lin":
            return [x for a, _ in f[1] for x in (a[1:] if a[0] == "mul" else (a,))]
        if f[0] == "imp" and f[3][0] == "lin":
            return [f[1]] + LFacts._terms(f[3])
        return Facts._terms(f)

    def mentions(self, f, loc):
        fname = loc[2] if loc[0] == "fld" else None
        for t in self._terms(f):
            for x in subterms(t):
                if x == loc or fname and x[0] == "fld" and x[2] == fname:
                    return True
        return False

    def kill(self, S, loc, deep=True):
        if not S:
            return S
        hit = [f for f in S if self.mentions(f, loc)]
        if not hit:
            return S
        keep = S.difference(hit)
        nums = [f for f in hit if f[0] in ("le", "lin")]
        if len(nums) < 2:
            return keep
        return keep | self.project(frozenset(nums), S, loc)

    def project(self, fs, S, loc):
        rows = self.rows(fs)
        bad = set()
        fname = loc[2] if loc[0] == "fld" else None
        for r in rows:
            for a in r:
                if a == ONE:
                    continue
                for t in (a[1:] if a[0] == "mul" else (a,)):
                    if any(x == loc or fname and x[0] == "fld" and x[2] == fname for x in subterms(t)):
                        bad.add(a)
        for a in bad:
            rows = eliminate(rows, a, 60)
            if rows is None:
                return frozenset()
        return frozenset(self.fact(r) for r in rows if set(r) - {ONE})

    @staticmethod
    def fact(r):
        k = r.get(ONE, 0)
        it = sorted(((a, c) for a, c in r.items() if a != ONE and c), key=repr)
        g = 0
        for _, c in it:
            g = gcd(g, abs(c))
        if g > 1:
            it = [(a, c // g) for a, c in it]
            k = k // g  # floor: integers
        return ("lin", tuple(it), k)

    def subst(self, S, loc, E):
        """loc := E where E = loc + rest (invertible): old loc = new loc - rest"""
        rest = dict(E)
        rest[loc] -= 1
        if not rest[loc]:
            del rest[loc]
        hit = [f for f in S if self.mentions(f, loc)]
        keep = S.difference(hit)
        nums = frozenset(f for f in hit if f[0] in ("le", "lin"))
        new = set()
        rows = self.rows(nums)
        # atoms that contain loc change in an unknown way: project them away
        bad = {a for r in rows for a in r if a != loc and a != ONE and
               any(x == loc for t in (a[1:] if a[0] == "mul" else (a,)) for x in subterms(t))}
        for a in sorted(bad, key=repr):
            less = eliminate(rows, a, 60)
            rows = less if less is not None else [r for r in rows if a not in r]
        for r in rows:
            if set(r) - {ONE}:
                new.add(self.fact(ladd(r, rest, -r.get(loc, 0))))
        return keep | frozenset(new)

    def shift(self, S, x, d):
        return self.subst(S, x, {x: 1, ONE: d})

    def grow(self, S, obj):
        return self.kill(S, obj) if False else self.subst(S, ("size", obj), {("size", obj): 1, ONE: 1})

    def transfer(self, e, S):
        if e.kind == "stmt":
            n, fr, G = e.node, e.frame, self.G
            k, c = n["k"], n["c"]
            if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"] in ("=", "+=", "-="):
                loc = G.term(fr, c[0])
                v = G.term(fr, c[1])
                if n["op"] == "=":
                    if contains(v, loc):
                        E = self.lin(v, S)
                        if E.get(loc) == 1 and not any(a != loc and any(x == loc for x in subterms(a)) for a in E if a != ONE):
                            return self.subst(S, loc, E)
                        return self.kill(S, loc)
                elif not contains(v, loc):
                    E = self.lin(v, S)
                    if n["op"] == "+=":
                        return self.subst(S, loc, ladd({loc: 1}, E))
                    if self.entails_lin(S, ladd({loc: 1}, E, -1)) or set(E) <= {ONE}:
                        return self.subst(S, loc, ladd({loc: 1}, E, -1))
                    return self.kill(S, loc)
            if k == "CXXMemberCallExpr" and self.callee_frame(fr, e.nid) is None:
                me = fr.fn.nodes[c[0]]
                if me["k"] == "MemberExpr" and me["n"] in ("resize", "create") and len(c) >= 3:
                    obj = G.obj_term(fr, c[0])
                    vs = [G.term(fr, x) for x in c[1:]]
                    S = self.kill(S, obj)
                    add = []
                    if not me["rec"].startswith("std::") and not any(contains(v, obj) for v in vs):
                        nm = ("rows", "cols")
                        for i, what in enumerate(nm):
                            if vs[i][0] in ("glob", "enum"):
                                continue
                            for y in (("m", what, obj), ("fld", obj, what)):
                                add += [f_le(y, vs[i]), f_le(vs[i], y)]
                    elif me["rec"].startswith("std::") and me["n"] == "resize" and G._pure(vs[0]) and \
                            not any(contains(v, obj) for v in vs):
                        add += [f_le(("size", obj), vs[0]), f_le(vs[0], ("size", obj))]
                    if not me["rec"].startswith("std::"):
                        if me["n"] == "create" and len(vs) > 2:
                            add += [f_le(("m", "type", obj), vs[2]), f_le(vs[2], ("m", "type", obj))]
                    return S | frozenset(add)
            if k == "DeclStmt":
                S = super().transfer(e, S)
                for d in n["decls"]:
                    x = d.get("init")
                    if d.get("static") or x is None or d.get("ref") or not d["t"].replace("const ", "").startswith(
                            ("std::vector<", "vector<", "std::deque<")):
                        continue
                    while fr.fn.nodes[x]["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(fr.fn.nodes[x]["c"]) == 1:
                        x = fr.fn.nodes[x]["c"][0]
                    m = fr.fn.nodes[x]
                    if m["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not m["c"] or m.get("list"):
                        continue
                    a = m["c"][0]
                    at = fr.fn.nodes[a].get("t", "").replace("const ", "")
                    if at in INTEGERS and not (m.get("cc") in ("copy", "move")):
                        v = G.term(fr, a)
                        loc = ("size", ("var", fr.id, d["d"], d["n"]))
                        if G._pure(v):
                            S = S | frozenset([f_le(loc, v), f_le(v, loc)])
                return S
        return super().transfer(e, S)

    def _gen_eq(self, S, loc, v):
        S2 = super()._gen_eq(S, loc, v)
        if v[0] == "addr" and v[1][0] == "idx" and len(v[1]) == 3:
            S2 = S2 | {f_le(loc, v), f_le(v, loc)}
        return S2

    # ------------------------------------------------------------------------------------------ join
    def join_at(self, t, A, B):
        if A == B:
            return A
        numA = frozenset(f for f in A if f[0] in ("le", "lin"))
        numB = frozenset(f for f in B if f[0] in ("le", "lin"))
        base = Facts.join(A - numA, B - numB)
        # keep conditional numeric facts as Facts.join does
        full = Facts.join(A, B)
        out = set(base) | {f for f in full if f[0] == "imp"} | (numA & numB)
        n = self.joins[t] = self.joins.get(t, 0) + 1
        for f in numA - numB:
            if self.entails_fact(B, f):
                out.add(f)
        if n <= 8:
            fo = frozenset(out)
            for f in numB - numA:
                if not self.entails_fact(fo, f) and self.entails_fact(A, f):
                    out.add(f)
        fo = frozenset(out)
        for d in self.watch:
            for g in (d, ladd({}, d, -1)):
                if not self.entails_lin(fo, g) and self.entails_lin(A, g) and self.entails_lin(B, g):
                    out.add(self.fact(g))
        return frozenset(out)

    def entails_fact(self, S, f):
        if f in S:
            return True
        if f[0] == "le":
            g = ladd(ladd({ONE: f[3]}, self.lin(f[2])), self.lin(f[1]), -1)
        else:
            g = dict(f[1])
            g[ONE] = f[2]
        return self.entails_lin(S, g)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def relevant(rows, goal, nn):
    """the rows connected to the goal, plus non-negativity"""
    atoms_ = {a for a in goal if a != ONE}
    use = [goal]
    rest = list(rows)
    ch = True
    while ch:
        ch = False
        nr = []
        for r in rest:
            if any(a in atoms_ for a in r):
                use.append(r)
                atoms_ |= {a for a in r if a != ONE}
                ch = True
            else:
                nr.append(r)
        rest = nr
    for a in atoms_:
        if nn(a):
            use.append({a: 1})
    return use


def norm(r):
    g = 0
    for c in r.values():
        g = gcd(g, abs(c))
    if g > 1:
        return {a: c // g for a, c in r.items()}
    return r


def eliminate(rows, a, limit):
    pos = [r for r in rows if r.get(a, 0) > 0]
    neg = [r for r in rows if r.get(a, 0) < 0]
    out = [r for r in rows if not r.get(a, 0)]
    if len(pos) * len(neg) + len(out) > limit * 10:
        return None
    seen = {frozenset(r.items()) for r in out}
    for p in pos:
        for q in neg:
            r = norm(ladd({x: c * -q[a] for x, c in p.items()}, q, p[a]))
            r.pop(a, None)
            if set(r) <= {ONE}:
                if r.get(ONE, 0) < 0:
                    out.append(r)
                continue
            k = frozenset(r.items())
            if k not in seen:
                seen.add(k)
                out.append(r)
    # drop rows dominated by another with the same coefficients
    best = {}
    for r in out:
        key = frozenset((x, c) for x, c in r.items() if x != ONE)
        v = r.get(ONE, 0)
        if key not in best or v < best[key].get(ONE, 0):
            best[key] = r
    return list(best.values())


def feasible(rows, limit):
    """rational feasibility by Fourier-Motzkin (gives up as feasible)"""
    rows = [norm(r) for r in rows]
    while True:
        for r in rows:
            if set(r) <= {ONE} and r.get(ONE, 0) < 0:
                return False
        cnt = {}
        for r in rows:
            for a, c in r.items():
                if a != ONE:
                    p = cnt.setdefault(a, [0, 0])
                    p[c < 0] += 1
        if not cnt:
            return True
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], repr(x)))
        rows = eliminate(rows, a, limit)
        if rows is None:
            return True
