"""Distortion models: parameters, values, Jacobians."""
import re
from fractions import Fraction
from ..graph import *
from ..ir import short, strip_tmpl
from ..absint import Limit, UNK, FLIP, THROW
from ..algebra import Algebra, Unknown
from .. import programs
from .statistics import Sym, cls, user
from .repo import DRV

DIMS = re.compile(r"Eigen::Matrix<([\w ]+), (-?\d+), (-?\d+)")
SCALARS = ("double", "float", "long double")


def dims(t):
    m = DIMS.search(t or "")
    return (int(m.group(2)), int(m.group(3))) if m else None


class Num(Sym):
    """scalars are formulas, vectors and matrices of known size cells of formulas"""

    def entry(self, q, cell, i, j=0):
        c = cell + (("e", i, j),)
        if c in q.mem:
            return q.mem[c]
        v = q.mem.get(cell)
        if isinstance(v, tuple) and v[0] == "vec":
            return v[1].get((i, j), UNK) if isinstance(v[1], dict) else dict(v[1]).get((i, j), UNK)
        if isinstance(v, tuple) and v[0] == "w":
            return self.entry(q, v[1], i, j) if v[1] != cell else ("w", c)
        if v is not None:
            return UNK
        return ("w", c)

    def shape(self, q, cell, d):
        r, c = d
        return (q.mem.get(cell + ("rows",)) if r < 0 else r, q.mem.get(cell + ("cols",)) if c < 0 else c)

    def cells(self, q, cell, d):
        r, c = self.shape(q, cell, d)
        if not isinstance(r, int) or not isinstance(c, int) or r * c > 64:
            return None
        return [(i, j) for i in range(r) for j in range(c)]

    def vector(self, q, v, d):
        """{(i, j): formula} or None"""
        if isinstance(v, tuple) and v and v[0] == "vec":
            return dict(v[1])
        if isinstance(v, tuple) and v and v[0] in ("ref", "w"):
            ij = self.cells(q, v[1], d)
            return {k: self.entry(q, v[1], *k) for k in ij} if ij is not None else None
        return None

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        if n["k"] == "CXXTypeidExpr" and n["c"]:
            return [(q, ("w", v[1] + ("typeid",)) if isinstance(v, tuple) and v[0] == "ref" else UNK)
                    for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer)]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and n["c"] and DIMS.match(n.get("t", "").replace("const ", "")):
            d = dims(n["t"])
            out = []
            for q, vs in self.many(fn, n["c"], p, env, cache, this, fid, outer):
                v = self.vector(q, vs[0], dims(fn.nodes[n["c"][0]].get("t", "")) or d) if len(vs) == 1 else None
                if v is None and len(vs) == d[0] * d[1] and len(vs) > 1:
                    v = {(i, 0) if d[1] == 1 else (0, i): self.rval(q, x) for i, x in enumerate(vs)}
                if v is None or isinstance(vs[0], tuple) and vs[0][0] == "ref":
                    out = None
                    break
                out.append((q, ("vec", tuple(sorted(v.items())))))
            if out is not None:
                return out
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("t", "").replace("const ", "") in SCALARS:
            o = n["op"][:-1] if n["k"] == "CompoundAssignOperator" else n["op"]
            if o in ("+", "-", "*", "/"):
                out = []
                for q, (a, b) in self.many(fn, n["c"], p, env, cache, this, fid, outer):
                    x, y = self.rval(q, a), self.rval(q, b)
                    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and not (o == "/" and y == 0):
                        v = Fraction(x) + y if o == "+" else Fraction(x) - y if o == "-" else Fraction(x) * y if o == "*" else Fraction(x) / y
                        v = int(v) if v.denominator == 1 else v
                    else:
                        v = ("op", o, x, y)
                    if n["k"] == "CompoundAssignOperator":
                        q = q.copy()
                        if isinstance(a, tuple) and a[0] == "ref":
                            q.mem[a[1]] = v
                        out.append((q, a))
                    else:
                        out.append((q, v))
                return out
        return super()._ev(fn, nid, p, env, cache, this, fid, outer)

    def put(self, q, cell, ij, v):
        q.mem[cell + (("e",) + ij,)] = v

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        name = n.get("fn", "")
        s = short(name)
        if "operator" in name:
            s = name[name.rindex("operator"):]
        ext = fn2 is None or not fn2.blocks
        if ext and name.startswith("Eigen::"):
            r = self.eigen(fn, n, name, s, q, obj, vs)
            if r is not None:
                return r
        if ext and obj is None and short(strip_tmpl(name)) in ("sqrt", "tan", "atan", "sin", "cos", "pow", "abs", "fabs") and vs:
            a = tuple(self.rval(q, v) for v in vs)
            if short(strip_tmpl(name)) == "pow" and a[1] == 1:
                return [(q, a[0])]
            return [(q, ("call", short(strip_tmpl(name)), None, a))]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)

    def eigen(self, fn, n, name, s, q, obj, vs):
        cell = obj[1] if isinstance(obj, tuple) and obj[0] == "ref" else None
        d = dims(name)
        if s in ("operator()", "coeff", "coeffRef", "operator[]", "x", "y", "z") and cell is not None:
            ix = [self.rval(q, v) for v in vs] or [{"x": 0, "y": 1, "z": 2}.get(s)]
            if not all(isinstance(i, int) for i in ix):
                return [(q, UNK)]
            i, j = (ix[0], 0) if len(ix) == 1 else (ix[0], ix[1])
            if d and d[0] == 1 and len(ix) == 1:
                i, j = 0, ix[0]
            if d and -1 in d or "MatrixBase" in name and not d:
                q = q.copy()
                q.trace.append(("elem", self.root(q, cell), (i, j), self.bound(q, self.root(q, cell), len(ix)), n.get("line")))
            c = self.root(q, cell) + (("e", i, j),)
            if cell + (("e", i, j),) in q.mem:
                c = cell + (("e", i, j),)
            elif isinstance(q.mem.get(cell), tuple) and q.mem[cell][0] == "vec":
                return [(q, self.entry(q, cell, i, j))]
            return [(q, ("ref", c))]
        m = self.matrix(fn, n, s, q, obj, vs)
        if m is not None:
            return [(q, m)]
        if d is None and s not in ("operator,",):
            return None
        if s == "resize" and cell is not None:
            q = q.copy()
            r = [self.rval(q, v) for v in vs]
            if -1 in d:
                self.drop(q, cell)
                if len(r) == 2:
                    q.mem[cell + ("rows",)], q.mem[cell + ("cols",)] = r
                elif len(r) == 1:
                    q.mem[cell + ("rows",)], q.mem[cell + ("cols",)] = (r[0], 1) if d[1] == 1 else (1, r[0])
            return [(q, UNK)]
        if s in ("setZero", "setOnes", "setIdentity", "setConstant") and cell is not None:
            if s != "setConstant" and len(vs) == 2:
                q = q.copy()
                self.drop(q, cell)
                q.mem[cell + ("rows",)], q.mem[cell + ("cols",)] = (self.rval(q, v) for v in vs)
            ij = self.cells(q, cell, d)
            if ij is None:
                q = q.copy()
                q.trace.append(("unsized", cell, n.get("line")))
                return [(q, obj)]
            q = q.copy()
            for i, j in ij:
                self.put(q, cell, (i, j), 0 if s == "setZero" else 1 if s == "setOnes" else self.rval(q, vs[0]) if s == "setConstant"
                         else int(i == j))
            return [(q, obj)]
        if s in ("Zero", "Ones", "Identity") and obj is None and not vs:
            if -1 not in d:
                return [(q, ("vec", tuple(((i, j), 0 if s == "Zero" else 1 if s == "Ones" else int(i == j))
                                          for i in range(d[0]) for j in range(d[1]))))]
            return None
        if s == "operator<<" and cell is not None and vs:
            return [self.comma(q, cell, d, 0, vs[0])]
        if s == "operator," and isinstance(obj, tuple) and obj and obj[0] == "comma":
            return [self.comma(q, obj[1], obj[2], obj[3], vs[0])]
        if s in ("operator*=", "operator/=") and cell is not None and vs:
            k = self.rval(q, vs[0])
            ij = self.cells(q, cell, d)
            q = q.copy()
            if ij is None or isinstance(k, tuple) and k and k[0] in ("vec", "ref", "ptr"):
                self.drop(q, cell)
                q.mem[cell] = UNK
                return [(q, obj)]
            for i, j in ij:
                self.put(q, cell, (i, j), ("op", s[-2], self.entry(q, cell, i, j), k))
            return [(q, obj)]
        if s in ("operator=", "operator+=", "operator-=") and cell is not None and vs:
            v = self.vector(q, vs[0], dims(fn.nodes[n["c"][-1]].get("t", "")) or d)
            q = q.copy()
            if v is None:
                if s == "operator=" and isinstance(vs[0], tuple) and vs[0][0] == "ref":
                    src = vs[0][1]
                    self.drop(q, cell)
                    self.store(q, cell, vs[0])
                    q.trace.append(("assigned", cell, src))
                    return [(q, obj)]
                self.drop(q, cell)
                q.mem[cell] = UNK
                return [(q, obj)]
            old = self.vector(q, obj, d) if s != "operator=" else None
            self.drop(q, cell)
            for k, x in v.items():
                self.put(q, cell, k, x if old is None else ("op", s[-2], old.get(k, UNK), x))
            if -1 in d and v:
                q.mem[cell + ("rows",)] = 1 + max(k[0] for k in v)
                q.mem[cell + ("cols",)] = 1 + max(k[1] for k in v)
            return [(q, obj)]
        if s in ("norm", "squaredNorm", "sum") and cell is not None and not vs:
            v = self.vector(q, obj, d)
            if not v:
                return [(q, UNK)]
            t = 0
            for k in sorted(v):
                x = v[k] if s == "sum" else ("op", "*", v[k], v[k])
                t = x if t == 0 else ("op", "+", t, x)
            return [(q, t if s != "norm" else ("call", "sqrt", None, (t,)))]
        if s in ("operator*", "operator/") and len(vs) == 1 and obj is not None or s == "operator*" and obj is None and len(vs) == 2:
            a, b = (obj, vs[0]) if obj is not None else vs
            va, vb = self.vector(q, a, d), self.vector(q, b, d)
            sa, sb = self.rval(q, a), self.rval(q, b)
            scal = lambda x: isinstance(x, (int, Fraction)) or isinstance(x, tuple) and x and x[0] in ("op", "call")
            ta, tb = (fn.nodes[c].get("t", "").replace("const ", "") for c in n["c"][-2:])
            if va and tb in SCALARS:
                return [(q, ("vec", tuple((k, ("op", s[-1], x, sb)) for k, x in va.items())))]
            if vb and ta in SCALARS:
                return [(q, ("vec", tuple((k, ("op", s[-1], sa, x)) for k, x in vb.items())))]
            return [(q, UNK)]
        if s in ("operator+", "operator-") and obj is not None and len(vs) <= 1:
            a = self.vector(q, obj, d)
            b = self.vector(q, vs[0], d) if vs else None
            if a and (b or not vs):
                return [(q, ("vec", tuple((k, ("op", s[-1], x, b[k]) if vs else ("op", "neg", x)) for k, x in a.items() if not vs or k in b)))]
            return [(q, UNK)]
        return None

    def matrix(self, fn, n, s, q, obj, vs):
        """products, transposes, inverses and differences of matrices"""
        args = [obj] + list(vs) if obj is not None else list(vs)
        nodes = [c for c in n["c"]]
        nodes = nodes[1:] if n["k"] == "CXXOperatorCallExpr" else [fn.nodes[nodes[0]]["c"][0]] + nodes[1:] if fn.nodes[nodes[0]]["k"] == "MemberExpr" and obj is not None else nodes[1:]
        if len(nodes) != len(args) or s not in ("transpose", "inverse", "operator*", "operator-", "operator+", "dot", "eval"):
            return None
        ms = []
        for c, v in zip(nodes, args):
            t = fn.nodes[c].get("t", "").replace("const ", "").rstrip("& ")
            m = self.vector(q, v, dims(t)) if isinstance(v, tuple) and v and (v[0] == "vec" or v[0] in ("ref", "w") and DIMS.match(t)) else None
            if not m:
                return None
            ms.append((m, 1 + max(k[0] for k in m), 1 + max(k[1] for k in m)))
        a, r, c = ms[0]
        if s == "eval":
            out = a
        elif s == "transpose":
            out = {(j, i): v for (i, j), v in a.items()}
        elif s == "inverse":
            if (r, c) != (2, 2):
                return None
            det = ("op", "-", ("op", "*", a[0, 0], a[1, 1]), ("op", "*", a[0, 1], a[1, 0]))
            out = {(0, 0): ("op", "/", a[1, 1], det), (1, 1): ("op", "/", a[0, 0], det),
                   (0, 1): ("op", "/", ("op", "neg", a[0, 1]), det), (1, 0): ("op", "/", ("op", "neg", a[1, 0]), det)}
        elif len(ms) != 2:
            return None
        elif s in ("operator-", "operator+"):
            b, r2, c2 = ms[1]
            if (r, c) != (r2, c2):
                return None
            out = {k: ("op", s[-1], v, b[k]) for k, v in a.items()}
        else:
            b, r2, c2 = ms[1]
            if s == "dot":
                a, r, c = {(j, i): v for (i, j), v in a.items()}, c, r
            if c != r2:
                return None
            out = {}
            for i in range(r):
                for j in range(c2):
                    t = None
                    for k in range(c):
                        x = ("op", "*", a[i, k], b[k, j])
                        t = x if t is None else ("op", "+", t, x)
                    out[i, j] = t
            if s == "dot":
                return out[0, 0]
        return ("vec", tuple(sorted(out.items())))

    def root(self, q, cell):
        """the object that the content of cell was copied from and still equals"""
        v = q.mem.get(cell)
        if isinstance(v, tuple) and v[0] == "w" and v[1] != cell and not any(c[:len(cell)] == cell and len(c) > len(cell) for c in q.mem):
            return self.root(q, v[1])
        return cell

    def bound(self, q, cell, k):
        """number of entries known on the path"""
        n = None
        for key, r in q.rel.items():
            if len(key) == 2 and r == "eq":
                for a, b in (key, key[::-1]):
                    if isinstance(b, int) and isinstance(a, tuple) and a[0] == "w" and a[1] in (
                            cell + ("size()",), cell + ("rows()",), cell + ("cols()",)):
                        n = b
        return n

    def comma(self, q, cell, d, k, v):
        q = q.copy()
        ij = self.cells(q, cell, d)
        w = self.vector(q, v, (-2, -2)) if isinstance(v, tuple) and v and v[0] == "vec" else None
        if ij is None or w:
            q.trace.append(("unsized", cell, None))
            return q, ("comma", cell, d, k + 1)
        if k < len(ij):
            self.put(q, cell, ij[k], self.rval(q, v))
        else:
            q.trace.append(("toomany", cell, None))
        return q, ("comma", cell, d, k + 1)


class Newton(Num):
    """distorting gives a fresh point and a fresh Jacobian"""

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        if fn2 is not None and fn2.short == "distortUsingExternalCoefficients" and len(vs) == 3:
            q = q.copy()
            k = sum(t[0] == "round" for t in q.trace)
            pt, J = (self.rval(q, v) for v in vs[1:])
            if not (isinstance(pt, tuple) and pt[0] == "ptr"):
                raise Limit()
            q.trace.append(("round", k, [self.entry(q, pt[1], i) for i in (0, 1)], self.rval(q, vs[0]), J))
            self.drop(q, pt[1])
            for i in (0, 1):
                self.put(q, pt[1], (i, 0), ("w", (("distorted", k, i),)))
            if isinstance(J, tuple) and J[0] == "ptr":
                self.drop(q, J[1])
                for i in (0, 1):
                    for j in (0, 1):
                        self.put(q, J[1], (i, j), ("w", (("jacobian", k, i, j),)))
            return [(q, UNK)]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)


# ------------------------------------------------------------------------------------------------ paths as formulas
class Way:
    """one way through a function: entries of the cells and conditions"""
    def __init__(self, I, A, p, v, conditions=True):
        self.I, self.A, self.p, self.v = I, A, p, v
        self.cond = {}
        self.ok = True
        self.thin = False
        if not conditions:
            return
        for k, r in p.rel.items():
            if len(k) != 2:
                continue
            a, b = k
            if self.plain(a) or self.plain(b):
                continue
            try:
                d = A.canon(A.of(a) - A.of(b))
            except (Unknown, ZeroDivisionError, TypeError, AttributeError):
                continue
            if d.is_number:
                t = "eq" if d == 0 else "gt" if d > 0 else "lt"
                if t != r:
                    self.ok = False
                continue
            lead = A.sp.LC(A.sp.numer(A.sp.together(d)), *sorted(d.free_symbols, key=str)) if d.free_symbols else A.sp.Integer(1)
            try:
                if lead.is_number and lead != 0:
                    d = A.canon(d / lead)
                    if lead < 0:
                        r = FLIP[r]
            except TypeError:
                pass
            if self.cond.setdefault(d, r) != r:
                self.ok = False
            if r == "eq":
                self.thin = True

    @staticmethod
    def plain(x):
        return isinstance(x, tuple) and x and (x[0] in ("ptr", "glob") or x[0] == "w" and isinstance(x[1][-1], str) and x[1][-1].endswith("()"))

    def fits(self, other):
        return all(other.cond.get(k, r) == r for k, r in self.cond.items())

    def at(self, cell, i, j=0):
        return self.A.of(self.I.entry(self.p, cell, i, j))


def ways(prog, A, f, args=None, mem=None, opaque=None):
    I = Num(prog, opaque=opaque or (lambda g: False))
    try:
        rs = I.run(f, args=args, mem=mem)
    except (Limit, RecursionError):
        return None
    out = []
    for p, v in rs:
        if v == THROW:
            continue
        w = Way(I, A, p, v)
        if w.ok:
            out.append(w)
    return out


P0 = (("param", 0),)
OWN = (("this",), "distortion_coefficients_")


def given(f, null, jac=True):
    """args and content for a call with / without external coefficients and Jacobian"""
    args, mem = [None] * len(f.params), {}
    args[0] = ("ref", (("arg", 0),))
    mem[(("arg", 0),)] = 0 if null else ("ptr", P0)
    if not jac:
        args[2] = ("ref", (("arg", 2),))
        mem[(("arg", 2),)] = 0
    return args, mem


def describe(w):
    return ""


class Model:
    def __init__(self, R, prog, name, fs):
        self.R, self.prog, self.name = R, prog, name
        self.fs = fs
        self.A = Algebra()
        self.n = None
        self.types = set()

    def bad(self, rule, f, msg, line=None):
        self.R.violation(rule, f.qual, msg, f.where() if line is None else "%s:%s" % (f.where().rsplit(":", 1)[0], line), msg)

    def get(self, short_, pred=lambda f: True):
        return [f for f in self.fs if f.short == short_ and pred(f)]

    # ---- parameters
    def parameters(self):
        R, A = self.R, self.A
        counts = {}
        for f in self.get("getParameterSize") + self.get("parameterCount"):
            for w in ways(self.prog, A, f) or ():
                counts.setdefault(f, set()).add(w.I.rval(w.p, w.v))
        vals = set().union(*counts.values()) if counts else set()
        if len(vals) != 1 or not isinstance(next(iter(vals)), int):
            if vals and all(isinstance(v, int) for v in vals):
                self.bad("count", sorted(counts, key=lambda f: f.line)[0], "%s gives different numbers of parameters: %s" % (self.name, sorted(vals)))
            else:
                R.note("%s: the number of parameters is not constant" % self.name)
            return
        self.n = vals.pop()
        R.count("models")
        for f in self.get("areParametersValid") + self.get("distortionParametersValid"):
            if self.n == 0:
                continue
            ws = ways(self.prog, A, f)
            if ws is None:
                R.note("%s: too many ways through" % f.qual)
                continue
            for w in ws:
                v = w.I.rval(w.p, w.v)
                R.count("outcomes of parameter tests decided")
                if v == 0:
                    continue
                n = w.I.bound(w.p, P0, 1)
                if v == 1:
                    if n != self.n:
                        self.bad("valid", f, "%s accepts parameters whose number is not %d" % (self.name, self.n))
                    self.sane(f, w)
                elif not (isinstance(v, tuple) and v[0] == "call" and short(v[1]) in ("areParametersValid", "distortionParametersValid")):
                    R.note("%s: the result %s is not decided" % (f.qual, str(v)[:60]))

    def sane(self, f, w):
        """the range that the class declares"""
        lo, hi = self.get("getMinValidW"), self.get("getMaxValidW")
        if not lo or not hi:
            return
        I = w.I
        los, his = ([x.I.rval(x.p, x.v) for x in ways(self.prog, self.A, g) or ()] for g in (lo[0], hi[0]))
        c = ("w", P0 + (("e", 0, 0),))
        rel = {}
        for k, r in w.p.rel.items():
            if len(k) == 2:
                rel[k] = r
                rel[(k[1], k[0])] = FLIP[r]
        ok_lo = any(rel.get((c, x)) in ("eq", "gt") for x in los)
        ok_hi = any(rel.get((c, x)) in ("eq", "lt") for x in his)
        zero = any(k[0][0] == "call" and k[0][1] in ("abs", "fabs") and c in k[0][3] and r in ("lt", "eq") and isinstance(k[1], (int, Fraction)) and
                   k[1] < Fraction(1, 1000) for k, r in rel.items() if isinstance(k[0], tuple) and k[0]) or rel.get((c, 0)) == "eq"
        if any(x == UNK or not isinstance(x, (int, Fraction, tuple)) for x in los + his):
            self.R.note("%s: the range of its parameter is not known" % self.name)
            return
        if not (ok_lo and ok_hi or zero):
            self.bad("valid", f, "%s accepts a parameter outside the range it declares" % self.name)

    def stored(self):
        R, A = self.R, self.A
        for f in [g for g in self.fs if g.kind == "ctor" and user(g) and not g.params]:
            for w in ways(self.prog, A, f) or ():
                t = w.p.mem.get((("this",), "distortion_type_"))
                if isinstance(t, int):
                    self.types.add((t, f))
        for f in [g for g in self.fs if g.kind == "ctor" and user(g) and len(g.params) == 1 and "Eigen" in g.params[0]["t"]]:
            R.count("constructors decided")
            I = Num(self.prog, opaque=lambda g: g.short in ("areParametersValid", "distortionParametersValid"))
            try:
                rs = I.run(f)
            except Limit:
                R.note("%s: too many ways through" % f.qual)
                continue
            for p, v in rs:
                c = p.mem.get(OWN)
                t = p.mem.get((("this",), "distortion_type_"))
                if isinstance(t, int):
                    self.types.add((t, f))
                if not any("ParametersValid" in str(k) and r not in ("eq", False) for k, r in p.rel.items()):
                    self.bad("valid", f, "%s is constructed from parameters that were not found valid" % self.name)
                    break
                if I.root(p, OWN) != P0 and c != ("w", P0) and not (isinstance(c, tuple) and c[0] == "new" and ("w", P0) in c[2]):
                    if c is None:
                        self.bad("own", f, "%s does not keep the parameters it is given" % self.name)
                    else:
                        R.note("%s: what is stored is not decided: %s" % (f.qual, str(c)[:80]))

    # ---- use of coefficients
    def sizes(self, f, ws):
        for w in ws:
            for t in w.p.trace:
                if t[0] != "elem":
                    continue
                _, cell, ij, n, line = t
                if not (cell == P0 or cell == OWN):
                    continue
                self.R.count("coefficient reads decided")
                if n is None:
                    self.bad("size", f, "coefficients are read although their number was not tested", None)
                elif max(ij) >= n:
                    self.bad("size", f, "coefficient %d of %d is read" % (max(ij), n), None)
                elif self.n is not None and n != self.n:
                    self.bad("size", f, "coefficients are read when there are %d of them; %s has %d" % (n, self.name, self.n), None)

    def syms(self, coef, point):
        A = self.A
        return [A.sym(("w", point + (("e", i, 0),))) for i in (0, 1)], [A.sym(("w", coef + (("e", i, 0),))) for i in range(self.n or 0)]

    def value(self, w, cell, i, j=0):
        return w.at(cell, i, j)

    def distort(self):
        """virtual distortUsingExternalCoefficients(const VectorXd*, Vector2d*, Matrix2d*)"""
        R, A = self.R, self.A
        fs = self.get("distortUsingExternalCoefficients", lambda f: len(f.params) == 3 and f.params[0]["t"].rstrip().endswith("*"))
        if not fs:
            R.need(False, "%s::distortUsingExternalCoefficients was not found" % self.name)
            return None
        f = fs[0]
        pt, J = (("param", 1),), (("param", 2),)
        res = {}
        for null in (True, False):
            for jac in (True, False):
                args, mem = given(f, null, jac)
                ws = ways(self.prog, A, f, args, mem)
                if ws is None:
                    R.note("%s: too many ways through" % f.qual)
                    return None
                self.sizes(f, ws)
                coef, other = (OWN, P0) if null else (P0, OWN)
                res[(null, jac)] = ws
                used = {c for w in ws for t in w.p.trace if t[0] == "elem" for c in (t[1],)}
                if other in used:
                    self.bad("own", f, "%s uses %s coefficients %s" % (self.name, "external" if null else "its own",
                                                                       "without having any" if null else "although others are given"))
                elif self.n and coef not in used and not any(t[0] == "elem" for w in ws for t in w.p.trace):
                    R.note("%s: no reads of coefficients were recognised" % f.qual)
                if not jac:
                    continue
                (x, y), ks = self.syms(coef, pt)
                ok = []
                for w in ws:
                    if w.thin:
                        continue
                    try:
                        out = [self.value(w, pt, i) for i in (0, 1)]
                        jac_ = {(i, j): w.at(J, i, j) for i in (0, 1) for j in (0, 1)}
                    except Unknown as e:
                        R.note("%s: the distorted point or the Jacobian is not decided (%s)" % (f.qual, str(e)[:60]))
                        continue
                    if any(e == A.sym(("w", J + (("e",) + ij,))) for ij, e in jac_.items()):
                        self.bad("deriv", f, "an entry of the Jacobian is not written")
                        continue
                    ok.append((w, jac_, self.misfit(jac_, out, (x, y))))
                for w, jac_, miss in ok:
                    R.count("Jacobians decided")
                    if miss and not any(self.near(w, u) and not m2 and jac_ == ju for u, ju, m2 in ok):
                        i, j = miss
                        self.bad("deriv", f, "entry (%d, %d) of the Jacobian is not the derivative of the distorted point's %s%s" % (
                            i, j, "xy"[i], self.where(w)))
        # with and without Jacobian the same point
        for null in (True, False):
            for w in res.get((null, False), ()):
                for u in res.get((null, True), ()):
                    if w.thin or u.thin or not w.fits(u):
                        continue
                    try:
                        same = all(A.equal(self.value(w, pt, i), self.value(u, pt, i)) for i in (0, 1))
                    except Unknown:
                        continue
                    R.count("pairs of distorted points compared")
                    if not same:
                        self.bad("same", f, "the distorted point depends on whether the Jacobian is asked for")
        return res

    def misfit(self, jac, out, by):
        """the first entry that is not the derivative"""
        for (i, j), e in sorted(jac.items()):
            if not self.A.equal(e, self.A.diff(out[i], by[j])):
                return i, j
        return None

    @staticmethod
    def near(w, u):
        """the two ways differ in one decision only, which each of them takes its own way (a value approximated on one side of it)"""
        return set(w.cond) == set(u.cond) and sum(w.cond[k] != u.cond[k] for k in w.cond) == 1

    def monic(self, d):
        sp = self.A.sp
        d = sp.expand(d)
        return sp.expand(d / sp.LC(d, *sorted(d.free_symbols, key=str))) if d.free_symbols and d.is_polynomial(*d.free_symbols) else d

    def where(self, w):
        txt = []
        for d, r in w.cond.items():
            s = str(self.A.sp.N(self.monic(d), 4))
            for a, b in sorted(self.A.atoms.items(), key=lambda z: -len(str(z[1]))):
                if isinstance(a, tuple) and a and a[0] == "w":
                    k = a[1][-1]
                    nm = ("p" if a[1][0] == ("param", 1) else "k") + str(k[1]) if isinstance(k, tuple) else str(k)
                    s = re.sub(r"\b%s\b" % b, nm, s)
            for c, b in self.A.roots:
                s = re.sub(r"\b%s\b" % b, "r", s)
            txt.append("%s %s 0" % (s, {"lt": "<", "gt": ">", "eq": "=="}[r]))
        return " where " + " and ".join(txt) if txt else ""

    def parameter_jacobian(self, res):
        R, A = self.R, self.A
        for f in self.get("distortParameterJacobian", lambda f: len(f.params) == 3):
            J = (("param", 2),)
            for null in (True, False):
                args, mem = given(f, null)
                ws = ways(self.prog, A, f, args, mem)
                if ws is None:
                    R.note("%s: too many ways through" % f.qual)
                    return
                self.sizes(f, ws)
                coef, other = (OWN, P0) if null else (P0, OWN)
                if any(t[0] == "elem" and t[1] == other for w in ws for t in w.p.trace):
                    self.bad("own", f, "%s uses the wrong coefficients for the parameter Jacobian" % self.name)
                (x, y), ks = self.syms(coef, (("param", 1),))
                for w in ws:
                    r, c = w.p.mem.get(J + ("rows",)), w.p.mem.get(J + ("cols",))
                    if any(t[0] == "unsized" and t[1] == J for t in w.p.trace) or c is None:
                        self.bad("size", f, "the parameter Jacobian is filled in before it got its size")
                        continue
                    if isinstance(c, int) and c != self.n or isinstance(r, int) and r != 2:
                        self.bad("size", f, "the parameter Jacobian is %s x %s, not 2 x %d" % (r, c, self.n))
                        continue
                    if any(t[0] == "toomany" and t[1] == J for t in w.p.trace):
                        self.bad("size", f, "the parameter Jacobian is filled in with more entries than it has")
                        continue
                    if w.thin:
                        continue
                    try:
                        jac_ = {(i, k): w.at(J, i, k) for i in (0, 1) for k in range(self.n)}
                    except Unknown as ex:
                        R.note("%s: the parameter Jacobian is not decided (%s)" % (f.qual, str(ex)[:60]))
                        continue
                    miss, good = None, False
                    for u in (res or {}).get((null, True), ()):
                        if u.thin or not w.fits(u):
                            continue
                        try:
                            out = [self.value(u, (("param", 1),), i) for i in (0, 1)]
                        except Unknown:
                            continue
                        R.count("parameter Jacobians decided")
                        m = self.misfit(jac_, out, ks)
                        good = good or m is None
                        miss = miss or m
                    if miss and not good:
                        self.bad("pderiv", f, "entry (%d, %d) of the parameter Jacobian is not the derivative of the distorted point's %s%s" % (
                            miss + ("xy"[miss[0]], self.where(w))))

    def template(self, res):
        """the version for other scalars gives the same point"""
        R, A = self.R, self.A
        for f in self.get("distortUsingExternalCoefficients", lambda f: len(f.params) == 3 and not f.params[0]["t"].rstrip().endswith("*")):
            ws = ways(self.prog, A, f)
            if ws is None:
                R.note("%s: too many ways through" % f.qual)
                continue
            self.sizes(f, ws)
            out = (("param", 2),)
            for w in ws:
                for u in (res or {}).get((False, True), ()):
                    if w.thin or u.thin or not w.fits(u):
                        continue
                    for i in (0, 1):
                        try:
                            a, b = w.at(out, i), self.value(u, (("param", 1),), i)
                        except Unknown as e:
                            R.note("%s: the distorted point is not decided (%s)" % (f.qual, str(e)[:60]))
                            continue
                        R.count("distorted points of the template compared")
                        if not A.equal(a, b):
                            self.bad("same", f, "the template for other scalars distorts a point's %s differently%s" % ("xy"[i], self.where(w)))

    def undistort(self, res):
        R, A = self.R, self.A
        for f in self.get("undistortUsingExternalCoefficients", lambda f: len(f.params) == 2):
            I = Newton(self.prog)
            try:
                rs = I.run(f)
            except (Limit, RecursionError):
                R.note("%s: too many ways through" % f.qual)
                continue
            rounds = any(t[0] == "round" for p, v in rs for t in p.trace)
            ws = [Way(I, A, p, v, not rounds and self.n) for p, v in rs if v != THROW]
            ws = [w for w in ws if w.ok]
            self.sizes(f, ws)
            if not self.n:
                for w in ws:
                    R.count("undistorted points decided")
                    if any(c[0] == ("param", 1) for c in w.p.mem):
                        self.bad("inverse", f, "%s changes the point it undistorts" % self.name)
            elif rounds:
                self.newton(f, I, ws)
            else:
                self.closed_form(f, I, ws, res)

    def newton(self, f, I, ws):
        """x(0) = y, J(k) (x(k+1) - x(k)) = y - distort(x(k)); the last x is the result; the way out before the last round is a small
        residual"""
        R, A = self.R, self.A
        pt = (("param", 1),)
        y = [("w", pt + (("e", i, 0),)) for i in (0, 1)]
        full = max(sum(t[0] == "round" for t in w.p.trace) for w in ws)
        seen = set()
        for w in ws:
            rounds = [t for t in w.p.trace if t[0] == "round"]
            if not rounds:
                continue
            for t in rounds:
                if t[3] != ("ptr", P0):
                    if t[3] in (0, ("ptr", OWN)):
                        self.bad("own", f, "%s undistorts with its own coefficients although others are given" % self.name)
                    else:
                        R.note("%s: the coefficients of the distortion are not decided" % f.qual)
            if rounds[0][2] != y:
                R.note("%s: the iteration does not start at the distorted point" % f.qual)
            xs = [t[2] for t in rounds] + [[I.entry(w.p, pt, i) for i in (0, 1)]]
            try:
                for k in range(len(rounds)):
                    if 3 <= k < len(rounds) - 1:
                        continue
                    key = (k, str(xs[k]), str(xs[k + 1]), k == len(rounds) - 1)
                    if key in seen:
                        continue
                    seen.add(key)
                    R.count("steps of iterations decided")
                    dx = [A.of(xs[k + 1][i]) - A.of(xs[k][i]) for i in (0, 1)]
                    last = k == len(rounds) - 1
                    if last and all(A.equal(d, 0) for d in dx):
                        continue
                    for i in (0, 1):
                        J = [A.sym(("w", (("jacobian", k, i, j),))) for j in (0, 1)]
                        e = A.of(y[i]) - A.sym(("w", (("distorted", k, i),)))
                        if not A.equal(J[0] * dx[0] + J[1] * dx[1], e):
                            if last:
                                self.bad("inverse", f, "the undistorted point is not the last one of the iteration")
                            else:
                                self.bad("inverse", f, "a step of the iteration does not solve distort(x) = y to first order")
            except Unknown as ex:
                R.note("%s: the iteration is not decided (%s)" % (f.qual, str(ex)[:60]))
                return
            if len(rounds) < full:
                k = len(rounds) - 1
                d = {("w", (("distorted", k, i),)) for i in (0, 1)}
                small = any(r in ("lt", "eq") and mentions(key[0], d) and not mentions(key[1], d) or
                            r in ("gt", "eq") and mentions(key[1], d) and not mentions(key[0], d)
                            for key, r in w.p.rel.items() if len(key) == 2)
                R.count("ways out of iterations decided")
                if not small:
                    self.bad("inverse", f, "the iteration is left although the residual was not found small")

    def closed_form(self, f, I, ws, res):
        """undistort after distort gives the point back, where neither is an approximation"""
        R, A = self.R, self.A
        pt = (("param", 1),)
        main = [u for u in (res or {}).get((False, True), ()) if not u.thin]
        # the way without approximation: the one whose value still needs the arc tangent
        try:
            main = [u for u in main if any(A.of(u.I.entry(u.p, pt, 0)).has(s) for c, s in A.atans)]
        except Unknown:
            main = []
        mine = [w for w in ws if not w.thin and I.entry(w.p, pt, 0) != ("w", pt + (("e", 0, 0),))]
        done = 0
        for u in main:
            for w in mine:
                env = {}
                try:
                    for i in (0, 1):
                        env[("w", pt + (("e", i, 0),))] = u.I.entry(u.p, pt, i)
                    for i in (0, 1):
                        t = subst(w.I.entry(w.p, pt, i), env)
                        e = A.of(t)
                        R.count("undistorted points decided")
                        done += 1
                        if not A.equal(e, A.sym(("w", pt + (("e", i, 0),)))):
                            self.bad("inverse", f, "undistorting the distorted point does not give its %s back" % "xy"[i])
                except Unknown as e:
                    R.note("%s: the undistorted point is not decided (%s)" % (f.qual, str(e)[:60]))
        if not done:
            R.note("%s: no closed form recognised" % f.qual)

    def run(self):
        self.parameters()
        self.stored()
        if self.n is None:
            return
        res = self.distort()
        self.parameter_jacobian(res)
        self.template(res)
        self.undistort(res)


def mentions(t, atoms):
    return t in atoms or isinstance(t, tuple) and any(mentions(x, atoms) for x in t)


def subst(t, env):
    if t in env:
        return env[t]
    if isinstance(t, tuple):
        return tuple(subst(x, env) for x in t)
    return t


def pairs(key):
    """fields of this object that the same field of the other one is compared with"""
    a, b = key
    if all(isinstance(x, tuple) and x and x[0] == "w" for x in key) and a[1][1:] == b[1][1:] and {a[1][0], b[1][0]} == {("this",), ("param", 0)}:
        return {a[1][-1]}
    return set()


def pairs_in(t):
    out = set()
    if isinstance(t, tuple):
        if len(t) >= 4 and t[0] == "op" and t[1] == "==":
            out |= pairs((t[2], t[3]))
        for x in t:
            out |= pairs_in(x)
    return out


def base(R, prog, fs):
    """the wrappers of Distortion"""
    A = Algebra()

    def bad(rule, f, msg):
        R.violation(rule, f.qual, msg, f.where(), msg)
    deep = ("distortUsingExternalCoefficients", "undistortUsingExternalCoefficients", "distortionParametersValid")
    for f in fs:
        if cls(f) != "Distortion" or f.short not in ("distort", "undistort", "setParameters", "operator=="):
            continue
        I = Num(prog, opaque=lambda g: g.short in deep)
        try:
            rs = I.run(f)
        except Limit:
            R.note("%s: too many ways through" % f.qual)
            continue
        for p, v in rs:
            R.count("ways through the wrappers decided")
            if f.short == "setParameters":
                if not any("distortionParametersValid" in str(k) and r not in ("eq", False) for k, r in p.rel.items()):
                    bad("valid", f, "parameters are taken that were not found valid")
                if I.root(p, OWN) != P0:
                    bad("own", f, "setParameters does not keep the parameters it is given")
                continue
            if f.short == "operator==":
                v = I.rval(p, v)
                if v == 0:
                    continue
                same = {side for key, r in p.rel.items() if r == "eq" and len(key) == 2 for side in pairs(key)}
                if v != 1:
                    same |= pairs_in(v)
                if not same & {"typeid", "distortion_type_"}:
                    bad("equal", f, "models of different types may compare equal")
                if "distortion_coefficients_" not in same:
                    bad("equal", f, "models with different coefficients may compare equal")
                continue
            calls = [t for t in p.trace if str(t[0]).endswith("UsingExternalCoefficients")]
            want = f.short + "UsingExternalCoefficients"
            if len(calls) != 1 or not calls[0][0].endswith("::" + want):
                bad("own", f, "%s does not %s the point once" % (f.short, f.short))
                continue
            a = calls[0][2]
            outp = next((i for i, q in enumerate(f.params) if q["t"].rstrip().endswith("*")), None)
            if a[0] not in (0, ("ptr", OWN), ("ref", OWN), ("w", OWN)):
                bad("own", f, "%s uses other coefficients than the model's own" % f.short)
            if a[1] != ("ptr", (("param", outp),)):
                bad("own", f, "%s works on another point than the one it is to change" % f.short)
            if outp == 1:
                # the point was copied before
                e = [I.entry(p, (("param", 1),), i) for i in (0, 1)]
                if e != [("w", P0 + (("e", i, 0),)) for i in (0, 1)] and I.root(p, (("param", 1),)) != P0:
                    bad("own", f, "%s does not start from the point it is given" % f.short)
            if len(a) > 2:
                jac = len(f.params) == 2 and outp == 0
                if jac and a[2] != ("ptr", (("param", 1),)):
                    bad("own", f, "the Jacobian that is asked for is not passed on")


def duals(R, prog):
    """functions of numbers with a derivative: the derivative's factor is the function's"""
    A = Algebra()
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if not f.blocks or "jet_trigonometric" not in f.qual or len(f.params) != 1 or f.params[0]["t"].replace("const ", "") in SCALARS:
            continue
        a, v = A.sym(("w", P0 + ("a",))), A.sym(("w", P0 + ("v",)))
        for w in ways(prog, A, f) or ():
            got = w.v
            if isinstance(got, tuple) and got[0] == "ref":
                parts = [w.p.mem.get(got[1] + (k,)) for k in ("a", "v")]
            elif isinstance(got, tuple) and got[0] == "new" and len(got[2]) == 2:
                parts = list(got[2])
            else:
                parts = [None, None]
            try:
                x, dx = (A.of(p) if p is not None else A.of(("?",)) for p in parts)
                want = A.of(("call", f.short, None, (("w", P0 + ("a",)),)))
            except Unknown:
                R.note("%s: its result is not decided" % f.qual)
                continue
            R.count("derivatives of functions of duals decided")
            if not A.equal(x, want):
                R.violation("same", f.qual, "value", f.where(), "%s of a number with a derivative has another value than the function" % f.short)
            elif not A.equal(dx, A.diff(want, a) * v):
                R.violation("deriv", f.qual, "derivative", f.where(), "%s of a number with a derivative has another derivative than the function" % f.short)


def P19(R):
    R.rule("count", "getParameterSize and parameterCount of a model are the same constant")
    R.rule("valid", "parameters are found valid only when their number is that constant and they lie in the declared range; constructors and "
           "setParameters keep only valid ones")
    R.rule("size", "entries of a coefficient vector are only read where its length was found to be the number of parameters; the parameter "
           "Jacobian is 2 x that number before it is filled in")
    R.rule("own", "null: the model's own coefficients are used, otherwise the given ones; the wrappers pass on point, Jacobian and coefficients")
    R.rule("deriv", "each entry of the Jacobian, as a formula, equals the derivative of the formula of the distorted point, on every branch")
    R.rule("pderiv", "each entry of the parameter Jacobian equals the derivative by that coefficient")
    R.rule("same", "the distorted point is the same formula with and without Jacobian and in the template for other scalars")
    R.rule("inverse", "where both are closed forms, undistorting the distorted point gives the point")
    R.rule("type", "each model has one type of its own")
    R.rule("equal", "equality compares type and coefficients")
    prog = programs.whole(*DRV)
    fs = sorted((f for f in prog.fns.values() if f.blocks and "/cameras/" in f.file and "distortion" in f.file or
                 f.blocks and "aslam_cv_cameras/src/distortion" in f.file), key=lambda f: (f.file, f.line, f.key))
    by = {}
    for f in fs:
        c = cls(f)
        if c.endswith("Distortion") and c != "Distortion":
            by.setdefault(c, []).append(f)
    R.need(len(by) >= 3, "the distortion models were not found")
    types = {}
    for c in sorted(by):
        m = Model(R, prog, c, by[c])
        m.run()
        R.count("types decided", len({t for t, f in m.types}))
        if not m.types:
            R.note("%s: its type is not decided" % c)
        for t, f in sorted(m.types, key=lambda z: z[0]):
            o = types.setdefault(t, c)
            if o != c:
                m.bad("type", f, "%s and %s are constructed with the same type" % tuple(sorted((o, c))))
        if len({t for t, f in m.types}) > 1:
            m.bad("type", max(m.types, key=lambda z: z[1].line)[1], "%s is constructed with different types" % c)
    base(R, prog, fs)
    duals(R, prog)
    R.atleast("models", 3)
    R.count("functions", len(fs))


CHECKS = {"P19": P19}
