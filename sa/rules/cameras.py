"""Camera models: projection, its Jacobians, back projection."""
from fractions import Fraction
from ..graph import *
from ..ir import short, strip_tmpl
from ..absint import FLIP, Limit, UNK, THROW
from ..algebra import Algebra, Unknown
from .. import programs
from .statistics import cls
from .distortion import Num, dims, subst, DIMS
from .repo import DRV

P = lambda i: (("param", i),)
E = lambda cell, i, j=0: ("w", cell + (("e", i, j),))
OWN = (("this",), "intrinsics_")


class Proj(Num):
    """what the distortion model does is opaque: a fresh point with a fresh Jacobian"""

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        if n["k"] == "BinaryOperator" and n.get("op") in ("==", "!=") and any(fn.nodes[c]["k"] == "CXXNullPtrLiteralExpr" for c in n["c"]):
            out = []
            for q, (a, b) in self.many(fn, n["c"], p, env, cache, this, fid, outer):
                x = [self.rval(q, t) for t in (a, b)]
                if not any(isinstance(t, tuple) and t and t[0] == "ptr" for t in x) or 0 not in x:
                    out = None
                    break
                out.append((q, int(n["op"] == "!=")))
            if out is not None:
                return out
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and len(n["c"]) == 1 and \
                DIMS.match(n.get("t", "").replace("const ", "")) and "-1" not in n["t"]:
            t = fn.nodes[n["c"][0]].get("t", "")
            if "MatrixBase<" in t or "Eigen::Ref<" in t:
                out = []
                for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer):
                    w = self.vector(q, v, dims(n["t"]))
                    out.append((q, ("vec", tuple(sorted(w.items()))) if w else UNK))
                return out
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n["c"] and n.get("t", "").replace("const ", "").startswith("Eigen::Ref<") and \
                dims(fn.nodes[n["c"][0]].get("t", "")):
            out = []
            for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer):
                w = self.vector(q, v, dims(fn.nodes[n["c"][0]].get("t", ""))) if isinstance(v, tuple) and v and v[0] == "view" else None
                out.append((q, ("vec", tuple(sorted(w.items()))) if w else v))
            return out
        return super()._ev(fn, nid, p, env, cache, this, fid, outer)

    def drop_deep(self, q, cell):
        for c in [c for c in q.mem if c[:len(cell)] == cell]:
            del q.mem[c]

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        name = n.get("fn", "")
        s = name[name.rindex("operator"):] if "operator" in name else short(strip_tmpl(name))
        v = [self.rval(q, x) for x in vs]
        where = lambda x: x[1] if isinstance(x, tuple) and x and x[0] in ("ptr", "ref", "w") else None
        if s in ("distortUsingExternalCoefficients", "undistortUsingExternalCoefficients", "distort", "undistort") and "istortion" in name and vs:
            q = q.copy()
            ts = [fn.nodes[c].get("t", "") for c in n["c"][-len(vs):]]
            pts = [i for i, t in enumerate(ts) if dims(t) and dims(t) in ((2, 1),)]
            jac = [i for i, t in enumerate(ts) if dims(t) == (2, 2)]
            co = [i for i, t in enumerate(ts) if dims(t) and dims(t)[0] == -1]
            outp = [i for i in pts if "*" in ts[i]] or pts[-1:]
            a, o = where(vs[pts[0]]) if pts else None, where(v[outp[0]]) if outp else None
            if vs and pts and isinstance(v[pts[0]], tuple) and v[pts[0]][0] == "ptr":
                a = v[pts[0]][1]
            if a is None or o is None:
                raise Limit()
            und = s.startswith("un")
            m = sum(t[0] == "model" for t in q.trace)
            coef = self.coef(q, vs[co[0]]) if co else "own"
            J = v[jac[0]] if jac else 0
            if not jac and len(vs) > 2 and not co == [] and len(ts) == 3 and dims(ts[2]) is None:
                J = 0
            q.trace.append(("model", "undistort" if und else "distort", tuple(self.entry(q, a, i) for i in (0, 1)), coef, m, J != 0))
            self.drop_deep(q, o)
            for i in (0, 1):
                self.put(q, o, (i, 0), ("w", (("U" if und else "D", m, i),)))
            if isinstance(J, tuple) and J[0] == "ptr":
                self.drop_deep(q, J[1])
                for i in (0, 1):
                    for j in (0, 1):
                        self.put(q, J[1], (i, j), ("w", (("J", m, i, j),)))
            return [(q, UNK)]
        if s == "distortParameterJacobian" and len(vs) == 3:
            q = q.copy()
            a, o = where(vs[1]), where(v[2])
            if a is None or o is None or v[2][0] != "ptr":
                raise Limit()
            q.trace.append(("pjac", tuple(self.entry(q, a, i) for i in (0, 1)), self.coef(q, vs[0])))
            self.drop_deep(q, o)
            q.mem[o + ("rows",)], q.mem[o + ("cols",)] = 2, 1
            for i in (0, 1):
                self.put(q, o, (i, 0), ("w", (("P", i),)))
            return [(q, UNK)]
        if name.startswith(("std::unique_ptr", "std::__uniq_ptr")) and not vs and isinstance(obj, tuple) and obj and obj[0] in ("ref", "w"):
            if s in ("get", "operator->", "operator*"):
                return [(q, ("ref" if s == "operator*" else "ptr", obj[1] + ("*",)))]
        if s in ("asin", "acos", "atan2") and obj is None and vs and (fn2 is None or not fn2.blocks):
            return [(q, ("call", s, None, tuple(v)))]
        if s in ("max", "min") and name.startswith("std::") and len(v) == 2 and any(x == 0 for x in v):
            # only where the bound does not matter
            return [(q, next(x for x in v if x != 0) if v[0] != v[1] else 0)]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)

    def coef(self, q, x):
        x0 = x
        for _ in range(6):
            if isinstance(x, tuple) and x and x[0] in ("ref", "w") and x[1] in q.mem and q.mem[x[1]] != x:
                y = q.mem[x[1]]
                if not (isinstance(y, tuple) and y[0] in ("ptr", "ref", "w") or y == 0):
                    break
                x = y
            else:
                break
        if x == 0:
            return 0
        return x[1] if isinstance(x, tuple) and x and x[0] in ("ptr", "ref", "w") else x0

    def eigen(self, fn, n, name, s, q, obj, vs):
        if not s.startswith("operator"):
            s = strip_tmpl(s)
        cell = obj[1] if isinstance(obj, tuple) and obj and obj[0] == "ref" else None
        if cell is not None and isinstance(q.mem.get(cell), tuple) and q.mem[cell] and q.mem[cell][0] == "vec":
            q = q.copy()
            for k, x in dict(q.mem.pop(cell)[1]).items():
                self.put(q, cell, k, x)
        d = dims(name)
        if cell is not None and s in ("row", "col", "head", "tail", "segment", "topLeftCorner", "block", "topRows", "leftCols"):
            t = fn.nodes[n["c"][0]]
            obj_t = fn.nodes[t["c"][0]].get("t", "") if t["k"] == "MemberExpr" and t["c"] else ""
            ij = self.cells(q, cell, dims(obj_t) or d) if (dims(obj_t) or d) else None
            a = [self.rval(q, x) for x in vs]
            if ij is None or not all(isinstance(x, int) for x in a):
                return [(q, UNK)]
            r = self.part(n, s, a, ij)
            return [(q, ("view", cell, r) if r else UNK)]
        if isinstance(obj, tuple) and obj and obj[0] in ("vec", "view"):
            w = self.vector(q, obj, (0, 0))
            ix = [self.rval(q, x) for x in vs] or [{"x": 0, "y": 1, "z": 2}.get(s)]
            if s in ("operator()", "coeff", "operator[]", "x", "y", "z") and all(isinstance(i, int) for i in ix):
                k = tuple(ix) if len(ix) == 2 else (ix[0], 0) if (ix[0], 0) in w else (0, ix[0])
                return [(q, ("ref", obj[1] + (("e",) + sorted(obj[2])[k[0] + k[1]],)) if obj[0] == "view" and len(ix) == 1 and sorted(obj[2])[k[0] + k[1]:]
                         else w.get(k, UNK))]
            if s in ("norm", "squaredNorm", "sum") and not vs:
                t = None
                for k in sorted(w):
                    x = w[k] if s == "sum" else ("op", "*", w[k], w[k])
                    t = x if t is None else ("op", "+", t, x)
                return [(q, t if s != "norm" else ("call", "sqrt", None, (t,)))]
        if isinstance(obj, tuple) and obj and obj[0] == "view":
            if s in ("operator*=", "operator/=") and vs:
                k = self.rval(q, vs[0])
                q = q.copy()
                for l in obj[2]:
                    self.put(q, obj[1], l, ("op", s[-2], self.entry(q, obj[1], *l), k))
                return [(q, obj)]
            if s in ("operator=", "operator+=", "operator-=") and vs:
                w = self.vector(q, vs[0], dims(fn.nodes[n["c"][-1]].get("t", "")) or (len(obj[2]), 1))
                q = q.copy()
                vals = [w[k] for k in sorted(w)] if w and len(w) == len(obj[2]) else [UNK] * len(obj[2])
                for l, x in zip(obj[2], vals):
                    self.put(q, obj[1], l, x if s == "operator=" else ("op", s[-2], self.entry(q, obj[1], *l), x))
                return [(q, obj)]
            if s in ("setZero", "setOnes"):
                q = q.copy()
                for l in obj[2]:
                    self.put(q, obj[1], l, 0 if s == "setZero" else 1)
                return [(q, obj)]
        if s in ("normalized", "normalize", "stableNormalize", "stableNormalized") and not vs:
            w = self.vector(q, obj, d)
            if not w:
                return [(q, UNK)]
            t = None
            for k in sorted(w):
                x = ("op", "*", w[k], w[k])
                t = x if t is None else ("op", "+", t, x)
            r = {k: ("op", "/", x, ("call", "sqrt", None, (t,))) for k, x in w.items()}
            if s.endswith("ed"):
                return [(q, ("vec", tuple(sorted(r.items()))))]
            q = q.copy()
            for k, x in r.items():
                self.put(q, cell, k, x)
            return [(q, UNK)]
        if s == "operator<<" and cell is not None and vs and self.vector(q, vs[0], (3, 1)) and d and -1 not in d and not isinstance(self.rval(q, vs[0]), (int, Fraction)) \
                and dims(fn.nodes[n["c"][-1]].get("t", "")):
            return [self.many_in(q, cell, d, 0, self.vector(q, vs[0], dims(fn.nodes[n["c"][-1]].get("t", ""))))]
        if s == "operator-" and obj is None and len(vs) == 1 or s == "operator-" and not vs and isinstance(obj, tuple) and obj and obj[0] == "view":
            w = self.vector(q, vs[0] if vs else obj, d or (0, 0))
            if w:
                return [(q, ("vec", tuple((k, ("op", "neg", x)) for k, x in sorted(w.items()))))]
        return super().eigen(fn, n, name, s, q, obj, vs)

    def many_in(self, q, cell, d, k, w):
        for key in sorted(w):
            q, r = self.comma(q, cell, d, k, w[key])
            k = r[3]
        return q, ("comma", cell, d, k)

    def part(self, n, s, a, ij):
        import re
        m = re.search(r"(?:head|tail|segment|topLeftCorner|block|topRows|leftCols)<([\d, ]+)>", n.get("fn", "") + " " + n.get("targs", ""))
        k = [int(x) for x in m.group(1).split(",")] if m else []
        if s == "row":
            return tuple(l for l in ij if l[0] == a[0])
        if s == "col":
            return tuple(l for l in ij if l[1] == a[0])
        if s == "head":
            return tuple(ij[:(k or a)[0]]) if k or a else None
        if s == "tail":
            return tuple(ij[-(k or a)[0]:]) if k or a else None
        if s == "topLeftCorner":
            m = re.search(r"Block<.*, (\d+), (\d+)(?:, \w+)?>$", n.get("t", "").rstrip("& "))
            r = k if len(k) == 2 else a or ([int(x) for x in m.groups()] if m else [])
            return tuple(l for l in ij if l[0] < r[0] and l[1] < r[1]) if len(r) == 2 else None
        return None

    def vector(self, q, v, d):
        if isinstance(v, tuple) and v and v[0] == "view":
            rows = sorted({i for i, j in v[2]})
            cols = sorted({j for i, j in v[2]})
            return {(rows.index(i), cols.index(j)): self.entry(q, v[1], i, j) for i, j in v[2]}
        return super().vector(q, v, d)


def rel(w, a, b):
    r = w.rel
    if (a, b) in r:
        return r[a, b]
    if (b, a) in r:
        return FLIP[r[b, a]]
    return None


def mentions(t, pred):
    return isinstance(t, tuple) and (pred(t) or any(mentions(x, pred) for x in t))


class Cam:
    def __init__(self, R, prog, name, fs):
        self.R, self.prog, self.name, self.fs = R, prog, name, fs
        self.A = Algebra()
        self.n = None

    def bad(self, rule, f, msg):
        self.R.violation(rule, f.qual, msg, f.where(), msg)

    def get(self, s, pred=lambda f: True):
        return [f for f in self.fs if f.short == s and pred(f)]

    def run_(self, f, args=None, mem=None, **k):
        I = Proj(self.prog, **k)
        try:
            return I, [(p, v) for p, v in I.run(f, args=args, mem=mem) if v != THROW]
        except (Limit, RecursionError, IndexError, TypeError):
            self.R.note("%s: too many ways through" % f.qual)
            return I, []

    # ---- parameters
    def parameters(self):
        for f in self.get("parameterCount"):
            I, rs = self.run_(f)
            v = {I.rval(p, v) for p, v in rs}
            if len(v) == 1 and isinstance(next(iter(v)), int):
                self.n = v.pop()
        if self.n is None:
            self.R.note("%s: the number of its intrinsics is not constant" % self.name)
            return
        self.R.count("models")
        for f in self.get("areParametersValid") + self.get("intrinsicsValid"):
            I, rs = self.run_(f)
            for p, v in rs:
                v = I.rval(p, v)
                self.R.count("outcomes of parameter tests decided")
                if v == 0:
                    continue
                if v == 1:
                    if I.bound(p, P(0), 1) != self.n:
                        self.bad("valid", f, "%s accepts intrinsics whose number is not %d" % (self.name, self.n))
                elif not mentions(v, lambda t: t[:1] == ("op",)):
                    self.R.note("%s: the result %s is not decided" % (f.qual, str(v)[:60]))
        for f in self.fs:
            if f.kind != "ctor" or not any("Eigen::Matrix<double, -1, 1>" in p["t"] for p in f.params):
                continue
            I, rs = self.run_(f, opaque=lambda g: g.short in ("areParametersValid", "intrinsicsValid"))
            for p, v in rs:
                self.R.count("constructions decided")
                if not any("Valid" in str(k) and r not in ("eq", False) for k, r in p.rel.items()):
                    self.bad("valid", f, "%s is constructed from intrinsics that were not found valid" % self.name)
                    break

    def reads(self, f, I, rs, coef, other):
        for p, v in rs:
            for t in p.trace:
                if t[0] != "elem" or t[1] not in (P(1), OWN):
                    continue
                self.R.count("reads of intrinsics decided")
                if t[1] == other:
                    self.bad("own", f, "%s uses %s" % (self.name, "external intrinsics without having any" if other == P(1) else
                                                       "its own intrinsics although others are given"))
                if t[1] == P(1) and self.n is not None:
                    if t[3] is None:
                        self.bad("size", f, "external intrinsics are read although their number was not tested")
                    elif t[3] != self.n or max(t[2]) >= self.n:
                        self.bad("size", f, "intrinsic %d is read where there are %d of %d" % (max(t[2]), t[3], self.n))
            if other == OWN:
                cells = [OWN + (("e", i, 0),) for i in range(self.n or 0)]
                if any(mentions(p.mem.get(P(3) + (("e", i, 0),)), lambda t: t[0] == "w" and len(t) == 2 and t[1] in cells) for i in (0, 1)):
                    self.bad("own", f, "%s uses its own intrinsics although others are given" % self.name)

    # ---- projection
    def project(self):
        R, A = self.R, self.A
        fs = self.get("project3Functional", lambda f: len(f.params) == 7)
        if not fs:
            R.need(False, "%s::project3Functional was not found" % self.name)
            return None
        f = fs[0]
        self.f = f
        out = {}
        for inull in (True, False):
            for dnull in (True, False):
                for jacs in ((0, 0, 0), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
                    if jacs not in ((0, 0, 0), (1, 1, 1)) and (inull or dnull):
                        continue
                    args, mem = [None] * 7, {}
                    for i, null in ((1, inull), (2, dnull), (4, not jacs[0]), (5, not jacs[1]), (6, not jacs[2])):
                        args[i] = ("ref", (("arg", i),))
                        mem[(("arg", i),)] = 0 if null else ("ptr", P(i))
                    I, rs = self.run_(f, args, mem)
                    coef = OWN if inull else P(1)
                    self.reads(f, I, rs, coef, P(1) if inull else OWN)
                    ws = []
                    for p, v in rs:
                        w = self.way(I, p, v, coef)
                        if w is None:
                            continue
                        ws.append(w)
                        for t in p.trace:
                            if t[0] not in ("model", "pjac"):
                                continue
                            c = t[3] if t[0] == "model" else t[2]
                            R.count("uses of the distortion decided")
                            own = c == 0 or isinstance(c, tuple) and "distortion_" in str(c)
                            if (c == P(2)) == dnull and (c == P(2) or own):
                                self.bad("own", f, "%s distorts with %s" % (self.name, "its own coefficients although others are given" if own else
                                                                            "external coefficients without having any"))
                        self.status(f, w)
                    done = set()
                    for w in ws:
                        key = str((w.raw, w.models, w.pjac, [(c, x) for c, x in w.p.mem.items() if c[0] in P(4) + P(5) + P(6)]))
                        if key not in done:
                            done.add(key)
                            self.jacobians(f, w, jacs)
                    out[inull, dnull, jacs] = ws
        pairs = set()
        for k, ws in out.items():
            for w in ws:
                for j, us in out.items():
                    if j[:2] != k[:2] or j[2] >= k[2]:
                        continue
                    for u in us:
                        if w.key == u.key or w.plainout or u.plainout or (w.key, u.key) in pairs or any(u.rel.get(a, r) != r for a, r in w.rel.items()):
                            continue
                        R.count("pairs of projections compared")
                        pairs.add((w.key, u.key))
                        if not self.alike(w, u):
                            self.bad("same", f, "the keypoint depends on which Jacobians are asked for")
        return out

    def way(self, I, p, v, coef, cell=P(3)):
        class W:
            pass
        w = W()
        w.I, w.p, w.rel, w.coef = I, p, p.rel, coef
        w.raw = [I.entry(p, cell, i) for i in (0, 1)]
        w.status = p.mem.get(v[1] + ("status_",)) if isinstance(v, tuple) and v[0] == "ref" else None
        try:
            w.out = [self.A.of(x) for x in w.raw]
        except Unknown as e:
            self.R.note("%s: the keypoint is not decided (%s)" % (self.name, str(e)[:60]))
            return None
        w.key = str((w.raw, [t[2] for t in p.trace if t[0] == "model"]))
        w.plainout = all(x.is_number for x in w.out)
        w.models = [t for t in p.trace if t[0] == "model" and t[1] == "distort"]
        w.pjac = [t for t in p.trace if t[0] == "pjac"]
        return w

    def total(self, w, e, s):
        """derivative of e by s, the distorted point being a function of what was distorted"""
        A = self.A
        d = A.diff(e, s)
        for m in w.models:
            for k in (0, 1):
                D = A.sym(("w", (("D", m[4], k),)))
                g = A.diff(e, D)
                if g != 0:
                    for j in (0, 1):
                        d += g * A.sym(("w", (("J", m[4], k, j),))) * A.diff(A.of(m[2][j]), s)
        return d

    def jacobians(self, f, w, jacs):
        R, A = self.R, self.A
        if len(w.models) > 1:
            R.note("%s: the point is distorted more than once" % f.qual)
            return
        ks = [A.sym(E(w.coef, i)) for i in range(self.n or 0)]
        for on, cell, by, what in ((jacs[0], P(4), [A.sym(E(P(0), i)) for i in range(3)], "point"), (jacs[1], P(5), ks, "intrinsics")):
            if not on:
                continue
            if what == "intrinsics" and (w.p.mem.get(cell + ("cols",)), w.p.mem.get(cell + ("rows",))) != (len(by), 2):
                if w.p.mem.get(cell + ("cols",)) is None or isinstance(w.p.mem[cell + ("cols",)], int):
                    self.bad("size", f, "the Jacobian by the intrinsics is not 2 x %d" % len(by))
                continue
            try:
                for i in (0, 1):
                    for j, s in enumerate(by):
                        e = A.of(w.I.entry(w.p, cell, i, j))
                        R.count("entries of Jacobians decided")
                        if not A.equal(e, self.total(w, w.out[i], s)):
                            self.bad("deriv", f, "entry (%d, %d) of the Jacobian by the %s is not the derivative of the keypoint's %s" % (i, j, what, "xy"[i]))
            except Unknown as ex:
                R.note("%s: the Jacobian by the %s is not decided (%s)" % (f.qual, what, str(ex)[:60]))
        if jacs[2] and not w.plainout:
            if len(w.pjac) != 1 or not w.models:
                R.note("%s: the Jacobian by the distortion is not decided" % f.qual)
                return
            t, m = w.pjac[0], w.models[0]
            try:
                if t[2] != m[3] or not all(A.equal(A.of(a), A.of(b)) for a, b in zip(t[1], m[2])):
                    self.bad("deriv", f, "the Jacobian by the distortion is taken for another point or other coefficients than the distorted ones")
                for i in (0, 1):
                    e = A.of(w.I.entry(w.p, P(6), i, 0))
                    g = sum(A.diff(w.out[i], A.sym(("w", (("D", m[4], k),)))) * A.sym(("w", (("P", k),))) for k in (0, 1))
                    R.count("entries of Jacobians decided")
                    if not A.equal(e, g):
                        self.bad("deriv", f, "row %d of the Jacobian by the distortion is not the derivative of the keypoint's %s" % (i, "xy"[i]))
            except Unknown as ex:
                R.note("%s: the Jacobian by the distortion is not decided (%s)" % (f.qual, str(ex)[:60]))

    # ---- status
    def status(self, f, w):
        R = self.R
        size = [("w", (("this",), "image_width_")), ("w", (("this",), "image_height_"))]
        if not isinstance(w.status, int):
            R.note("%s: its result is not decided" % f.qual)
            return
        R.count("results of projections decided")
        lo = [rel(w, o, 0) for o in w.raw]
        hi = [rel(w, o, s) for o, s in zip(w.raw, size)]
        if w.status == VISIBLE:
            if any(r not in ("gt", "eq") for r in lo) or any(r != "lt" for r in hi):
                self.bad("status", f, "a keypoint is called visible that was not found inside the image")
            point = lambda t: t[0] == "w" and len(t) == 2 and t[1][:1] == P(0)
            deep = [(a, b) if r in ("lt", "eq") else (b, a) for (a, b), r in ((k, r) for k, r in w.rel.items() if len(k) == 2)]
            deep = [(a, b) for a, b in deep if not mentions(a, point) and mentions(b, point) and b not in w.raw and
                    (isinstance(a, (int, Fraction)) and a > 0 or mentions(a, lambda t: t[0] == "glob"))]
            if not deep:
                self.bad("status", f, "a keypoint is called visible whose point was not found far enough from the camera")
            elif self.front and not any(b == E(P(0), 2) for a, b in deep):
                self.bad("status", f, "a keypoint is called visible whose point was not found in front of the camera")
        elif w.status == OUTSIDE:
            if not (any(r == "lt" for r in lo) or any(r in ("gt", "eq") for r in hi)):
                self.bad("status", f, "a keypoint is called outside the image that was not found there")
        elif w.status == BEHIND:
            if rel(w, E(P(0), 2), 0) != "lt":
                self.bad("status", f, "a point is called behind the camera that was not found there")
        elif w.status != INVALID:
            self.bad("status", f, "the result of a projection is none of the defined ones")

    def alike(self, w, u):
        A = self.A
        try:
            return all(A.equal(a, b) for a, b in zip(w.out, u.out)) and len(w.models) == len(u.models) and \
                all(A.equal(A.of(a), A.of(b)) for t, v in zip(w.models, u.models) for a, b in zip(t[2], v[2]))
        except Unknown:
            return True

    # ---- the version for other scalars
    def template(self, out):
        R, A = self.R, self.A
        for f in self.get("project3Functional", lambda f: len(f.params) == 4):
            I, rs = self.run_(f)
            self.reads(f, I, rs, P(1), OWN)
            done = set()
            for p, v in rs:
                w = self.way(I, p, v, P(1))
                if w is None:
                    continue
                if w.plainout:
                    continue
                self.status(f, w)
                for t in w.models:
                    if t[3] != P(2):
                        self.bad("own", f, "%s distorts with other coefficients than the given ones" % self.name)
                us = [u for u in (out or {}).get((False, False, (0, 0, 0)), ()) if not u.plainout and all(u.rel.get(a, r) == r for a, r in w.rel.items())]
                if not us:
                    us = [u for u in (out or {}).get((False, True, (0, 0, 0)), ()) if not u.plainout and all(u.rel.get(a, r) == r for a, r in w.rel.items())]
                for u in {u.key: u for u in us}.values():
                    if (w.key, u.key) in done:
                        continue
                    done.add((w.key, u.key))
                    R.count("pairs of projections compared")
                    if not self.alike(w, u):
                        self.bad("same", f, "the template for other scalars gives another keypoint")

    # ---- back projection
    def back(self, out):
        R, A = self.R, self.A
        pt = [E(P(0), i) for i in range(3)]
        for f in self.get("backProject3", lambda f: len(f.params) == 2):
            I, rs = self.run_(f)
            main = [u for u in (out or {}).get((True, True, (0, 0, 0)), ()) if not u.plainout and
                    not any(mentions(x, lambda t: t[0] == "w" and len(t) == 2 and t[1][-1] in ("image_width_", "image_height_")) for x in u.raw)]
            seen = set()
            for p, v in rs:
                if I.rval(p, v) == 0:
                    continue
                und = [t for t in p.trace if t[0] == "model"]
                if any(t[1] != "undistort" for t in und) or len(und) > 1:
                    self.bad("inverse", f, "the keypoint is not undistorted once")
                    continue
                for u in main:
                    env = {E(P(0), i): u.raw[i] for i in (0, 1)}
                    key = (str(u.raw), str([I.entry(p, P(1), i) for i in range(3)]))
                    if key in seen:
                        continue
                    seen.add(key)
                    try:
                        if bool(und) != bool(u.models):
                            self.bad("inverse", f, "%s is %s" % (self.name, "undistorted but not distorted" if und else "distorted but not undistorted"))
                            continue
                        if und:
                            for i in (0, 1):
                                a = A.of(subst(und[0][2][i], env))
                                if not A.equal(a, A.sym(("w", (("D", u.models[0][4], i),)))):
                                    raise Differs("%s" % "xy"[i])
                            for i in (0, 1):
                                env[("w", (("U", und[0][4], i),))] = u.models[0][2][i]
                        b = [A.of(subst(I.entry(p, P(1), i), env)) for i in range(3)]
                        x = [A.of(t) for t in pt]
                        R.count("back projections decided")
                        for i, j in ((0, 1), (0, 2), (1, 2)):
                            if not A.equal(b[i] * x[j], b[j] * x[i]):
                                raise Differs("%s" % "xyz"[i])
                        s = A.positive(sum(bi * xi for bi, xi in zip(b, x)))
                        if s is False:
                            raise Differs("direction")
                    except Differs as e:
                        self.bad("inverse", f, "back projecting the projected point does not give its direction (%s)" % e)
                    except Unknown as ex:
                        R.note("%s: the back projection is not decided (%s)" % (f.qual, str(ex)[:60]))

    def run(self):
        self.parameters()
        self.front = False
        for f in self.get("backProject3", lambda f: len(f.params) == 2):
            I, rs = self.run_(f)
            self.front = bool(rs) and all(isinstance(I.entry(p, P(1), 2), int) and I.entry(p, P(1), 2) > 0 for p, v in rs)
        out = self.project()
        self.template(out)
        self.back(out)


def wrappers(R, prog, fs):
    """the functions of Camera that pass on to project3Functional and backProject3"""
    for f in fs:
        jac = next((i for i, p in enumerate(f.params) if dims(p["t"]) in ((2, 3), (2, 4)) and "*" in p["t"]), None)
        if f.short in ("project3", "project3Functional"):
            inner, outp = "project3Functional", next((i for i, p in enumerate(f.params) if dims(p["t"]) == (2, 1)), None)
        elif f.short in ("project4", "backProject4"):
            inner, outp = f.short.replace("4", "3"), 1
        else:
            continue
        if len(f.params) > 4:
            continue
        I = Proj(prog, opaque=lambda g: g.short == inner and g is not f)
        try:
            rs = [(p, v) for p, v in I.run(f) if v != THROW]
        except (Limit, RecursionError, IndexError, TypeError):
            R.note("%s: too many ways through" % f.qual)
            continue

        def bad(rule, msg):
            R.violation(rule, f.qual, msg, f.where(), msg)
        for p, v in rs:
            R.count("ways through the wrappers decided")
            calls = [t for t in p.trace if str(t[0]).startswith("aslam::") and short(t[0]) == inner]
            if len(calls) != 1:
                (bad if not calls and not any(short(str(t[0])).startswith(("project", "backProject")) for t in p.trace) else lambda r, m: R.note("%s: %s" % (f.qual, m)))(
                    "wrap", "%s does not call %s once" % (f.short, inner))
                continue
            a = calls[0][2]
            if f.short in ("project3", "project3Functional"):
                want = [("ref", P(0))] + ([0, 0] if f.short == "project3" else [("ptr", P(1)), ("ptr", P(2))]) + [("ptr", P(outp))] + \
                    [("ptr", P(jac)) if jac is not None else 0, 0, 0]
                names = ["point", "intrinsics", "distortion coefficients", "keypoint", "Jacobian by the point", "Jacobian by the intrinsics",
                         "Jacobian by the distortion"]
                for g, w, nm in zip(a, want, names):
                    if g == w:
                        continue
                    if g == 0 or isinstance(g, tuple) and g[0] in ("ptr", "ref") and g[1] in (P(0), P(1), P(2), P(3), OWN):
                        bad("wrap", "%s passes on another %s than the one it is given" % (f.short, nm))
                    else:
                        R.note("%s: the %s that is passed on is not decided" % (f.qual, nm))
                continue
            if f.short == "project4":
                neg = rel(p, E(P(0), 3), 0) == "lt"
                pt = dict(a[0][1]) if isinstance(a[0], tuple) and a[0][0] == "snap" else None
                for i in range(3):
                    x = E(P(0), i)
                    g = pt.get((("e", i, 0),)) if pt else None
                    if g is None or g == UNK:
                        R.note("%s: the point that is projected is not decided" % f.qual)
                    elif g != (("op", "neg", x) if neg else x):
                        if rel(p, E(P(0), 3), 0) is None and mentions(g, lambda t: t == E(P(0), 3)):
                            R.note("%s: the point that is projected is not decided" % f.qual)
                        else:
                            bad("wrap", "project4 projects another point than the homogeneous one")
                        break
                if len(a) > 1 and a[1] != ("ptr", P(1)):
                    bad("wrap", "project4 does not pass on the keypoint")
                if jac is not None and len(a) > 2 and isinstance(a[2], tuple) and a[2][0] == "ptr":
                    for i in (0, 1):
                        for j in range(4):
                            g = I.entry(p, P(2), i, j)
                            x = E(a[2][1], i, j)
                            R.count("entries of Jacobians decided")
                            if j == 3:
                                if g != 0:
                                    bad("deriv", "the last column of the Jacobian by a homogeneous point is not zero")
                            elif g == UNK:
                                R.note("%s: its Jacobian is not decided" % f.qual)
                            elif g != (("op", "neg", x) if neg else x) and not (neg and g in (("op", "*", -1, x), ("op", "*", x, -1), ("op", "-", 0, x))):
                                bad("deriv", "the Jacobian by a homogeneous point is not the one by the point that is projected%s" % (
                                    ", which is its negative" if neg else ""))
            if f.short == "backProject4":
                if a[0] != ("ref", P(0)):
                    bad("wrap", "backProject4 does not pass on the keypoint")
                if isinstance(a[1], tuple) and a[1][0] == "ptr":
                    for i in range(3):
                        g = I.entry(p, P(1), i)
                        if g == UNK:
                            R.note("%s: its result is not decided" % f.qual)
                        elif g != E(a[1][1], i):
                            bad("wrap", "backProject4 gives another direction than backProject3")
                    if I.entry(p, P(1), 3) not in (0, UNK):
                        bad("wrap", "backProject4 does not give a point at infinity")


def boxes(R, prog, fs):
    """isKeypointVisible, isKeypointVisibleWithMargin, isMasked"""
    size = [("w", (("this",), "image_width_")), ("w", (("this",), "image_height_"))]
    A = Algebra()
    for f in fs:
        if f.short not in ("isKeypointVisible", "isKeypointVisibleWithMargin", "isMasked"):
            continue
        I = Proj(prog)
        try:
            rs = [(p, v) for p, v in I.run(f) if v != THROW]
        except (Limit, RecursionError, IndexError, TypeError):
            R.note("%s: too many ways through" % f.qual)
            continue

        def bad(msg):
            R.violation("box", f.qual, msg, f.where(), msg)
        margin = ("w", P(1)) if f.short.endswith("Margin") else 0
        for p, v in rs:
            v = I.rval(p, v)
            if v not in (0, 1):
                R.note("%s: its result is not decided" % f.qual)
                continue
            R.count("answers about the image box decided")
            kp = [E(P(0), i) for i in (0, 1)]
            if margin == 0:
                lo = [rel(p, k, 0) for k in kp]
                hi = [rel(p, k, s) for k, s in zip(kp, size)]
            else:
                lo = [rel(p, k, margin) for k in kp]
                hi = [rel(p, k, ("op", "-", s, margin)) for k, s in zip(kp, size)]
                if any(mentions(k, lambda t: t == kp[0] or t == kp[1]) for k in p.rel) and lo + hi == [None] * 4:
                    R.note("%s: its comparisons are not decided" % f.qual)
                    continue
            inside = all(r in ("gt", "eq") for r in lo) and all(r == "lt" for r in hi)
            outside = any(r == "lt" for r in lo) or any(r in ("gt", "eq") for r in hi)
            if f.short == "isMasked":
                m = [r for k, r in p.rel.items() if "'at'" in str(k) and "mask_" in str(k)]
                if v == 0 and not inside:
                    bad("a keypoint outside the image is called not masked")
                if v == 0 and inside and not (any(r != "eq" for r in m) or any("empty()" in str(k) and r != "eq" for k, r in p.rel.items())):
                    bad("a keypoint is called not masked although the mask was not read")
                if v == 1 and not outside and not any(r == "eq" for r in m):
                    bad("a keypoint inside the image is called masked although the mask is not zero there")
                for t in p.trace:
                    if str(t[0]).endswith("::at") and len(t[2]) == 2:
                        ix = [I.rval(p, x) for x in t[2]]
                        if ix != [kp[1], kp[0]]:
                            if set(map(str, ix)) <= set(map(str, kp)):
                                bad("the mask is read at another place than the keypoint's")
                            else:
                                R.note("%s: where the mask is read is not decided" % f.qual)
                continue
            if v == 1 and not inside:
                bad("a keypoint is called visible that was not found inside the image")
            if v == 0 and not outside:
                bad("a keypoint is called not visible that was not found outside the image")


class Differs(Exception):
    pass


VISIBLE, OUTSIDE, BEHIND, INVALID = 0, 1, 2, 3


def P20(R):
    R.rule("valid", "intrinsics are found valid only when there are as many as the model has; a camera is only constructed from valid ones")
    R.rule("size", "external intrinsics are only read after their number was tested; the Jacobian by the intrinsics has a column for each")
    R.rule("own", "null: the camera's own intrinsics and distortion coefficients, otherwise the given ones")
    R.rule("deriv", "each entry of the Jacobians by point, intrinsics and distortion equals, as a formula, the derivative of the keypoint, where the "
           "distorted point is an opaque function with an opaque Jacobian (chain rule)")
    R.rule("same", "the keypoint is the same formula whatever Jacobians are asked for and in the template for other scalars")
    R.rule("inverse", "the direction that back projection gives for the projected point is the point's, given that undistorting undoes distorting")
    R.rule("status", "visible, outside and behind are only the result where the keypoint was found in, out of the image box, the point deep enough, behind")
    R.rule("wrap", "the other projections pass on what they are given; a homogeneous point of negative scale is turned round, and so is its Jacobian")
    R.rule("box", "isKeypointVisible, isKeypointVisibleWithMargin and isMasked say what they were asked of the half-open image box and the mask")
    prog = programs.whole(*DRV)
    by = {}
    for f in sorted((f for f in prog.fns.values() if f.blocks), key=lambda f: (f.file, f.line, f.key)):
        by.setdefault(cls(f), []).append(f)
    names = sorted(c for c in by if any(f.short == "project3Functional" and len(f.params) == 7 for f in by[c]) and c != "Camera")
    R.need(len(names) >= 3, "the camera models were not found")
    for c in names:
        Cam(R, prog, c, by[c]).run()
    cam = [f for f in by.get("Camera", ()) if f.file.endswith(("/camera.cc", "/camera.h", "/camera-inl.h"))]
    wrappers(R, prog, cam)
    boxes(R, prog, cam)
    R.atleast("models", 3)


CHECKS = {"P20": P20}
