"""Copies of frames, rigs, cameras, sensors and distortions; equality of them."""
import re
from ..absint import Interp, Limit, Opaque, UNK
from ..graph import is_mutex_type
from ..ir import short, strip_tmpl
from .. import programs
from .repo import DRV

OTHER = (("param", 0),)
THIS = (("this",),)
VEC = re.compile(r"^(const )?std::vector<|^(const )?aslam::Aligned<std::vector|TransformationVector")
EQ = ("operator==", "operator!=", "isApprox", "isEqual", "checkSharedEqual", "isChannelGroupEqual", "isEqualImpl", "isEqualCameraImpl", "equals")
# what two equal objects may differ in
FREE = {"VisualFrame": {"id_", "raw_camera_geometry_"}, "Camera": {"mask_", "camera_type_"},
        "NCamera": {"id_to_index_", "T_G_B_fixed_localization_covariance_", "has_T_G_B_fixed_localization_covariance_"}}
DEEP = {"VisualFrame": {"channels_"}, "VisualNFrame": {"frames_"}, "NCamera": {"cameras_"}, "Camera": {"mask_", "distortion_"}}
REBUILT = {"NCamera": {"id_to_index_"}}


def at(v):
    return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] in ("ref", "w", "ptr") and isinstance(v[1], tuple) else None


def roots(v, out=None):
    """cells named in a value"""
    if out is None:
        out = []
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] in ("ref", "w", "ptr") and isinstance(v[1], tuple):
            out.append(v[1])
        elif len(v) == 3 and v[0] == "it":
            out.append(v[1])
        for x in v:
            roots(x, out)
    return out


class Copying(Interp):
    size = {}        # root -> number of elements of each of its vectors
    leaf = ()        # functions that are not looked into

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        k = n["k"]
        if k == "CXXTypeidExpr":
            if n["c"]:
                return [(q, ("ref", at(v) + ("typeid",)) if at(v) else UNK) for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer)]
            return [(p, UNK)]
        if k == "CXXDynamicCastExpr" and n["c"]:
            out = []
            for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer):
                c = at(self.rval(q, v)) if isinstance(v, tuple) and v[0] != "ptr" and n.get("t", "").endswith("*") else at(v)
                if c is None or not n.get("t", "").rstrip("const ").endswith("*"):
                    out.append((q, v))
                    continue
                for ok in (1, 0):
                    b = q.copy()
                    b.mem[c + ("dyn", n.get("t"))] = ok
                    if q.mem.get(c + ("dyn", n.get("t")), ok) == ok:
                        out.append((b, ("ptr", c) if ok else 0))
            return out
        if k == "CXXNewExpr":
            kid = [c for c in n["c"] if c >= 0 and fn.nodes[c]["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")]
            if kid:
                return [(q, ("new", n.get("t", "").rstrip("* "), tuple(vs)))
                        for q, vs in self.many(fn, fn.nodes[kid[0]]["c"], p, env, cache, this, fid, outer)]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("cc") in ("copy", "move") and len(n["c"]) == 1 and \
                not any(isinstance(el, dict) and el.get("e") == nid and (el.get("base") or el.get("delegating")) for b in fn.blocks for el in b["el"]):
            # a copied part is the part's own business
            return [(q, v) for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer)]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not n["c"] and re.match(r"(const )?std::(shared_ptr|unique_ptr|__shared_ptr)<", n.get("t", "")):
            return [(p, 0)]
        if k == "CXXScalarValueInitExpr" and re.match(r"(const )?std::(shared_ptr|unique_ptr|__shared_ptr)<", n.get("t", "")):
            return [(p, 0)]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n["c"]) >= 1 and re.match(r"(const )?std::(shared_ptr|unique_ptr|__shared_ptr)<", n.get("t", "")):
            return [(q, vs[0]) for q, vs in self.many(fn, n["c"][:1], p, env, cache, this, fid, outer)]
        return super()._ev(fn, nid, p, env, cache, this, fid, outer)

    def order(self, p, a, b):
        x = [self.rval(p, v) for v in (a, b)]
        if all(v in (("ptr", THIS), ("ptr", OTHER)) for v in x) and x[0] != x[1]:
            # the other object is another one (or else it is given as this one)
            return [(p.copy(), "lt"), (p, "gt")]
        return super().order(p, a, b)

    def store(self, p, cell, v):
        # the elements come along
        c = at(v)
        super().store(p, cell, v)
        if isinstance(v, tuple) and v[0] in ("w", "ref") and c is not None:
            self.follow(p, cell, c)

    def follow(self, p, cell, c):
        for k, x in list(p.mem.items()):
            if k[:len(c)] == c and len(k) > len(c):
                p.mem[cell + k[len(c):]] = x

    def count(self, q, cell):
        if cell + ("#",) in q.mem:
            return q.mem[cell + ("#",)]
        v = q.mem.get(cell)
        if at(v) and at(v) != cell:
            return self.count(q, at(v))
        return self.size.get(cell[:1], 0) if len(cell) >= 2 else 0

    def clear(self, q, cell):
        for k in [k for k in q.mem if k[:len(cell)] == cell]:
            del q.mem[k]

    def fork(self, q, f, r):
        out = []
        for v in (1, 0):
            p = q.copy()
            p.trace.append(("eq", f[0], f[1], bool(v)))
            out.append((p, v if r else 1 - v))
        return out

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        name = n.get("fn", "")
        s = strip_tmpl(short(name)) if not short(name).startswith("operator") else short(name)
        if "LogMessage" in name or s == "operator<<" or "MakeCheckOp" in name or "CheckOpMessage" in name:
            return [(q, UNK)]
        ops = ([obj] if obj is not None else []) + list(vs)
        a = [at(v) if not (at(v) and v[0] == "ref" and at(q.mem.get(v[1])) and q.mem[v[1]][0] != "w") else at(q.mem[v[1]]) for v in ops]
        if len(a) >= 2 and a[0] and a[1] and a[0][:1] != a[1][:1] and {a[0][:1], a[1][:1]} <= {THIS, OTHER} and n.get("t") in ("bool", "const bool"):
            f = [x[1:] for x in sorted(a[:2], key=lambda x: x[:1] != THIS)]
            if s in EQ or s.startswith("compareWithout"):
                if f[0] or f[1] or fn2 is None or not fn2.blocks or n.get("virt"):
                    return self.fork(q, (f[0] or (s,), f[1] or (s,)), s != "operator!=")
        o = at(obj)
        if s == "swap" and len(a) == 2 and a[0] and a[1]:
            q = q.copy()
            l, c = a
            x, y = ({k[len(r):]: v for k, v in q.mem.items() if k[:len(r)] == r} for r in (l, c))
            for r, z in ((l, x), (c, y)):
                if ("vector<" in (n.get("rec") or "") + name + "".join(fn.nodes[i].get("t", "") for i in n["c"] if i >= 0)):
                    z.setdefault(("#",), self.count(q, r))
            self.clear(q, l)
            self.clear(q, c)
            q.mem.update({l + k: v for k, v in y.items()})
            q.mem.update({c + k: v for k, v in x.items()})
            return [(q, UNK)]
        if o is not None and obj[0] in ("ref", "w") and o[:1] != (("glob",),):
            smart = re.match(r"std::(shared_ptr|unique_ptr|__shared_ptr|__uniq_ptr)", name)
            if smart:
                v = q.mem.get(o)
                if s == "operator bool":
                    if v == 0:
                        return [(q, 0)]
                    if isinstance(v, tuple) and v[0] in ("new", "call", "ptr"):
                        return [(q, 1)]
                    src = at(v) or o
                    if src + ("ok",) in q.mem:
                        return [(q, q.mem[src + ("ok",)])]
                    out = []
                    for b in (1, 0):
                        p = q.copy()
                        p.mem[src + ("ok",)] = b
                        out.append((p, b))
                    return out
                if s in ("operator->", "operator*", "get"):
                    if isinstance(v, tuple) and v[0] in ("new", "call"):
                        c = o + ("*",)
                    elif isinstance(v, tuple) and v[0] == "ptr":
                        c = v[1]
                    else:
                        c = (at(v) or o) + ("*",)
                    return [(q, ("ref" if s == "operator*" else "ptr", c))]
                if s in ("reset", "swap"):
                    q = q.copy()
                    self.clear(q, o)
                    q.mem[o] = self.rval(q, vs[0]) if vs else 0
                    return [(q, UNK)]
                if s == "operator=" and len(vs) == 1:
                    q = q.copy()
                    x = vs[0] if isinstance(vs[0], tuple) and vs[0][0] in ("new", "call") else self.rval(q, vs[0])
                    self.clear(q, o)
                    q.mem[o] = x
                    return [(q, obj)]
            if re.match(r"std::vector<", name):
                k = self.count(q, o)
                if s == "size":
                    return [(q, k)]
                if s == "empty":
                    return [(q, int(k == 0))]
                if s in ("operator[]", "at") and len(vs) == 1:
                    i = self.rval(q, vs[0])
                    v = q.mem.get(o)
                    base = at(v) if at(v) and o + (i,) not in q.mem and at(v) != o else o
                    return [(q, ("ref", base + (i,)))]
                if s in ("front", "back"):
                    return [(q, ("ref", o + (0 if s == "front" else k - 1,)))]
                if s in ("begin", "cbegin"):
                    return [(q, ("it", o, 0))]
                if s in ("end", "cend"):
                    return [(q, ("it", o, k))]
                if s == "clear":
                    q = q.copy()
                    self.clear(q, o)
                    q.mem[o + ("#",)] = 0
                    return [(q, UNK)]
                if s in ("reserve", "shrink_to_fit"):
                    return [(q, UNK)]
                if s in ("resize",) and vs and isinstance(self.rval(q, vs[0]), int):
                    q = q.copy()
                    m = self.rval(q, vs[0])
                    for c in [c for c in q.mem if c[:len(o)] == o and len(c) > len(o) and isinstance(c[len(o)], int) and c[len(o)] >= m]:
                        del q.mem[c]
                    for i in range(k, m):
                        q.mem[o + (i,)] = 0
                    q.mem[o + ("#",)] = m
                    return [(q, UNK)]
                if s in ("push_back", "emplace_back") and len(vs) == 1:
                    q = q.copy()
                    q.mem[o + (k,)] = vs[0] if isinstance(vs[0], tuple) and vs[0][0] in ("new", "call") else self.rval(q, vs[0])
                    q.mem[o + ("#",)] = k + 1
                    return [(q, UNK)]
                if s == "operator=" and len(vs) == 1 and at(vs[0]) == o:
                    return [(q, obj)]
                its = [v if isinstance(v, tuple) and v[0] == "it" else self.rval(q, v) for v in vs]
                if s in ("assign",) and len(its) == 2 and all(isinstance(v, tuple) and v[0] == "it" for v in its) and its[0][1] == its[1][1]:
                    q = q.copy()
                    self.clear(q, o)
                    for i in range(its[0][2], its[1][2]):
                        q.mem[o + (i - its[0][2],)] = self.apply_index(q, ("it", its[0][1], i))
                    q.mem[o + ("#",)] = its[1][2] - its[0][2]
                    return [(q, UNK)]
            if s == "operator=" and len(vs) == 1 and (fn2 is None or not fn2.blocks or o[1:]) and o[:1] in (THIS, OTHER) and o[1:]:
                q = q.copy()
                x = vs[0] if isinstance(vs[0], tuple) and vs[0][0] in ("new", "call") else self.rval(q, vs[0])
                if at(vs[0]) == o:
                    return [(q, obj)]
                self.clear(q, o)
                q.mem[o] = x
                if at(x) and isinstance(x, tuple) and x[0] in ("w", "ref"):
                    self.follow(q, o, at(x))
                return [(q, obj)]
        if n["k"] == "CXXOperatorCallExpr" or s in ("operator!=", "operator==", "operator++", "operator*"):
            vals = [self.rval(q, v) if not (isinstance(v, tuple) and v[0] == "it") else v for v in ops]
            if vals and isinstance(vals[0], tuple) and vals[0][0] == "it":
                it = vals[0]
                if s == "operator*":
                    return [(q, self.apply_index(q, it))]
                if s == "operator->":
                    return [(q, ("ptr", self.apply_index(q, it)[1]))]
                if s in ("operator==", "operator!=") and len(vals) == 2 and isinstance(vals[1], tuple) and vals[1][0] == "it" and vals[1][1] == it[1]:
                    return [(q, int((it[2] == vals[1][2]) == (s == "operator==")))]
                if s == "operator++" and at(ops[0]):
                    q = q.copy()
                    q.mem[ops[0][1]] = ("it", it[1], it[2] + 1)
                    return [(q, it if len(ops) > 1 else ops[0])]
                return [(q, UNK)]
        if o is not None and o[:1] == THIS and len(o) > 1 and (fn2 is None or not fn2.blocks) and not n.get("cm") and n["k"] == "CXXMemberCallExpr" and \
                s != "clone" and any(c[:1] == OTHER for v in vs for c in roots(v)):
            # changed by the library in a way that is not followed
            q = q.copy()
            self.clear(q, o)
            q.mem[o] = ("some", name, tuple(vs))
            return [(q, UNK)]
        if strip_tmpl(short(name)) in self.leaf or fn2 is not None and fn2.blocks and len(fn2.nodes) > 600 and not fn2.short.startswith("operator"):
            return [(q, ("call", name, None if obj is None else self.rval(q, obj), tuple(self.rval(q, v) for v in vs)))]
        if s == "clone" and o is not None:
            return [(q, ("call", "clone", ("ref", o), ()))]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)

    def apply_index(self, q, it):
        o, i = it[1], it[2]
        v = q.mem.get(o)
        base = at(v) if at(v) and o + (i,) not in q.mem and at(v) != o else o
        return ("ref", base + (i,))


def fields(prog, rec):
    """[(field, type, class)] of a class and its bases"""
    out, todo = [], [rec]
    while todo:
        k = todo.pop()
        r = prog.recs.get(k)
        if not r:
            continue
        out += [(f["n"], f["t"], short(k)) for f in r.get("fields", []) if f.get("n") and not is_mutex_type(f["t"])]
        todo += r.get("bases", [])
    return out


def pointer(t):
    return re.match(r"(const )?std::(shared_ptr|unique_ptr)<", t) is not None


def elems(I, p, root, f):
    cell = root + (f,)
    return [p.mem.get(cell + (i,)) for i in range(I.count(p, cell))]


class Copies:
    def __init__(self, R, prog):
        self.R, self.prog, self.seen = R, prog, set()

    def bad(self, rule, f, msg):
        if (f.qual, msg) not in self.seen:
            self.seen.add((f.qual, msg))
            self.R.violation(rule, f.qual, msg, f.where(), msg)

    def interp(self, n_this, n_other):
        I = Copying(self.prog)
        I.size = {THIS: n_this, OTHER: n_other}
        I.leaf = ("cloneChannelGroup", "isChannelGroupEqual", "initInternal", "isValid")
        return I

    # ---- copies
    def copy(self, f, rec):
        R = self.R
        name = short(rec)
        ctor = f.kind == "ctor"
        own = fields(self.prog, rec)
        for alias in ((False,) if ctor else (False, True)):
            for n in (0, 2):
                I = self.interp(n if alias else 0 if ctor else 1, n)
                src = THIS if alias else OTHER
                try:
                    rs = I.run(f, args=[("ref", src)])
                except (Limit, Opaque) as e:
                    R.note("%s: not decided (%s)" % (f.qual, e))
                    return
                R.count("ways through copies", len(rs))
                for p, v in rs:
                    for g, t, cls in own:
                        if g in REBUILT.get(cls, ()):
                            continue
                        R.count("fields of copies decided")
                        self.part(I, p, f, g, t, cls, src, n, ctor)

    def part(self, I, p, f, g, t, cls, src, n, ctor):
        cell, want = THIS + (g,), src + (g,)
        what = "a copy" if ctor else "an assignment"
        deep = g in DEEP.get(cls, ())
        if src == THIS:
            what = "an assignment to itself"
        if VEC.match(t):
            whole = p.mem.get(cell)
            if at(whole) and at(whole)[0][0] in ("tmp", "var"):
                whole = None
            if whole is None or not at(whole):
                k = I.count(p, cell)
                if (src != THIS or any(c[:2] == cell for c in p.mem)) and not (src != THIS and ctor and n == 0 and k == 0):
                    if k != n:
                        return self.bad("copy", f, "%s of an object with %d elements of %s leaves %d" % (what, n, g, k) if src != THIS else
                                        "an assignment to itself loses the elements of %s" % g)
                    for i in range(n):
                        x = p.mem.get(cell + (i,))
                        if x is None and src == THIS:
                            continue
                        self.value(f, what, g, x, want + (i,), deep, p)
                elif src != THIS and k != n:
                    self.bad("copy", f, "%s leaves %s as it was" % (what, g))
                return
            return self.value(f, what, g, whole, want, deep, p)
        x = p.mem.get(cell)
        subs = {c[2:]: y for c, y in p.mem.items() if c[:2] == cell and len(c) > 2 and c[2:] not in (("#",), ("ok",))}
        if isinstance(x, tuple) and x[:1] == ("w",) and x[1][0][0] == "tmp":
            x = None
        if isinstance(x, tuple) and x[:1] in (("w",), ("ref",)) and x[1][0][0] == "var" and subs:
            x = None
        if x is None and subs:
            for k, y in subs.items():
                if isinstance(y, tuple) and y[:1] == ("w",) and y[1][0][0] == "tmp":
                    continue
                self.value(f, what, g, y, want + k, False, p)
            return
        if x is None and src == THIS:
            return
        self.value(f, what, g, x, want, deep, p)

    def value(self, f, what, g, x, want, deep, p):
        if x is None:
            return self.bad("copy", f, "%s leaves %s as it was" % (what, g))
        if x == ("ref", want) or x == ("w", want) or isinstance(x, tuple) and x[0] == "ptr" and x[1] == want + ("*",):
            if deep:
                self.bad("independent", f, "%s shares %s with the original" % (what, g))
            return
        cells = [c for c in roots(x) if c[:1] in (OTHER, THIS)]
        ok = [c for c in cells if c[:len(want)] == want]
        if isinstance(x, int) or not cells:
            if x == 0 and p.mem.get(want + ("ok",)) == 0:
                return
            return self.bad("copy", f, "%s does not take %s from the original" % (what, g))
        if len(ok) != len(cells):
            return self.bad("copy", f, "%s takes %s from something else than the original's" % (what, g))
        if x[0] == "new" and not deep and len(x[2]) == 1:
            return self.value(f, what, g, x[2][0], want, deep, p)
        if x[0] in ("some", "new") and not deep or x[0] == "some":
            return self.R.note("%s: how %s is copied is not decided" % (f.qual, g))
        made = strip_tmpl(short(x[1])) if x[0] == "call" else str(x[1][-1])[:-2] if x[0] == "w" and str(x[1][-1]).endswith("()") else None
        if x[0] != "new" and (made is None or not deep and not made.lower().startswith(("clone", "copy", "eval", "get"))):
            return self.bad("copy", f, "%s changes %s" % (what, g))
        if deep:
            made = x[0] == "new" or x[0] == "call" and strip_tmpl(short(x[1])).lower().startswith(("clone", "copy")) or \
                x[0] == "w" and "clone" in str(x[1][-1])
            if not made:
                self.R.note("%s: how %s is copied is not decided" % (f.qual, g))

    # ---- equality
    def equal(self, f, rec, need, parts=None):
        R = self.R
        for n, m in ((0, 0), (2, 2), (1, 2), (2, 1)):
            I = self.interp(n, m)
            try:
                rs = I.run(f, args=[("ref", OTHER)] + [None] * (len(f.params) - 1))
            except (Limit, Opaque) as e:
                R.note("%s: not decided (%s)" % (f.qual, e))
                return
            R.count("ways through comparisons", len(rs))
            for p, v in rs:
                for q, b in I.truth(p, v):
                    if b:
                        self.answered(I, q, f, need, n, m)

    def answered(self, I, p, f, need, n, m):
        R = self.R
        eq, ne = set(), set()
        for t in p.trace:
            if t[0] == "eq" and t[1] == t[2]:
                (eq if t[3] else ne).add(t[1])
        for k, r in p.rel.items():
            if len(k) != 2:
                continue
            a, b = at(k[0]), at(k[1])
            if a and b and {a[:1], b[:1]} == {THIS, OTHER} and a[1:] == b[1:] and k[0][0] == "w":
                (eq if r == "eq" else ne).add(a[1:])
                continue
            for x, lt in ((k[0], "lt"), (k[1], "gt")):
                rr = roots(x)
                A, B = {c[1:] for c in rr if c[:1] == THIS}, {c[1:] for c in rr if c[:1] == OTHER}
                if A and A == B and x[0] == "call" and short(x[1]) in ("compare", "strcmp"):
                    if len(x[3]) == 1 or x[2] is None and len(x[3]) == 2:
                        (eq if r == "eq" and 0 in k else ne).update(A)
                elif A and A == B and 0 in k and r == "eq":
                    eq.update(A)
                elif A and A == B:
                    # a distance of the two
                    for c in A:
                        (eq if r == lt else ne).add(c)
        for g, t in need:
            R.count("compared fields decided")
            whole = lambda x: not str(x).endswith("()") or str(x).startswith("get") or str(x)[:-2] in ("transpose", "matrix", "eval", "c_str", "inverse")
            pre = lambda S, path: any(c[:len(path)] == path and (S is ne or all(whole(x) for x in c[len(path):])) for c in S)
            cells = [(g,)]
            if VEC.match(t):
                if pre({c for c in eq if len(c) == 1}, (g,)):
                    continue
                if n != m:
                    self.bad("equal", f, "objects with different numbers of elements of %s can be called equal" % g)
                    continue
                cells = [(g, i) for i in range(n)]
            for c in cells:
                if pre(ne, c):
                    self.bad("equal", f, "objects that differ in %s can be called equal" % g)
                elif not pre(eq, c) and not (pointer(t) and p.mem.get(THIS + c + ("ok",)) == 0 == p.mem.get(OTHER + c + ("ok",))):
                    self.bad("equal", f, "objects can be called equal without comparing %s" % g)


def P22(R):
    prog = programs.whole(*DRV)
    C = Copies(R, prog)
    R.rule("copy", "abstract interpretation of copy constructors and assignments: every field comes from the original's")
    R.rule("independent", "the parts a copy owns are clones")
    R.rule("equal", "abstract interpretation of comparisons: on every way that answers true every field compared equal")
    R.rule("clone", "a clone is a new object of the same class made from this one")
    kinds = ("VisualFrame", "VisualNFrame", "NCamera", "PinholeCamera", "UnifiedProjectionCamera", "Camera3DLidar", "RadTanDistortion",
             "EquidistantDistortion", "FisheyeDistortion", "NullDistortion", "Sensor", "Camera", "Distortion")
    done = {}
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line)):
        rec = f.d.get("rec") or f.d.get("cls") or f.qual.rsplit("::", 1)[0]
        name = short(rec)
        if not f.blocks or not rec.startswith("aslam::"):
            continue
        if name in kinds and len(f.params) == 1 and (f.kind == "ctor" or f.short == "operator=") and \
                re.sub(r"const |&| ", "", f.params[0]["t"]) == rec and "&&" not in f.params[0]["t"]:
            C.copy(f, rec)
            done.setdefault("copy", set()).add(name)
        elif name in kinds and f.params and f.short in ("operator==", "isEqual", "isEqualImpl", "isEqualCameraImpl", "compareWithoutCameraGeometry",
                                                       "compareWithoutCameraSystem"):
            own = fields(prog, rec)
            need = [(g, t) for g, t, c in own if g not in FREE.get(c, ())]
            sensor = {g for g, t, c in own if c == "Sensor"}
            if name == "Sensor":
                if f.short != "isEqual":
                    continue
                need += [("isEqualImpl", ""), ("getSensorType()", "")]
            elif f.short in ("isEqualImpl", "isEqualCameraImpl"):
                need = [(g, t) for g, t in need if g not in sensor and not (f.short == "isEqualCameraImpl" and g == "distortion_")]
            elif f.short == "compareWithoutCameraGeometry":
                need = [(g, t) for g, t in need if g != "camera_geometry_"]
            elif f.short == "compareWithoutCameraSystem":
                need = [(g, t) for g, t in need if g != "camera_rig_"]
            elif name == "Distortion":
                need = [(g, t) for g, t in need if g != "distortion_type_"] + [("typeid", "")]
            C.equal(f, rec, need)
            done.setdefault("equal", set()).add(name)
        elif f.short in ("clone", "cloneAsSensor") and not f.params and (name in kinds or strip_tmpl(name) == "Cloneable"):
            C_clone(C, f, rec)
            done.setdefault("clone", set()).add(f.short)
    R.need({"VisualFrame", "VisualNFrame", "NCamera", "Sensor", "Camera", "Distortion"} <= done.get("copy", set()) | done.get("equal", set()),
           "copies and comparisons were not found")
    R.sample(sorted(done.get("copy", ())))


def C_clone(C, f, rec):
    R = C.R
    I = C.interp(1, 1)
    I.leaf += ("clone",) if f.short == "cloneAsSensor" else ()
    try:
        rs = I.run(f)
    except (Limit, Opaque) as e:
        R.note("%s: not decided (%s)" % (f.qual, e))
        return
    cls = rec
    if strip_tmpl(short(rec)) == "Cloneable" or "Cloneable<" in rec:
        inner, depth = rec[rec.index("<") + 1:-1], 0
        for i, ch in enumerate(inner):
            depth += (ch == "<") - (ch == ">")
            if ch == "," and not depth:
                cls = inner[i + 1:].strip()
                break
    for p, v in rs:
        R.count("clones decided")
        x = p.mem.get(at(v), v) if at(v) else v
        while isinstance(x, tuple) and x[0] == "call" and strip_tmpl(short(x[1])).endswith("pointer_cast") and len(x[3]) == 1:
            x = x[3][0]
        if isinstance(x, tuple) and x[0] == "call" and strip_tmpl(short(x[1])) in ("allocate_shared", "make_shared"):
            if not any(at(a) == THIS for a in x[3]):
                C.bad("clone", f, "the clone is not made from this object")
        elif isinstance(x, tuple) and x[0] == "new":
            if re.sub("const ", "", x[1]) != cls and f.short == "clone":
                C.bad("clone", f, "the clone is of another class")
            elif not any(at(a) == THIS for a in x[2]):
                C.bad("clone", f, "the clone is not made from this object")
        elif isinstance(x, tuple) and x[0] == "call" and strip_tmpl(short(x[1])) == "clone" and at(x[2]) == THIS:
            pass
        elif x in (0, None) or at(x) == THIS:
            C.bad("clone", f, "the clone is no new object")
        else:
            R.note("%s: what is returned is not decided" % f.qual)


CHECKS = {"P22": P22}
