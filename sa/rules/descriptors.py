"""Binary descriptors: addressing of bits, equality, distance, mean and deviation."""
import copy
from ..graph import *
from ..facts import atoms
from ..bounds import LFacts
from ..absint import Interp, Limit, UNK
from .. import programs
from ..loops import counting, every_round, leaves_early, reaches_exit
from ..conj import loops_over, cond_key
from ..ir import strip_tmpl
from . import lanes

FILES = ("common/feature-descriptor-ref", "common/descriptor-utils", "common/hamming")
GET, SET, FLIP = ("GetBit", "getBit"), ("SetBit", "setBit"), ("FlipBit", "flipBit")
BIT = GET + SET + FLIP
SIZES = ("size_bytes_", "size()", "rows()", "cols()")


def ours(prog):
    return sorted((f for f in prog.fns.values() if f.blocks and any(x in f.file for x in FILES)), key=lambda f: (f.file, f.line, f.key))


def where(fn, nid=None):
    return fn.where()


# ------------------------------------------------------------------------------------------------ bits
class Bits(Interp):
    """memory behind a pointer is addressed by the (symbolic) index"""
    def index(self, q, b, i):
        i = self.rval(q, i)
        if isinstance(b, tuple) and b[0] == "ref" and isinstance(q.mem.get(b[1]), tuple) and q.mem[b[1]][0] == "ptr":
            b = q.mem[b[1]]
        if isinstance(b, tuple) and b[0] in ("ref", "ptr"):
            c = b[1]
            if c and isinstance(c[-1], tuple) and c[-1][0] == "ix":
                return ("ref", c[:-1] + (("ix", ("op", "+", c[-1][1], i)),))
            return ("ref", c + (("ix", i),))
        return UNK

    def padd(self, v, k):
        if isinstance(v, tuple) and v[0] in ("ptr", "ref") and k is not None:
            c = v[1]
            if c and isinstance(c[-1], tuple) and c[-1][0] == "ix":
                return ("ptr", c[:-1] + (("ix", ("op", "+", c[-1][1], k)),))
            return ("ptr", c + (("ix", k),))
        return UNK

    def binary(self, A, n):
        fn, c, p, env, cache, this, fid, outer = A
        if n["op"] in ("+", "-") and n.get("t", "").endswith("*"):
            out = []
            for q, (a, b) in self.many(*A):
                x = self.rval(q, a)
                if isinstance(x, tuple) and x[0] == "w":
                    x = ("ptr", x[1])
                y = self.rval(q, b)
                out.append((q, self.padd(x, y if n["op"] == "+" else ("op", "neg", y))))
            return out
        return super().binary(A, n)

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        if n["k"] == "UnaryOperator" and n["op"] == "*":
            out = []
            for q, (v,) in self.many(fn, n["c"], p, env, cache, this, fid, outer):
                v = self.rval(q, v)
                if isinstance(v, tuple) and v[0] == "w":
                    v = ("ptr", v[1])
                if isinstance(v, tuple) and v[0] == "ptr" and v[1] and isinstance(v[1][-1], tuple):
                    out.append((q, ("ref", v[1])))
                elif isinstance(v, tuple) and v[0] == "ptr":
                    out.append((q, ("ref", v[1])))
                else:
                    out.append((q, UNK))
            return out
        return super()._ev(fn, nid, p, env, cache, this, fid, outer)

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        s = n.get("fn", "").split("::")[-1]
        if (fn2 is None or not fn2.blocks) and s in ("operator()", "coeffRef", "coeff", "operator[]", "at") and len(vs) == 1 and \
                isinstance(obj, tuple) and obj[0] in ("ref", "ptr"):
            return [(q, self.index(q, ("ref", obj[1]), vs[0]))]
        if (fn2 is None or not fn2.blocks) and s in ("size", "rows", "cols", "length") and not vs and isinstance(obj, tuple) and \
                obj[0] in ("ref", "ptr"):
            return [(q, ("w", obj[1] + (s + "()",)))]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)


class NotKnown(Exception):
    pass


def fold(v, val):
    """integer value of the abstract value v, atoms given by val(atom)"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, tuple) and v:
        x = val(v)
        if x is not None:
            return x
        if v[0] == "op":
            a = [fold(x, val) for x in v[2:]]
            o = v[1]
            if len(a) == 1:
                return {"neg": -a[0], "~": ~a[0], "!": int(not a[0]), "+": a[0]}[o] if o in ("neg", "~", "!", "+") else bad()
            x, y = a
            if o in ("/", "%") and (y == 0):
                raise NotKnown
            if o in ("<<", ">>") and not 0 <= y < 64:
                raise NotKnown
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                    "%": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1), "<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y,
                    "|": lambda: x | y, "^": lambda: x ^ y, "==": lambda: int(x == y), "!=": lambda: int(x != y),
                    "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                    }.get(o, bad)()
    raise NotKnown


def bad():
    raise NotKnown


def cell_ix(c):
    """(object the element belongs to, index) of an element cell"""
    if isinstance(c, tuple) and c and isinstance(c[-1], tuple) and c[-1] and c[-1][0] == "ix":
        return c[:-1], c[-1][1]
    return None


def bits(R, prog, fs):
    for f in fs:
        if f.short not in BIT or f.kind == "method" or len(f.params) != 2:
            continue
        con = f.qual
        act = "get" if f.short in GET else "set" if f.short in SET else "flip"
        try:
            res = Bits(prog).run(f)
        except (Limit, RecursionError):
            R.note("%s: the bit operation is not decided" % con)
            continue
        msgs = set()
        accepted, unknown = {}, False
        for q, v in res:
            I = Bits(prog)
            stores = [(c, x) for c, x in q.mem.items() if c and c[0][0] == "param" and cell_ix(c)]
            if act == "get":
                v = I.rval(q, v)
                if isinstance(v, int) and not any("&" in str(k) or ">>" in str(k) for k in q.rel):
                    pass
            for B in list(range(0, 41)) + [255, 256, 1023]:
                for size in (0, 1, 2, 5, 6, 32, 128):
                    for old in (0x00, 0xff, 0x1d, 0xb1, 0x6c):
                        cells = set()

                        def val(a):
                            if a[0] == "w":
                                c = a[1]
                                if c == (("param", 0),):
                                    return B
                                if c[-1] in SIZES:
                                    return size
                                ci = cell_ix(c)
                                if ci and c[0] == ("param", 1):
                                    cells.add(fold(ci[1], val))
                                    return old
                            if a[0] == "at":
                                cells.add(fold(a[2], val))
                                return old
                            return None
                        try:
                            ok = True
                            truth = None
                            for k, r in q.rel.items():
                                if len(k) == 2:
                                    x, y = fold(k[0], val), fold(k[1], val)
                                    if r in ("lt", "eq", "gt"):
                                        ok = ok and {"lt": x < y, "eq": x == y, "gt": x > y}[r]
                                elif len(k) == 1:
                                    ok = ok and bool(fold(k[0], val)) == r
                                else:
                                    raise NotKnown
                            if not ok:
                                continue
                            if B // 8 >= size:
                                msgs.add("accepts a bit beyond the descriptor's size (bit %d of %d bytes)" % (B, size))
                                continue
                            accepted[(B, size, old)] = True
                            if act == "get":
                                r = bool(fold(v, val))
                                if any(x >= size or x < 0 for x in cells):
                                    msgs.add("reads byte %d for bit %d" % (max(cells), B))
                                elif any(x != B // 8 for x in cells):
                                    msgs.add("reads byte %d for bit %d" % (max(x for x in cells if x != B // 8), B))
                                elif r != bool(old >> (B % 8) & 1):
                                    msgs.add("does not return bit %d of the byte for bit %d" % (B % 8, B))
                            else:
                                now = {}
                                for c, x in stores:
                                    now[fold(cell_ix(c)[1], val)] = fold(x, val) & 0xff
                                want = (old | 1 << B % 8) if act == "set" else old ^ 1 << B % 8
                                if any(k != B // 8 for k in now):
                                    msgs.add("changes byte %d for bit %d" % (max(k for k in now if k != B // 8), B))
                                elif now.get(B // 8, old) != want:
                                    msgs.add("turns 0x%02x into 0x%02x instead of 0x%02x for bit %d" %
                                             (old, now.get(B // 8, old), want, B % 8))
                        except NotKnown:
                            unknown = True
        if unknown:
            R.note("%s: part of the bit operation is not decided" % con)
        else:
            for B, size in ((0, 1), (7, 1), (8, 2), (39, 5), (255, 32)):
                if not accepted.get((B, size, 0x00)) or not accepted.get((B, size, 0xff)):
                    msgs.add("refuses bit %d of a descriptor of %d bytes" % (B, size))
            R.count("bit operations decided")
        for m in sorted(msgs)[:3]:
            R.violation("bit", con, m, f.where(), "%s %s" % (f.short, m))


# ------------------------------------------------------------------------------------------------ equality
def is_data(v):
    """the object whose bytes v points to"""
    if isinstance(v, tuple) and v and v[0] in ("ptr", "w", "ref") and v[1] and v[1][-1] in ("data_", "data()"):
        return v[1][:-1]
    return None


def nsize(v):
    if isinstance(v, tuple) and v and v[0] == "w" and v[1][-1] in SIZES:
        return v[1][:-1]
    return None


def equality(R, prog, fs):
    for f in fs:
        if f.short != "operator==" or f.kind != "method":
            continue
        con = f.qual
        try:
            res = Bits(prog).run(f)
        except (Limit, RecursionError):
            R.note("%s: not decided" % con)
            continue
        A, B = ("this",), ("param", 0)
        msgs, odd = set(), False
        for q, v in res:
            v = Bits(prog).rval(q, v)
            if not isinstance(v, int):
                v2 = q.rel.get((v,))
                if v2 is None and content(v) is None:
                    odd = True
                    continue
                cmpv = v
                v = None
            null, size, same, other = {}, None, None, False
            for k, r in q.rel.items():
                hit = False
                if len(k) == 2:
                    x, y = k
                    if is_data(x) and y == 0 or is_data(y) and x == 0:
                        null[(is_data(x) or is_data(y))[0]] = r == "eq"
                        hit = True
                    elif nsize(x) and nsize(y) and {nsize(x)[0], nsize(y)[0]} == {A, B}:
                        size = r == "eq"
                        hit = True
                    elif is_data(x) and is_data(y):
                        hit = True      # same memory or not: says nothing by itself
                        if r == "eq":
                            same = same if same is not None else True
                    elif (y == 0 and content(x)) or (x == 0 and content(y)):
                        c = content(x if y == 0 else y)
                        hit = True
                        if c is not True:
                            msgs.add(c)
                        same = r == "eq"
                elif len(k) == 1 and content(k[0]):
                    c = content(k[0])
                    if c is not True:
                        msgs.add(c)
                    same = r
                    hit = True
                if not hit:
                    other = True
            if v is None:
                odd = True
                continue
            if v:
                if size is not True:
                    msgs.add("descriptors of different sizes can compare equal")
                if same is None and not (null.get(A) is True or null.get(B) is True):
                    msgs.add("descriptors can compare equal without their bytes being compared")
                elif same is False:
                    msgs.add("descriptors with different bytes compare equal")
                elif same is None and (null.get(A, None) is not True or null.get(B, None) is not True) and A in null and B in null:
                    msgs.add("a descriptor without bytes compares equal to one with bytes")
            elif not other and size is True and same is True and not null.get(A) and not null.get(B):
                msgs.add("descriptors of one size and with the same bytes compare different")
            elif not other and size is True and null.get(A) is True and null.get(B) is True:
                msgs.add("two empty descriptors compare different")
        if odd:
            R.note("%s: part of the comparison is not decided" % con)
        else:
            R.count("comparisons decided")
        for m in sorted(x for x in msgs if x):
            R.violation("equal", con, m, f.where(), m)


def content(v):
    """True: v compares all bytes of both; a message: not all of them; None: no comparison of bytes"""
    if not (isinstance(v, tuple) and v and v[0] == "call"):
        return None
    s = v[1].split("::")[-1].split("<")[0]
    r = v[3]
    if s in ("memcmp", "__builtin_memcmp") and len(r) == 3:
        a, b = is_data(r[0]), is_data(r[1])
        if not a or not b:
            return None
        if a == b:
            return "the bytes are compared with themselves"
        if nsize(r[2]) and nsize(r[2])[0] in (("this",), ("param", 0)):
            return True
        return "not all the bytes are compared"
    if s == "equal" and len(r) in (3, 4):
        a, b = is_data(r[0]), is_data(r[2])
        if a and b and a != b:
            return True
    return None


# ------------------------------------------------------------------------------------------------ loops over bits
def strip_ctor(t):
    while isinstance(t, tuple) and t and (t[0] == "ctor" and len(t) == 3 and isinstance(t[2], tuple) or
                                          t[0] == "m" and t[1] == "ToConstRef"):
        t = t[2]
    if isinstance(t, tuple) and t and t[0] == "ctor" and len(t) == 4 and t[2][0] == "fld" and t[2][2] == "data_" and \
            t[3] in (("fld", t[2][1], "size_bytes_"), ("m", "size", t[2][1])):
        t = t[2][1]
    return t


class Fn:
    """a function with its graph and facts; calls of the bit functions stay calls"""
    def __init__(self, R, prog, f):
        self.R, self.prog, self.f = R, prog, f
        self.G = Graph(prog, f, inline=lambda fn, fr: fn.short not in BIT + ("GetNumBitsDifferent", "operator()", "ToConstRef",
                                                                            "SetZero", "descriptorMeanRoundedToBinaryValue",
                                                                            "differenceToMeanSquaredNorm", "floatDescriptorMean")
                       or fn.kind == "lambda")
        self.F = LFacts(self.G, extra_nokill=("SetZero", "setZero"))
        self.loops = counting(self.G)

    def ev(self, *kinds):
        for e in self.G.ev:
            if e.id in self.G.live and e.kind == "stmt" and (not kinds or e.node["k"] in kinds):
                yield e

    def calls(self, *names):
        for e in self.ev("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            s = strip_tmpl(e.node.get("fn", "")).split("::")[-1]
            if s in names and not any(fr.parent is e.frame and fr.call == e.nid for fr in self.G.frames):
                yield e, s, self.G.term(e.frame, e.nid)

    def loop_of(self, e, v):
        """the loop with variable v around event e"""
        for L in self.loops:
            if L.v == v and e.id in L.events(self.G):
                return L
        return None

    def innermost(self, e):
        c = [L for L in self.loops if e.id in L.events(self.G)]
        return min(c, key=lambda L: len(L.events(self.G))) if c else None

    def upto(self, L, e, want):
        """None: L runs over 0 .. want-1; else a message, or "?" where that is not decided"""
        S = self.F.IN.get(min(L.heads))
        if S is None:
            return "?"
        if L.init != ("int", 0):
            return "starts at %s" % show(L.init) if L.init[0] == "int" else "?"
        if L.step != 1:
            return "takes steps of %d" % L.step
        b = L.bound if L.add == 0 else ("bin", "+", L.bound, ("int", L.add)) if L.add > 0 else ("bin", "-", L.bound, ("int", -L.add))
        Se = self.F.IN.get(e.id, S)
        for st in (S, Se):
            if self.F.entails_eq(st, b, want):
                return None
        return "ends at %s, not at %s" % (show(b), show(want))

    def shifted(self, e, B):
        """the loop over the values of B = variable + constant, or None"""
        if B[0] == "var":
            return self.loop_of(e, B)
        if B[0] == "bin" and B[1] in ("+", "-") and B[2][0] == "var" and B[3][0] == "int":
            L, k = self.loop_of(e, B[2]), B[3][1] if B[1] == "+" else -B[3][1]
            if L is not None and L.init[0] == "int":
                M = copy.copy(L)
                M.init, M.add = ("int", L.init[1] + k), L.add + k
                return M
        return None

    def bad(self, rule, e, msg):
        w = e.where() if hasattr(e, "where") else self.f.where()
        self.R.violation(rule, self.f.qual, msg, w, msg)


def size_term(D):
    """number of bytes of descriptor term D"""
    D = strip_ctor(D)
    if D[0] == "m" and D[1] == "col":
        return ("m", "rows", D[2])
    return None


def bytes_of(X, D):
    """candidate terms for the number of bytes of D"""
    D = strip_ctor(D)
    if D[0] == "m" and D[1] == "col":
        return [("m", "rows", D[2])]
    out = [("m", "size", D), ("m", "rows", D), ("size", D), ("fld", D, "size_bytes_")]
    if D[0] == "deref":
        out += [("fld", D, "size_bytes_")]
    return out


def times8(t):
    return ("bin", "*", t, ("int", 8))


def whole(X, L, e, D):
    """L runs over all bits of D?"""
    res = [X.upto(L, e, times8(t)) for t in bytes_of(X, D)]
    if None in res:
        return None
    return next((r for r in res if r and r.startswith(("starts", "takes"))), res[0])


def columns(X, e, D):
    """every column / list element is visited; None if so (or if D is no column), else a message"""
    D = strip_ctor(D)
    if D[0] == "deref":
        D2 = D[1]
    else:
        D2 = D
    if D[0] == "m" and D[1] == "col" and len(D) >= 4:
        i = D[3]
        if i[0] != "var":
            return "only one of the descriptors is used"
        L = X.loop_of(e, i)
        if L is None:
            return "?"
        m = X.upto(L, e, ("m", "cols", D[2]))
        return None if m is None else m if m == "?" else "the loop over the descriptors %s" % m, L
    return None


def outer_loops(X, e, D):
    """(loop, message) of the loop over the descriptors of which D is one"""
    D = strip_ctor(D)
    if D[0] == "m" and D[1] == "col" and len(D) >= 4:
        i = D[3]
        L = X.loop_of(e, i) if i[0] == "var" else None
        if L is None:
            return None, "only one of the descriptors is used" if i[0] == "int" else "?"
        m = X.upto(L, e, ("m", "cols", D[2]))
        return L, None if m is None else m if m == "?" else "the loop over the descriptors %s" % m
    x = D[1] if D[0] == "deref" else D
    if x[0] == "deref":
        x = x[1]
    if x[0] == "elem":
        ls = [L for L in loops_over(X.G, lambda c: c == x[1])]
        return (ls[0] if ls else None), None if ls else "?"
    if x[0] == "idx":
        L = X.loop_of(e, x[2]) if x[2][0] == "var" else None
        if L is None:
            return None, "only one of the descriptors is used" if x[2][0] == "int" else "?"
        m = X.upto(L, e, ("size", x[1]))
        return L, None if m is None else m if m == "?" else "the loop over the descriptors %s" % m
    return None, None


def increments(X, e):
    """(location, amount term) if event e adds to a location"""
    n = e.node
    if n["k"] == "UnaryOperator" and n["op"] == "++":
        return X.G.term(e.frame, n["c"][0]), ("int", 1)
    if n["k"] == "CompoundAssignOperator" and n["op"] == "+=":
        return X.G.term(e.frame, n["c"][0], "loc") if False else X.G.term(e.frame, n["c"][0]), X.G.term(e.frame, n["c"][1])
    return None


def tallies(R, prog, fs):
    """loops that test every bit of descriptors and count or copy it"""
    for f in fs:
        if f.kind == "lambda" or f.short in BIT:
            continue
        if not any(strip_tmpl(n.get("fn", "")).split("::")[-1] in GET for n in f.nodes if n["k"] == "CallExpr"):
            if not helper_gets(prog, f):
                continue
        X = Fn(R, prog, f)
        G = X.G
        for e, s, t in X.calls(*GET):
            if len(t) < 4:
                continue
            B, D = t[2], t[3]
            L = X.shifted(e, B)
            if L is None:
                R.note("%s: the loop over the bits %s is not recognised" % (f.qual, show(B)))
                continue
            R.count("loops over bits decided")
            m = whole(X, L, e, D)
            if m == "?":
                R.note("%s: the range of the loop over the bits is not decided" % f.qual)
            elif m:
                X.bad("all", e, "the loop over the bits %s" % m)
            O, m = outer_loops(X, e, D)
            if m == "?":
                R.note("%s: the loop over the descriptors is not decided" % f.qual)
            elif m:
                X.bad("all", e, m)
            nest = [(L, "the loop over the bits", "bits")] + ([(O, "the loop over the descriptors", "descriptors")] if O is not None else [])
            if O is not None and set(L.heads) & set(inside(G, O)):
                nest.reverse()
            for i, (Z, nm, what) in enumerate(nest):
                tgt = set(nest[i + 1][0].heads) if i + 1 < len(nest) else {e.id}
                if not rounds(G, Z, tgt):
                    X.bad("all", e, "%s skips %s" % (nm, what))
                out = leaves_early(G, Z) if hasattr(Z, "v") else None
                if out is not None:
                    X.bad("all", out, "%s is left before all %s were visited" % (nm, what))
            effects(X, e, t, L)


def inside(G, Z):
    """events in the body of the loop"""
    if hasattr(Z, "events"):
        return Z.events(G)
    out = set()
    for b in Z.body:
        out |= {b} | set(reachable(G, b, stop=lambda x: x.id in Z.heads))
    return out


def rounds(G, Z, targets):
    """every round of loop Z passes one of targets"""
    if hasattr(Z, "v"):
        return every_round(G, Z, targets)
    return all(b in targets or must_pass(G, b, sorted(Z.heads), lambda x: x.id in targets) is None for b in Z.body)


def helper_gets(prog, f, depth=0):
    for n in f.nodes:
        if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
            g = prog.fns.get(n.get("fk"))
            if g is not None and g.blocks and depth < 3:
                if any(strip_tmpl(m.get("fn", "")).split("::")[-1] in GET for m in g.nodes if m["k"] == "CallExpr") and \
                        g.short not in BIT and g.d.get("access") in ("private", "protected"):
                    return True
    return False


def effects(X, e, t, L):
    """what is done with the bit: its own counter is raised iff it is set, or its own element becomes 1 / 0"""
    G, R, f = X.G, X.R, X.f
    B = t[2]
    body = L.events(G)
    inc, put, direct = [], [], []
    for i in sorted(body):
        x = G.ev[i]
        if x.kind != "stmt":
            continue
        d = increments(X, x)
        if d and d[0][0] == "idx" and d[0][0] != "var":
            inc.append((x, d[0], d[1]))
        elif x.node["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.node.get("op") == "=":
            l = G.term(x.frame, x.node["c"][-2])
            if l[0] == "idx" and len(l) == 3:
                put.append((x, l, G.term(x.frame, x.node["c"][-1])))
    yes = [(x, tt) for x in (G.ev[i] for i in body | L.heads) for tt, c in x.succ
           if c and c[0] == "if" and ("T", t) in atoms(G.term(c[1], c[2]), c[3])]
    no = [(x, tt) for x in (G.ev[i] for i in body | L.heads) for tt, c in x.succ
          if c and c[0] == "if" and ("F", t) in atoms(G.term(c[1], c[2]), c[3])]
    heads = sorted(L.heads)

    def meets(start, ids):
        """0: no path meets, 1: some, 2: all"""
        if start in ids:
            return 2
        r = reachable(G, start, stop=lambda z: z.id in L.heads)
        if not (set(r) & ids):
            return 0
        return 2 if must_pass(G, start, heads, lambda z: z.id in ids) is None else 1
    if inc:
        R.count("tallies decided")
        ids = {x.id for x, l, a in inc}
        for x, l, a in inc:
            if l[2] != B:
                X.bad("count", x, "bit %s is counted at %s" % (show(B), show(l[2])))
            Sx = X.F.IN.get(x.id)
            if Sx is not None and l[1][0] == "var":
                if not X.F.entails_ge(Sx, ("size", l[1]), l[2], 1):
                    X.bad("bound", x, "the counter of bit %s may lie outside %s" % (show(B), show(l[1])))
        cond = [a for x, l, a in inc if a != ("int", 1)]
        if cond:
            for a in cond:
                if a != t and not (a[0] == "cond" and a[1] == t and a[2:] == (("int", 1), ("int", 0))):
                    R.note("%s: the amount counted is not decided" % f.qual)
            return
        if not yes:
            R.note("%s: the test of the bit is not recognised" % f.qual)
            return
        for x, tt in yes:
            if meets(tt, ids) != 2:
                X.bad("count", x, "a bit that is set is not counted")
        for x, tt in no:
            if meets(tt, ids) != 0:
                X.bad("count", x, "a bit that is not set is counted")
    elif put:
        R.count("tallies decided")
        for x, l, v in put:
            if l[2] != B:
                X.bad("count", x, "bit %s is copied to element %s" % (show(B), show(l[2])))
        for edges, val in ((yes, 1), (no, 0)):
            for x, tt in edges:
                good = {y.id for y, l, v in put if v in (("int", val), ("float", float(val)))}
                other = {y.id for y, l, v in put if v in (("int", 1 - val), ("float", float(1 - val)))}
                if meets(tt, other) and not meets(tt, good):
                    X.bad("count", x, "a bit that is %s becomes %d" % ("set" if val else "not set", 1 - val))
                elif not meets(tt, good) and not meets(tt, {y.id for y, l, v in put}):
                    X.bad("count", x, "a bit that is %s is not copied" % ("set" if val else "not set"))
    else:
        R.note("%s: what is done with the bits is not recognised" % f.qual)


def evalterm(t, env):
    """integer value of a graph term; env(term) gives the values of atoms"""
    x = env(t)
    if x is not None:
        return x
    if t[0] == "int":
        return t[1]
    if t[0] == "float":
        return t[1]
    if t[0] == "bin" and len(t) == 4:
        a, b = evalterm(t[2], env), evalterm(t[3], env)
        if t[1] == "/" and isinstance(a, float) | isinstance(b, float):
            return a / b if b else bad()
        if isinstance(a, float) or isinstance(b, float):
            if t[1] in ("&", "|", "^", "<<", ">>", "%"):
                raise NotKnown
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: a < b, ">": lambda: a > b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}.get(t[1], bad)()
        return fold(("op", t[1], int(a), int(b)), lambda a: None)
    if t[0] == "un" and len(t) == 3:
        a = evalterm(t[2], env)
        return {"-": -a, "!": int(not a), "~": ~int(a)}[t[1]] if t[1] in "-!~" else bad()
    if t[0] == "not":
        return int(not evalterm(t[1], env))
    raise NotKnown


def reach_under(G, starts, stops, env):
    """events reached from starts when conditions have the values given by env; unknown ones go both ways"""
    seen, unknown, todo = set(), set(), list(starts)
    while todo:
        i = todo.pop()
        if i in seen or i in stops:
            continue
        seen.add(i)
        for t, c in G.ev[i].succ:
            if c and c[0] == "if":
                try:
                    if bool(evalterm(G.term(c[1], c[2]), env)) != bool(c[3]):
                        continue
                except NotKnown:
                    unknown.add(i)
            todo.append(t)
    return seen, unknown


def majority(R, prog, fs):
    """the bits of a mean are set by majority"""
    for f in fs:
        if f.kind == "lambda" or f.short in BIT or f.short.startswith("Flip"):
            continue
        if not any(strip_tmpl(n.get("fn", "")).split("::")[-1] in SET for n in f.nodes if n["k"] == "CallExpr"):
            continue
        X = Fn(R, prog, f)
        G = X.G
        for e, s, t in X.calls(*SET):
            if len(t) < 4:
                continue
            B, D = t[2], t[3]
            L = X.shifted(e, B)
            if L is None:
                R.note("%s: the loop that sets the bits %s is not recognised" % (f.qual, show(B)))
                continue
            R.count("majorities decided")
            obj = ("deref", D) if D[0] != "addr" else D[1]
            sums = None
            for x in X.ev():
                if x.id in L.events(G) | L.heads:
                    tt = G.term(x.frame, x.nid)
                    if tt[0] == "idx" and tt[2] == B:
                        sums = tt[1]
            if sums is None:
                for x in X.ev():
                    if x.id in L.events(G) | L.heads:
                        tt = G.term(x.frame, x.nid)
                        if tt[0] == "idx" and len(tt) == 3 and tt[2] != B and subterm(tt[2], L.v) and tt[1][0] == "var":
                            X.bad("majority", e, "bit %s is set where counter %s decides" % (show(B), show(tt[2])))
                            break
            cands = [times8(b) for b in (("m", "rows", obj), ("m", "size", obj), ("size", obj), ("fld", obj, "size_bytes_"))]
            if sums is not None:
                cands.append(("size", sums))
            rs = [X.upto(L, e, c) for c in cands]
            if None not in rs:
                m = next((r for r in rs if r and r.startswith(("starts", "takes"))), rs[-1])
                if m != "?":
                    X.bad("all", e, "the loop that sets the bits %s" % m)
            out = leaves_early(G, L)
            if out is not None:
                X.bad("all", out, "the loop that sets the bits is left before all were visited")
            # cleared first
            zero = {x.id for x in X.ev("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "BinaryOperator")
                    if zeroes(X, x, obj)}
            ent = next(x.id for x in G.ev if x.kind == "entry" and x.frame is G.root)
            if must_pass(G, ent, [e.id], lambda z: z.id in zero) is not None:
                if zero or not may_zero(X, obj):
                    X.bad("clear", e, "bits are set although what the result held before is not always cleared")
                else:
                    R.note("%s: the clearing of the result is not recognised" % f.qual)
            # the threshold
            if sums is None:
                R.note("%s: the counter that decides is not recognised" % f.qual)
                continue
            done = False
            for n in (1, 2, 3, 4, 5, 8, 9):
                for c in range(0, n + 1):
                    def env(tt):
                        if tt[0] == "idx" and tt[1] == sums and tt[2] == B:
                            return c
                        if tt[0] == "m" and tt[1] in ("cols",) or tt[0] == "size" and tt[1][0] == "param":
                            return n
                        return None
                    seen, unk = reach_under(G, L.body, L.heads, env)
                    if unk & set(L.events(G)):
                        if not done:
                            R.note("%s: the threshold is not decided" % f.qual)
                        done = True
                        break
                    if (e.id in seen) != (2 * c > n):
                        X.bad("majority", e, "a bit set in %d of %d descriptors is %s in the mean" %
                              (c, n, "set" if e.id in seen else "not set"))
                        done = True
                        break
                if done:
                    break


def zeroes(X, x, obj):
    t = X.G.term(x.frame, x.nid)
    n = x.node
    if n["k"] == "CXXMemberCallExpr" and t[0] == "m" and t[1] in ("setZero", "SetZero") and same_obj(t[2], obj):
        return True
    if n["k"] == "CXXMemberCallExpr" and t[0] == "m" and t[1] in ("setConstant", "fill") and same_obj(t[2], obj) and ("int", 0) in t[3:]:
        return True
    if n.get("op") == "=" and len(n["c"]) >= 2:
        l = X.G.term(x.frame, n["c"][-2])
        r = X.G.term(x.frame, n["c"][-1])
        return same_obj(l, obj) and any(isinstance(z, tuple) and len(z) > 1 and z[0] == "call" and str(z[1]).endswith("::Zero")
                                        for z in (r, strip_ctor(r)))
    if n["k"] == "CallExpr" and t[0] == "call" and t[1].split("::")[-1] in ("memset", "fill", "fill_n"):
        return ("int", 0) in t and any(subterm(z, obj) for z in t[2:3])
    return False


def may_zero(X, obj):
    """something unrecognised may clear obj"""
    return any(x.node["k"] == "CallExpr" and subterm(X.G.term(x.frame, x.nid), obj) and
               not any(z in x.node.get("fn", "") for z in ("Check", "GetReferenceableValue", "CHECK")) and
               strip_tmpl(x.node.get("fn", "")).split("::")[-1] not in SET + ("descriptorMeanRoundedToBinaryValue",)
               for x in X.ev("CallExpr"))


def subterm(t, o):
    return t == o or isinstance(t, tuple) and any(subterm(x, o) for x in t if isinstance(x, tuple))


def same_obj(a, b):
    return a == b


# ------------------------------------------------------------------------------------------------ random flips
def flips(R, prog, fs):
    for f in fs:
        if f.kind != "function" or f.short in BIT:
            continue
        if not any(strip_tmpl(n.get("fn", "")).split("::")[-1] in FLIP for n in f.nodes if n["k"] == "CallExpr"):
            continue
        X = Fn(R, prog, f)
        G = X.G
        for e, s, t in X.calls(*FLIP):
            B = t[2]
            num = next((("param", i, p["n"]) for i, p in enumerate(f.params) if "*" not in p["t"] and "&" not in p["t"]), None)
            if num is None:
                continue
            R.count("random flips decided")
            if B[0] != "idx" or B[1][0] != "var":
                if subterm_name(B, ("rand", "random", "operator()")) or B[0] == "call":
                    X.bad("distinct", e, "the bits to flip are drawn one by one: one bit may be drawn twice")
                else:
                    R.note("%s: the bit to flip is not recognised" % f.qual)
                continue
            v, i = B[1], B[2]
            if subterm_name(i, ("rand", "random", "operator()")):
                X.bad("distinct", e, "the bits to flip are drawn one by one: one bit may be drawn twice")
                continue
            if i[0] == "int" and X.innermost(e) is not None:
                X.bad("distinct", e, "the same bit is flipped in every round")
                continue
            L = X.loop_of(e, i) if i[0] == "var" else None
            if L is None:
                R.note("%s: the loop over the bits to flip is not recognised" % f.qual)
                continue
            m = X.upto(L, e, num)
            if m and m != "?":
                X.bad("distinct", e, "the loop over the bits to flip %s" % m)
            if not every_round(G, L, {e.id}) or leaves_early(G, L) is not None:
                X.bad("distinct", e, "fewer bits are flipped than asked for")
            S = X.F.IN.get(e.id)
            # the list: all bits of the descriptor, each once
            gen = [x for x in X.ev("CallExpr") if strip_tmpl(x.node.get("fn", "")).split("::")[-1] in ("generate_n", "generate", "iota")
                   and subterm(G.term(x.frame, x.nid), v)]
            push = [x for x in X.ev("CXXMemberCallExpr") if x.node.get("fn", "").split("::")[-1] in ("push_back", "emplace_back")
                    and G.term(x.frame, x.nid)[2:3] == (v,)]
            D = t[3]
            obj = ("deref", D)
            want = [times8(z) for z in (("fld", obj, "size_bytes_"), ("m", "size", obj))]
            if gen:
                x = gen[0]
                tt = G.term(x.frame, x.nid)
                nm = strip_tmpl(x.node["fn"]).split("::")[-1]
                if nm != "iota":
                    m = generator(X, x)
                    if m == "?":
                        R.note("%s: the numbers listed are not decided" % f.qual)
                    elif m:
                        X.bad("distinct", x, m)
                if nm == "generate_n":
                    Sx = X.F.IN.get(x.id)
                    if not any(X.F.entails_eq(Sx, tt[3], w) for w in want):
                        X.bad("distinct", x, "the bits are drawn from %s bits, not from all bits of the descriptor" % show(tt[3]))
            elif push:
                P = X.innermost(push[0])
                if P is None or G.term(push[0].frame, push[0].nid)[3] != P.v:
                    R.note("%s: the list of bits is not recognised" % f.qual)
                elif all(X.upto(P, push[0], w) for w in want):
                    X.bad("distinct", push[0], "the loop that lists the bits %s" % X.upto(P, push[0], want[0]))
            else:
                R.note("%s: the list of bits is not recognised" % f.qual)
            sh = [x for x in X.ev("CallExpr") if strip_tmpl(x.node.get("fn", "")).split("::")[-1] in ("random_shuffle", "shuffle")
                  and subterm(G.term(x.frame, x.nid), v)]
            for x in sh:
                a = G.term(x.frame, x.nid)[2:4]
                if len(a) == 2 and (a[0] != ("m", "begin", v) or a[1] != ("m", "end", v)):
                    X.bad("distinct", x, "only some of the bits are shuffled")
            if not sh:
                X.bad("distinct", e, "the list of bits is not shuffled")
            # refused exactly when more than everything
            if S is not None and not X.F.entails_ge(S, ("size", v), i, 1) and not any(
                    X.F.entails_ge(S, w, i, 1) for w in want):
                if not any(refuses(X, num, ("size", v)) or any(refuses(X, num, w) for w in want) for _ in (0,)):
                    X.bad("distinct", e, "more bits than the descriptor has may be asked for")
            for (a, tgt, c) in fatal(G):
                for fct in atoms(G.term(c[1], c[2]), c[3]):
                    if fct[0] == "le" and {fct[1], fct[2]} <= {num, ("size", v)} | set(want):
                        # failing fact: allowed - num <= -1, i.e. more than everything
                        if fct[2] == num and fct[1] != num and fct[3] > -1:
                            X.bad("distinct", a, "a number of bits that the descriptor has is refused")


def generator(X, x):
    """None: the lambda given to generate yields 0, 1, 2, ...; a message; or "?" """
    G = X.G
    lam = None
    for c in x.node["c"][1:]:
        lam = lam or G.find_lambda(x.frame, c)
    g = X.prog.fns.get(lam[1]["fk"]) if lam else None
    if g is None:
        return "?"
    rets = [n for n in g.nodes if n["k"] == "ReturnStmt" and n["c"]]
    if len(rets) != 1:
        return "?"
    steps = [n for n in g.nodes if n["k"] == "UnaryOperator" and n["op"] == "++" or
             n["k"] == "CompoundAssignOperator" and n["op"] == "+="]
    writes = [n for n in g.nodes if n["k"] == "BinaryOperator" and n["op"] == "="]
    if not steps:
        return "?" if writes else "the same bit is listed again and again"
    n = g.nodes[rets[0]["c"][0]]
    seen = 0
    while n["k"] not in ("UnaryOperator", "BinaryOperator", "DeclRefExpr", "CallExpr") and len(n["c"]) == 1 and seen < 9:
        n, seen = g.nodes[n["c"][0]], seen + 1
    if n["k"] == "BinaryOperator" and n["op"] in ("&", "%", "/", ">>", "|"):
        return "the bits are listed modulo something: one bit may be listed twice"
    if n["k"] == "UnaryOperator" and n["op"] == "++":
        if not n.get("post"):
            return "the list of bits does not start with bit 0"
        return None
    return "?"


def refuses(X, num, size):
    for (a, tgt, c) in fatal(X.G):
        for fct in atoms(X.G.term(c[1], c[2]), c[3]):
            if fct[0] == "le" and fct[2] == num and fct[1] == size:
                return fct[3] >= -1
    return False


def fatal(G):
    out = []
    for e in G.ev:
        if e.id in G.live and reaches_exit(G, e.id):
            for t, c in e.succ:
                if c and c[0] == "if" and not reaches_exit(G, t):
                    out.append((e, t, c))
    return out


def subterm_name(t, names):
    if isinstance(t, tuple):
        if t and t[0] in ("call", "m") and isinstance(t[1], str) and strip_tmpl(t[1]).split("::")[-1] in names:
            return True
        return any(subterm_name(x, names) for x in t if isinstance(x, tuple))
    return False


# ------------------------------------------------------------------------------------------------ distances
def distance(R, prog, fs):
    for f in fs:
        if f.short == "GetNumBitsDifferent" and len(f.params) == 2:
            X = Fn(R, prog, f)
            G = X.G
            p = [("param", i, q["n"]) for i, q in enumerate(f.params)]
            hit = False
            for e in X.ev("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                t = G.term(e.frame, e.nid)
                s = strip_tmpl(e.node.get("fn", "")).split("::")[-1]
                if s not in ("operator()", "evaluate") or "Hamming" not in e.node.get("fn", ""):
                    continue
                a = [x for x in hargs(t)]
                if len(a) < 3:
                    continue
                hit = True
                R.count("distances decided")
                d = [data_of(x) for x in a[:2]]
                if set(d) != set(p):
                    X.bad("distance", e, "the distance is taken between the bytes of %s and %s" % tuple(show(x) for x in a[:2]))
                S = X.F.IN.get(e.id)
                sz = [(("fld", x, "size_bytes_"), ("m", "size", x)) for x in p]
                if not any(X.F.entails_eq(S, y, z) for y in sz[0] for z in sz[1]):
                    X.bad("distance", e, "descriptors of different sizes are not refused")
                if not any(X.F.entails_eq(S, a[2], y) for y in sz[0] + sz[1]):
                    X.bad("distance", e, "the distance is taken over %s bytes, not all" % show(a[2]))
            if not hit:
                R.note("%s: the distance is not recognised" % f.qual)
        if f.short == "getIndexOfDescriptorClosestToMedian":
            closest(R, prog, f)


def hargs(t):
    return [x for x in (t[2:] if t[0] == "call" else t[3:]) if isinstance(x, tuple) and not (x and x[0] in ("at", "ctor") or
            (x and x[0] == "var" and "amming" in str(x[-1])))]


def data_of(t):
    if t[0] == "fld" and t[2] == "data_":
        return t[1]
    if t[0] == "m" and t[1] == "data":
        return t[2]
    return t


def closest(R, prog, f):
    """the matrix of distances is complete and symmetric, and the column with the smallest sum is the result"""
    X = Fn(R, prog, f)
    G = X.G
    M = ("param", 0, f.params[0]["n"])
    st, sums = [], []
    for e in X.ev("BinaryOperator", "CXXOperatorCallExpr"):
        if e.node.get("op") == "=" and len(e.node["c"]) >= 2:
            l = G.term(e.frame, e.node["c"][-2])
            if l[0] == "idx" and len(l) == 4:
                st.append((e, l, G.term(e.frame, e.node["c"][-1])))
    calls = list(X.calls("GetNumBitsDifferent"))
    if not st or not calls:
        R.note("%s: the distances are not recognised" % f.qual)
        return
    R.count("distance matrices decided")
    ncols = ("m", "cols", M)
    # descriptor i is column i of the matrix
    for e in X.ev("CXXMemberCallExpr"):
        if e.node.get("fn", "").split("::")[-1] in ("emplace_back", "push_back"):
            t = G.term(e.frame, e.nid)
            L = X.innermost(e)
            if L is None or t[2][0] != "var":
                continue
            flat = [x for x in walk(t) if x[0] == "idx" and x[1] == M]
            col = [x for x in walk(t) if x[0] == "m" and x[1] == "col" and x[2] == M]
            ok = [x for x in flat if len(x) == 4 and x[2] == ("int", 0) and x[3] == L.v] or [x for x in col if x[3] == L.v]
            if (flat or col) and not ok:
                X.bad("closest", e, "descriptor %s of the list is not column %s of the matrix" % (show(L.v), show(L.v)))
            m = X.upto(L, e, ncols)
            if m and m != "?":
                X.bad("closest", e, "the loop over the descriptors %s" % m)
            if not any(X.F.entails_eq(X.F.IN.get(e.id), x, ("m", "rows", M)) for x in t[3:] if x[0] in ("m", "var", "bin", "int", "size")):
                if not any(x[0] == "ctor" for x in t[3:]):
                    X.bad("closest", e, "a descriptor of the list does not have all rows of the matrix")
    pairs = set()
    for e, l, v in st:
        i, j = l[2], l[3]
        src = [t for c, s, t in calls if v == t or subterm(v, t)]
        if not src and v[0] == "var":
            src = [t for c, s, t in calls]
        if not src:
            R.note("%s: a stored distance is not recognised" % f.qual)
            continue
        t = src[0]
        got = {index_of(x) for x in t[2:4]}
        if got != {i, j}:
            X.bad("closest", e, "the distance of descriptors %s is stored for the pair %s" %
                  (" and ".join(sorted(show(x) if x else "?" for x in got)), ", ".join(show(x) for x in (i, j))))
        La, Lb = X.loop_of(e, i), X.loop_of(e, j)
        if La is None or Lb is None:
            R.note("%s: a loop over the pairs is not recognised" % f.qual)
            return
        inner, outer = (La, Lb) if len(La.events(G)) < len(Lb.events(G)) else (Lb, La)
        m = X.upto(outer, e, ncols)
        if m and m != "?":
            b = ("bin", "-", ncols, ("int", 1))
            if m.startswith("ends") and X.F.entails_eq(X.F.IN.get(min(outer.heads)), outer.bound if outer.add == 0 else
                                                       ("bin", "-", outer.bound, ("int", -outer.add)) if outer.add < 0 else outer.bound, b) and \
                    inner.init != ("int", 0):
                m = None
        if m and m != "?":
            X.bad("closest", e, "the outer loop over the pairs %s" % m)
        start = inner.init
        full = start == ("int", 0)
        half = start in (("bin", "+", outer.v, ("int", 1)), outer.v)
        if not full and not half:
            X.bad("closest", e, "the inner loop over the pairs starts at %s: pairs are left out" % show(start))
        sv = inner.init
        inner.init = ("int", 0)
        m = X.upto(inner, e, ncols)
        inner.init = sv
        if m and m != "?":
            X.bad("closest", e, "the inner loop over the pairs %s" % m)
        if not every_round(G, outer, inner.heads) or not every_round(G, inner, {e.id}):
            if not (half or full) or leaves_early(G, inner) is not None:
                X.bad("closest", e, "pairs of descriptors are skipped")
            elif not conditional_diag(X, inner, e, i, j):
                X.bad("closest", e, "pairs of descriptors are skipped")
        pairs.add((l[1], i, j))
        if half and (l[1], j, i) not in {(x[1][1], x[1][2], x[1][3]) for x in st}:
            X.bad("closest", e, "the distance of a pair is stored for one of the two descriptors only")
    mins = [(e, t) for e in X.ev("CXXMemberCallExpr") for t in (G.term(e.frame, e.nid),)
            if t[0] == "m" and t[1] in ("minCoeff", "maxCoeff")]
    for e, t in mins:
        if t[1] == "maxCoeff":
            X.bad("closest", e, "the descriptor farthest from the others is chosen")
        src = t[2]
        agg = [x for x in walk(src) if x[0] == "m" and x[1] in ("sum", "minCoeff", "maxCoeff", "mean", "norm", "squaredNorm")]
        if agg and agg[0][1] not in ("sum", "mean"):
            X.bad("closest", e, "not the accumulated distance decides")
        outs = [x for x in t[3:] if x[0] == "addr"]
        if outs:
            v = outs[0][1]
            for x in X.ev("BinaryOperator"):
                if x.node.get("op") == "=" and G.term(x.frame, x.node["c"][0]) == ("deref", ("param", 1, f.params[1]["n"])):
                    r = G.term(x.frame, x.node["c"][1])
                    if not subterm(r, v):
                        X.bad("closest", x, "the result is %s, not the index of the smallest sum" % show(r))
                    elif r != v:
                        X.bad("closest", x, "the result is %s, not the index of the smallest sum" % show(r))


def conditional_diag(X, inner, e, i, j):
    """rounds that skip the store are those with i == j"""
    for a in inner.events(X.G):
        for t, c in X.G.ev[a].succ:
            if c and c[0] == "if":
                fs = atoms(X.G.term(c[1], c[2]), c[3])
                if any(g[0] == "ne" and {g[1], g[2]} == {i, j} and g[3] == 0 for g in fs):
                    return True
    return False


def walk(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def index_of(t):
    for x in walk(t):
        if x[0] == "idx" and len(x) == 3:
            return x[2]
        if x[0] == "m" and x[1] == "col" and len(x) >= 4:
            return x[3]
    return None


# ------------------------------------------------------------------------------------------------ deviations
def deviations(R, prog, fs):
    for f in fs:
        if f.kind != "function" or "Deviation" not in f.short and "Mean" not in f.short:
            continue
        X = Fn(R, prog, f)
        G = X.G
        for e in X.ev("BinaryOperator", "CompoundAssignOperator"):
            if e.node["op"] not in ("/", "/="):
                continue
            d = G.term(e.frame, e.node["c"][1])
            if d[0] != "m" or d[1] != "cols":
                if not (d[0] == "bin" and any(x[0] == "m" and x[1] == "cols" for x in walk(d)) and
                        e.node.get("t", "").replace("const ", "") in ("double", "float")):
                    continue
                X.bad("deviation", e, "the sum is divided by %s, not by the number of descriptors" % show(d))
                continue
            S = X.F.IN.get(e.id)
            R.count("divisions decided")
            if S is not None and not X.F.entails_ge(S, d, ("int", 1)):
                X.bad("deviation", e, "the number of descriptors that divides may be zero")
            ty = e.node.get("t", "").replace("const ", "")
            if ty not in ("double", "float", "long double"):
                X.bad("deviation", e, "the mean is computed with integer division")
            if e.node["op"] == "/=" and X.innermost(e) is not None:
                X.bad("deviation", e, "the sum is divided in every round of a loop")
            if e.node["op"] == "/":
                n = G.term(e.frame, e.node["c"][0])
                Lx = X.innermost(e)
                if n[0] == "idx" and Lx is not None:
                    m = X.upto(Lx, e, ("size", n[1]))
                    if m and m != "?":
                        m2 = X.upto(Lx, e, times8(("m", "rows", d[2])))
                        if m2:
                            X.bad("all", e, "the loop over the means %s" % m)
                    # stored at the bit's own place
                    for p in e.frame.fn.parents.get(e.nid, []):
                        pn = e.frame.fn.nodes[p]
                        if pn.get("op") == "=" and pn["k"] in ("BinaryOperator", "CXXOperatorCallExpr"):
                            l = G.term(e.frame, pn["c"][-2])
                            if l[0] == "idx" and l[2] != n[2]:
                                X.bad("count", e, "the mean of bit %s is stored at %s" % (show(n[2]), show(l[2])))
        # sums over all descriptors
        for e in X.ev("CompoundAssignOperator"):
            if e.node["op"] not in ("+=",):
                continue
            l, v = G.term(e.frame, e.node["c"][0]), G.term(e.frame, e.node["c"][1])
            cols = [x for x in walk(v) if x[0] == "m" and x[1] == "col" and len(x) >= 4]
            if l[0] != "var" or not cols:
                continue
            R.count("sums over descriptors decided")
            i = cols[0][3]
            L = X.loop_of(e, i) if i[0] == "var" else None
            if L is None:
                X.bad("all", e, "only one of the descriptors is used") if i[0] == "int" else R.note(
                    "%s: the loop over the descriptors is not recognised" % f.qual)
                continue
            m = X.upto(L, e, ("m", "cols", cols[0][2]))
            if m and m != "?":
                X.bad("all", e, "the loop over the descriptors %s" % m)
            if not every_round(G, L, {e.id}):
                X.bad("all", e, "descriptors are skipped")
            if leaves_early(G, L) is not None:
                X.bad("all", leaves_early(G, L), "the loop over the descriptors is left before all were visited")
            a = [x for x in walk(v) if x[0] in ("call", "m") and ("Hamming" in str(x[1]) or x[1] in ("operator()", "evaluate"))]
            for h in a[:1]:
                z = hargs(h)
                if len(z) >= 3:
                    S = X.F.IN.get(e.id)
                    others = {data_of(q) for q in z[:-1]}
                    if z[-1][0] in ("m", "size", "fld") and any(z[-1][k] in others for k in (1, 2) if k < len(z[-1])):
                        R.note("%s: the number of bytes of the distance is not decided" % f.qual)
                    elif not X.F.entails_eq(S, z[-1], ("m", "rows", cols[0][2])):
                        X.bad("distance", e, "the distance is taken over %s bytes, not all" % show(z[-1]))


# ------------------------------------------------------------------------------------------------ clearing and filling
def filling(R, prog, fs):
    for f in fs:
        if f.short in ("SetZero", "SetRandom") and f.kind == "method":
            X = Fn(R, prog, f)
            G = X.G
            data, size = ("fld", ("this",), "data_"), ("fld", ("this",), "size_bytes_")
            hit = False
            for e in X.ev("CallExpr"):
                t = G.term(e.frame, e.nid)
                s = strip_tmpl(e.node.get("fn", "")).split("::")[-1]
                if s == "memset" and len(t) >= 5:
                    hit = True
                    if t[2] != data or t[4] != size:
                        X.bad("fill", e, "%s does not write all bytes" % f.short)
                    if f.short == "SetZero" and t[3] != ("int", 0):
                        X.bad("fill", e, "SetZero writes %s" % show(t[3]))
                elif s in ("fill_n", "fill", "generate", "generate_n") and len(t) >= 4:
                    hit = True
                    if t[2] != data or t[3] not in (size, ("bin", "+", data, size)):
                        X.bad("fill", e, "%s does not write all bytes" % f.short)
            for e in X.ev("BinaryOperator"):
                if e.node["op"] == "=":
                    l = G.term(e.frame, e.node["c"][0])
                    if l[0] == "idx" and l[1] == data:
                        hit = True
                        L = X.loop_of(e, l[2]) if l[2][0] == "var" else None
                        if L is None:
                            R.note("%s: the loop over the bytes is not recognised" % f.qual)
                            continue
                        m = X.upto(L, e, size)
                        if m and m != "?":
                            X.bad("fill", e, "the loop over the bytes %s" % m)
            R.count("fills decided", 1 if hit else 0)
            if not hit:
                R.note("%s: not recognised" % f.qual)


def P15(R):
    R.rule("bit", "outcome of GetBit / SetBit / FlipBit as a function of bit, size and byte: bit i is bit i % 8 of byte i / 8; a bit "
           "beyond the size is refused, one within is not")
    R.rule("equal", "outcomes of operator==: true needs equal sizes and a comparison of all bytes of both that found no difference")
    R.rule("all", "loops over bits, descriptors and pairs run over all of them, from 0, by one, to the number of bits / descriptors, "
           "without leaving early or skipping")
    R.rule("count", "a set bit raises its own counter (or becomes 1 at its own place), a bit that is not set does not")
    R.rule("bound", "the counter that is raised lies inside the array of counters: descriptors of other sizes are refused first")
    R.rule("majority", "the bit of a mean is set exactly when more than half of the descriptors have it; the result is cleared before")
    R.rule("distinct", "random flips take different bits, from a shuffled list of all bits; exactly more than everything is refused")
    R.rule("distance", "distances are taken over all bytes of both descriptors, whose sizes are compared")
    R.rule("lanes", "abstract execution of the vector code on symbolic bits: every bit of the difference is counted once, no 8-bit "
           "counter can overflow, words and rest bytes together are all bytes")
    R.rule("closest", "the distance matrix holds every pair in both places; the smallest sum's index is the result")
    R.rule("deviation", "divisors are the number of descriptors, not zero, and not integer division")
    R.rule("fill", "SetZero and SetRandom write every byte and nothing else")
    prog = programs.common("common_headers.cc")
    fs = ours(prog)
    bits(R, prog, fs)
    equality(R, prog, fs)
    tallies(R, prog, fs)
    majority(R, prog, fs)
    flips(R, prog, fs)
    distance(R, prog, fs)
    lanes.hamming(R, prog, fs, Fn)
    deviations(R, prog, fs)
    filling(R, prog, fs)
    R.count("functions", len(fs))
    R.atleast("functions", 20)


CHECKS = {"P15": P15}
