"""Abstract execution of SSE code that counts bits: values are vectors of symbolic bits, or lanes of sums of symbolic bits."""
from collections import Counter
from ..graph import *
from ..facts import atoms
from ..ir import strip_tmpl


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


class Bitv:
    """128 entries: 0, 1, or a hashable symbol; exclusive or of two symbols is ('^', frozenset)"""
    def __init__(self, b):
        self.b = b


class Lanes:
    """sums of symbolic bits per lane of `width` bits: (Counter of atoms, constant); cap: largest value, None if unbounded"""
    def __init__(self, width, lanes, caps):
        self.w, self.l, self.cap = width, lanes, caps

    def zero(self):
        return all(not c and k == 0 for c, k in self.l)


def zero_bits():
    return Bitv([0] * 128)


def const_bytes(bs):
    return Bitv([(x >> k) & 1 for x in bs for k in range(8)])


def as_lanes(v, w):
    if isinstance(v, Lanes):
        if v.w == w:
            return v
        if v.zero():
            return Lanes(w, [(Counter(), 0)] * (128 // w), [0] * (128 // w))
        if v.w == 64 and w == 32:
            # values below 2^32
            out, caps = [], []
            for (c, k), cap in zip(v.l, v.cap):
                out += [(c, k), (Counter(), 0)]
                caps += [cap, 0]
            return Lanes(32, out, caps)
        if v.w == 32 and w == 64 and all(not c and not k for c, k in v.l[1::2]):
            return Lanes(64, v.l[0::2], v.cap[0::2])
        raise Unknown
    if isinstance(v, Bitv) and all(x in (0, 1) for x in v.b):
        n = 128 // w
        vals = [sum(v.b[i * w + k] << k for k in range(w)) for i in range(n)]
        return Lanes(w, [(Counter(), x) for x in vals], vals)
    if isinstance(v, Bitv):
        n = 128 // w
        out, caps = [], []
        for i in range(n):
            c, k = Counter(), 0
            for b in range(w):
                x = v.b[i * w + b]
                if x == 1:
                    k += 1 << b
                elif x != 0:
                    c[x] += 1 << b
            out.append((c, k))
            caps.append(k + sum(c.values()))
        return Lanes(w, out, caps)
    raise Unknown


def addc(a, b):
    c = Counter(a)
    for k, v in b.items():
        c[k] += v
    return c


class Machine:
    """evaluates expressions of one function; env: variable -> value; ptr: pointer variable -> [stream, words read]"""
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.env, self.ptr = {}, {}
        self.acc = set()

    def int_of(self, fn, nid, env):
        n = fn.nodes[nid]
        if "cv" in n:
            return int(n["cv"])
        if n["k"] == "IntegerLiteral":
            return int(n["v"])
        if len(n["c"]) == 1:
            return self.int_of(fn, n["c"][0], env)
        raise Unknown

    def pointer(self, fn, nid, env):
        """('glob', name) or (stream, offset)"""
        n = fn.nodes[nid]
        k, c = n["k"], n["c"]
        if k == "DeclRefExpr":
            d = n.get("d")
            if n.get("dk") in ("local", "param"):
                if d in env and isinstance(env[d], tuple):
                    return env[d]
                raise Unknown
            return ("glob", n.get("q") or n["n"])
        if k == "UnaryOperator" and n["op"] == "++":
            d = self.decl(fn, c[0])
            p = env.get(d)
            if not isinstance(p, tuple) or p[0] == "glob":
                raise Unknown
            env[d] = (p[0], p[1] + 1)
            return p if n.get("post") else env[d]
        if k == "BinaryOperator" and n["op"] == "+":
            a, b = c
            for x, y in ((a, b), (b, a)):
                try:
                    p = self.pointer(fn, x, env)
                    return (p[0], p[1] + self.offset(fn, y, env))
                except Unknown:
                    continue
            raise Unknown
        if k == "UnaryOperator" and n["op"] == "&" and fn.nodes[c[0]]["k"] == "ArraySubscriptExpr":
            s = fn.nodes[c[0]]["c"]
            p = self.pointer(fn, s[0], env)
            if p[0] == "glob":
                return p
            return (p[0], p[1] + self.offset(fn, s[1], env))
        if len(c) == 1:
            return self.pointer(fn, c[0], env)
        raise Unknown

    def offset(self, fn, nid, env):
        try:
            return self.int_of(fn, nid, env)
        except Unknown:
            d = self.decl(fn, nid)
            if d in env and isinstance(env[d], int):
                return env[d]
            raise

    @staticmethod
    def decl(fn, nid):
        n = fn.nodes[nid]
        while n["k"] != "DeclRefExpr" and len(n["c"]) == 1:
            n = fn.nodes[n["c"][0]]
        if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "param"):
            return n["d"]
        raise Unknown

    def load(self, p):
        if p[0] == "glob":
            g = self.prog.globals.get(p[1])
            if g is None or "vals" not in g or len(g["vals"]) < 16:
                raise Unknown
            return const_bytes([x & 0xff for x in g["vals"][:16]])
        return Bitv([("in", p[0], p[1], i) for i in range(128)])

    def ev(self, fn, nid, env):
        n = fn.nodes[nid]
        k, c = n["k"], n["c"]
        if k == "DeclRefExpr":
            if n.get("dk") in ("local", "param"):
                v = env.get(n["d"])
                if isinstance(v, (Bitv, Lanes)):
                    return v
            raise Unknown
        if k == "CallExpr":
            return self.call(fn, n, c[1:], env)
        if k == "BinaryOperator" and n["op"] == "=":
            v = self.ev(fn, c[1], env)
            env[self.decl(fn, c[0])] = v
            return v
        if k in ("UnaryOperator",) and n["op"] == "*" or k == "ArraySubscriptExpr":
            if k == "ArraySubscriptExpr":
                p = self.pointer(fn, c[0], env)
                return self.load((p[0], p[1] + self.offset(fn, c[1], env)) if p[0] != "glob" else p)
            return self.load(self.pointer(fn, c[0], env))
        if len(c) == 1:
            return self.ev(fn, c[0], env)
        raise Unknown

    def call(self, fn, n, args, env):
        s = strip_tmpl(n.get("fn", "")).split("::")[-1]
        f2 = self.prog.fns.get(n.get("fk"))
        if f2 is not None and f2.blocks:
            r = f2.simple_return()
            e2 = {}
            for p, a in zip(f2.params, args):
                try:
                    e2[p["d"]] = self.ev(fn, a, env)
                except Unknown:
                    e2[p["d"]] = self.pointer(fn, a, env)
            if r is not None:
                return self.ev(f2, r, e2)
            # straight-line helper
            return self.straight(f2, e2)
        if s in ("_mm_loadu_si128", "_mm_load_si128", "_mm_lddqu_si128"):
            q = self.pointer(fn, args[0], env)
            if s == "_mm_load_si128" and q[0] != "glob":
                raise Wrong("the words are read as if they were aligned to 16 bytes")
            return self.load(q)
        if s == "_mm_setzero_si128":
            return zero_bits()
        if s == "_mm_set1_epi8":
            return const_bytes([self.int_of(fn, args[0], env) & 0xff] * 16)
        if s == "_mm_set_epi32":
            xs = [self.int_of(fn, a, env) & 0xffffffff for a in args][::-1]
            return Bitv([(x >> k) & 1 for x in xs for k in range(32)])
        if s in ("_mm_set_epi8", "_mm_setr_epi8"):
            xs = [self.int_of(fn, a, env) & 0xff for a in args]
            return const_bytes(xs[::-1] if s == "_mm_set_epi8" else xs)
        if s == "_mm_cvtsi32_si128":
            x = self.int_of(fn, args[0], env) & 0xffffffff
            return Bitv([(x >> k) & 1 for k in range(32)] + [0] * 96)
        if s in ("_mm_srli_epi16", "_mm_slli_epi16", "__builtin_ia32_psrlwi128", "__builtin_ia32_psllwi128"):
            return self.shift(self.ev(fn, args[0], env), self.int_of(fn, args[1], env), 16, "sl" not in s.replace("_epi", "").replace("psl", "xsl") and "srl" in s)
        if s in ("_mm_srl_epi16", "_mm_sll_epi16"):
            cnt = self.ev(fn, args[1], env)
            if not isinstance(cnt, Bitv) or any(x not in (0, 1) for x in cnt.b[:64]):
                raise Unknown
            k = sum(x << i for i, x in enumerate(cnt.b[:64]))
            return self.shift(self.ev(fn, args[0], env), k, 16, "srl" in s)
        if s in ("_mm_srli_epi32", "_mm_srli_epi64"):
            return self.shift(self.ev(fn, args[0], env), self.int_of(fn, args[1], env), int(s[-2:]), True)
        if s in ("_mm_srli_si128", "__builtin_ia32_psrldqi128_byteshift", "_mm_bsrli_si128", "__builtin_ia32_psrldqi128"):
            k = self.int_of(fn, args[1], env)
            v = self.ev(fn, args[0], env)
            if isinstance(v, Bitv):
                return Bitv(v.b[8 * k:] + [0] * min(8 * k, 128))
            if 8 * k % v.w:
                raise Unknown
            m = 8 * k // v.w
            return Lanes(v.w, v.l[m:] + [(Counter(), 0)] * m, v.cap[m:] + [0] * m)
        if s == "_mm_cvtsi128_si32":
            v = as_lanes(self.ev(fn, args[0], env), 32)
            return Lanes(32, v.l[:1] + [(Counter(), 0)] * 3, v.cap[:1] + [0] * 3)
        if s == "_mm_cvtsi128_si64":
            v = as_lanes(self.ev(fn, args[0], env), 64)
            return Lanes(64, v.l[:1] + [(Counter(), 0)], v.cap[:1] + [0])
        a = [self.ev(fn, x, env) for x in args]
        if s in ("_mm_xor_si128", "_mm_and_si128", "_mm_or_si128", "_mm_andnot_si128"):
            return self.logic(s, *a)
        if s == "_mm_shuffle_epi8":
            return self.shuffle(*a)
        if s in ("_mm_add_epi8", "_mm_adds_epu8", "_mm_add_epi16", "_mm_add_epi32", "_mm_add_epi64"):
            w = {"epi8": 8, "epu8": 8, "epi16": 16, "epi32": 32, "epi64": 64}[s.split("_")[-1]]
            return self.add(w, *a)
        if s == "_mm_sad_epu8":
            x, y = a
            z = as_lanes(y, 8)
            if not z.zero():
                x, z = y, as_lanes(x, 8)
            if not z.zero():
                raise Unknown
            x = as_lanes(x, 8)
            out, caps = [], []
            for h in range(2):
                c, k, cap = Counter(), 0, 0
                for i in range(8):
                    c = addc(c, x.l[8 * h + i][0])
                    k += x.l[8 * h + i][1]
                    cap = None if cap is None or x.cap[8 * h + i] is None else cap + x.cap[8 * h + i]
                out.append((c, k))
                caps.append(cap)
            return Lanes(64, out, caps)
        raise Unknown

    def straight(self, f, env):
        b = f.entry
        seen = 0
        while b is not None and seen < 20:
            seen += 1
            blk = f.bmap[b]
            if len([x for x in blk["succ"] if x is not None and (x if not isinstance(x, dict) else x.get("b")) is not None]) > 1:
                raise Unknown
            for el in blk["el"]:
                if isinstance(el, int):
                    n = f.nodes[el]
                    if n["k"] == "ReturnStmt":
                        return self.ev(f, n["c"][0], env)
                    self.stmt(f, el, env)
            s = [x for x in blk["succ"] if x is not None]
            b = s[0] if s else None
            if isinstance(b, dict):
                b = b.get("b")
        raise Unknown

    def stmt(self, fn, nid, env):
        """a full statement"""
        n = fn.nodes[nid]
        if n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d.get("init") is None:
                    continue
                try:
                    env[d["d"]] = self.ev(fn, d["init"], env)
                except Unknown:
                    try:
                        env[d["d"]] = self.pointer(fn, d["init"], env)
                    except Unknown:
                        try:
                            env[d["d"]] = self.int_of(fn, d["init"], env)
                        except Unknown:
                            env.pop(d["d"], None)
        elif n["k"] == "BinaryOperator" and n["op"] == "=" and is_vec(fn.nodes[n["c"][0]].get("t", "")):
            try:
                self.ev(fn, nid, env)
            except Unknown:
                try:
                    env.pop(self.decl(fn, n["c"][0]), None)
                except Unknown:
                    pass
        elif n["k"] == "UnaryOperator" and n["op"] in ("++",) and not fn.parents.get(nid):
            d = self.decl(fn, n["c"][0])
            p = env.get(d)
            if isinstance(p, tuple) and p[0] != "glob":
                env[d] = (p[0], p[1] + 1)
            elif isinstance(p, int):
                env[d] = p + 1

    def logic(self, s, a, b):
        if isinstance(a, Lanes) and a.zero():
            a = zero_bits()
        if isinstance(b, Lanes) and b.zero():
            b = zero_bits()
        if not (isinstance(a, Bitv) and isinstance(b, Bitv)):
            raise Unknown
        out = []
        for x, y in zip(a.b, b.b):
            if s == "_mm_andnot_si128":
                x = 1 - x if x in (0, 1) else ("!", x)
            if "xor" in s:
                if x == y:
                    out.append(0)
                elif x == 0 or y == 0:
                    out.append(y if x == 0 else x)
                elif x in (0, 1) or y in (0, 1):
                    out.append(("!", x if y == 1 else y))
                else:
                    out.append(("^", frozenset((x, y))))
            elif "or" in s:
                if 1 in (x, y):
                    out.append(1)
                elif x == 0 or x == y:
                    out.append(y)
                elif y == 0:
                    out.append(x)
                else:
                    out.append(("|", frozenset((x, y))))
            else:
                if 0 in (x, y):
                    out.append(0)
                elif x == 1 or x == y:
                    out.append(y)
                elif y == 1:
                    out.append(x)
                else:
                    out.append(("&", frozenset((x, y))))
        return Bitv(out)

    def shift(self, v, k, w, right):
        if not isinstance(v, Bitv):
            raise Unknown
        out = []
        for i in range(0, 128, w):
            x = v.b[i:i + w]
            k2 = min(k, w)
            out += x[k2:] + [0] * k2 if right else [0] * k2 + x[:w - k2]
        return Bitv(out)

    def shuffle(self, table, idx):
        if not (isinstance(table, Bitv) and isinstance(idx, Bitv)):
            raise Unknown
        if any(x not in (0, 1) for x in table.b):
            raise Unknown
        T = [sum(table.b[8 * i + k] << k for k in range(8)) for i in range(16)]
        w = [T[1 << k] - T[0] for k in range(4)]
        for i in range(16):
            if T[i] != T[0] + sum(w[k] for k in range(4) if i >> k & 1):
                raise Wrong("the table of bit counts has the wrong entry %d for %d" % (T[i], i))
        out, caps = [], []
        for i in range(16):
            b = idx.b[8 * i:8 * i + 8]
            if b[7] == 1:
                out.append((Counter(), 0))
                caps.append(0)
                continue
            if b[7] != 0:
                raise Wrong("the table of bit counts is looked up with more than four bits")
            c, k = Counter(), T[0]
            for j in range(4):
                if b[j] == 1:
                    k += w[j]
                elif b[j] != 0:
                    c[b[j]] += w[j]
            out.append((c, k))
            caps.append(k + sum(c.values()))
        return Lanes(8, out, caps)

    def add(self, w, a, b):
        a, b = as_lanes(a, w), as_lanes(b, w)
        out, caps = [], []
        for (c1, k1), (c2, k2), p, q in zip(a.l, b.l, a.cap, b.cap):
            out.append((addc(c1, c2), k1 + k2))
            caps.append(None if p is None or q is None else p + q)
            if caps[-1] is not None and caps[-1] >= 1 << w:
                raise Wrong("a counter of %d bits can overflow" % w)
        return Lanes(w, out, caps)


def is_vec(t):
    return "__m128i" in t or "vector_size" in t or "__attribute__" in t


def hamming(R, prog, fs, Fn):
    for f in fs:
        if "Hamming" not in f.qual:
            continue
        if f.short == "SSSE3PopcntofXORed":
            vector(R, prog, f, Fn)
        elif f.short == "PopcntofXORed":
            forwards(R, prog, f)
        elif f.short == "operator()":
            forwards(R, prog, f, ("evaluate",))
        elif f.short == "evaluate":
            evaluate(R, prog, f, Fn)


def forwards(R, prog, f, names=("SSSE3PopcntofXORed", "PopcntofXORed")):
    G = Graph(prog, f, depth=0)
    ps = [("param", i, p["n"]) for i, p in enumerate(f.params)]
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.node["k"] in ("CallExpr", "CXXMemberCallExpr"):
            s = strip_tmpl(e.node.get("fn", "")).split("::")[-1]
            if s in names:
                t = G.term(e.frame, e.nid)
                a = [x for x in (t[2:] if t[0] == "call" else t[3:]) if x[0] != "at"]
                R.count("forwarded distances decided")
                if len(a) == 3 and (set(a[:2]) != set(ps[:2]) or a[2] != ps[2]) and all(x[0] in ("param", "int", "bin") for x in a):
                    R.violation("lanes", f.qual, "forward", e.where(),
                                "the distance of %s over %s is taken instead of that of all the arguments" %
                                (" and ".join(show(x) for x in a[:2]), show(a[2])))


def evaluate(R, prog, f, Fn):
    """16-byte words and the bytes behind them are all bytes"""
    from .descriptors import evalterm, NotKnown, walk
    from ..loops import every_round, leaves_early
    X = Fn(R, prog, f)
    G = X.G
    ps = [("param", i, p["n"]) for i, p in enumerate(f.params)]
    if len(ps) != 3:
        R.note("%s: not recognised" % f.qual)
        return
    a, b, size = ps
    calls = []
    for e in X.ev("CallExpr"):
        s = strip_tmpl(e.node.get("fn", "")).split("::")[-1]
        if s in ("PopcntofXORed", "SSSE3PopcntofXORed"):
            t = G.term(e.frame, e.nid)
            if not any(p for p in calls if p[1] == t) and e.frame is G.root:
                calls.append((e, t))
    tails = []
    for e in X.ev("CallExpr"):
        s = e.node.get("fn", "").split("::")[-1]
        if s.startswith("__builtin_popcount"):
            tails.append((e, G.term(e.frame, e.nid)))

    def bad(e, m):
        R.violation("lanes", f.qual, m, e.where(), m)
    for e, t in tails:
        L = X.innermost(e)
        if L is None:
            R.note("%s: the bytes behind the words are not decided" % f.qual)
            return
        x = t[2]
        if x[0] == "bin" and len(x) == 4:
            ok = x[1] == "^" and {x[2], x[3]} == {("idx", a, L.v), ("idx", b, L.v)}
            if not ok and all(y[0] == "idx" for y in x[2:4]):
                bad(e, "the bits counted in the last bytes are those of %s" % show(x))
        if not every_round(G, L, {e.id}) or leaves_early(G, L) is not None:
            bad(e, "bytes behind the last word are skipped")
        # what becomes of the count
        added = False
        for p in parents(e.frame.fn, e.nid):
            n = e.frame.fn.nodes[p]
            if n.get("op") in ("+=", "=", "-=") and n["k"] in ("CompoundAssignOperator", "BinaryOperator"):
                if n["op"] == "+=" or n["op"] == "=" and any(
                        y == G.term(e.frame, n["c"][0]) for y in walk(G.term(e.frame, n["c"][1]))):
                    added = True
                else:
                    bad(e, "the bits of the last bytes are not added to the distance")
                    added = True
        if not added:
            R.note("%s: what becomes of the last bytes' bits is not decided" % f.qual)
    if not calls and not tails:
        R.note("%s: not recognised" % f.qual)
        return
    if len(calls) > 1 or len(tails) > 1:
        R.note("%s: more than one part; not decided" % f.qual)
        return
    R.count("distances decided")
    for n in list(range(0, 70)) + [255, 256, 4096]:
        def env(t):
            return n if t == size else None
        try:
            done = 0
            if calls:
                e, t = calls[0]
                if {t[2], t[3]} != {a, b}:
                    bad(e, "the distance is taken between %s and %s" % (show(t[2]), show(t[3])))
                    return
                done = 16 * evalterm(t[4], env)
                if done > n:
                    bad(e, "%d bytes are read of a descriptor of %d bytes" % (done, n))
                    return
            if tails:
                e, t = tails[0]
                L = X.innermost(e)
                lo = evalterm(L.init, env)
                hi = evalterm(L.bound, env) + L.add
                if L.step != 1:
                    bad(e, "only every %d-th of the last bytes is counted" % L.step)
                    return
                if hi > n and hi > lo:
                    bad(e, "byte %d of a descriptor of %d bytes is read" % (hi - 1, n))
                    return
                if lo < done and hi > lo:
                    bad(e, "bytes from %d on are counted twice in a descriptor of %d bytes" % (lo, n))
                    return
                if lo > done and n > done or hi < n and n > done:
                    bad(e, "bytes of a descriptor of %d bytes are not counted" % n)
                    return
            elif done < n:
                bad(calls[0][0], "only %d of %d bytes are counted" % (done, n))
                return
        except NotKnown:
            R.note("%s: the ranges are not decided" % f.qual)
            return


def parents(fn, nid):
    seen, todo = [], [nid]
    while todo:
        x = todo.pop()
        for p in fn.parents.get(x, []):
            if p not in seen:
                seen.append(p)
                todo.append(p)
    return seen


def vector(R, prog, f, Fn):
    def bad(e, m):
        R.violation("lanes", f.qual, m, e.where() if hasattr(e, "where") else f.where(), m)
    try:
        r = vector_(R, prog, f, Fn, bad)
        if r:
            R.count("vector loops decided")
    except Unknown:
        R.note("%s: the vector code is not decided" % f.qual)
    except Wrong as w:
        bad(f, str(w))


def blocks_in_order(f, start, stop):
    """elements of the straight line of blocks from start to (not including) stop; None where it branches"""
    out, b, n = [], start, 0
    while b != stop:
        n += 1
        if n > 50:
            raise Unknown
        blk = f.bmap[b]
        out += [x for x in blk["el"] if isinstance(x, int)]
        s = succ(blk)
        if len(s) != 1:
            raise Unknown
        b = s[0]
    return out


def succ(blk):
    out = []
    for x in blk["succ"]:
        if isinstance(x, dict):
            x = x.get("b")
        if x is not None and x >= 0:
            out.append(x)
    return out


def vector_(R, prog, f, Fn, bad):
    # the loop: a block with two successors one of which leads back to it
    ids = [b["id"] for b in f.blocks]
    reach = {}
    for b in ids:
        seen, todo = set(), list(succ(f.bmap[b]))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += succ(f.bmap[x])
        reach[b] = seen
    heads = [b for b in ids if len(succ(f.bmap[b])) == 2 and b in reach[b]]
    if len(heads) != 1:
        if f.short and len(heads) > 1:
            raise Unknown
        raise Unknown
    h = heads[0]
    s = succ(f.bmap[h])
    body = next((x for x in s if h in reach[x] or x == h), None)
    after = next((x for x in s if x != body), None)
    if body is None or after is None or body == h:
        raise Unknown
    M = Machine(prog, f)
    ps = f.params
    p1, p2, cnt = [p["d"] for p in ps[:3]]
    env = {p1: ("1", 0), p2: ("2", 0)}
    # before the loop: everything that only the entry reaches; failing checks do not come back
    pre, b, n = [], f.entry, 0
    while b != h:
        n += 1
        if n > 200:
            raise Unknown
        blk = f.bmap[b]
        pre += [x for x in blk["el"] if isinstance(x, int)]
        ss = [x for x in succ(blk) if x == h or h in reach[x]]
        if len(ss) != 1:
            ss2 = [x for x in ss if not f.bmap[x].get("noret")]
            if len(ss2) != 1:
                raise Unknown
            ss = ss2
        b = ss[0]
    top = [x for x in pre if outermost(f, x, pre)]
    for x in top:
        M.stmt(f, x, env)
    # number of rounds
    G = Graph(prog, f, depth=0)
    X = Fn(R, prog, f)
    ends = None
    for e in G.ev:
        if e.id in G.live and e.frame is G.root:
            for t, c in e.succ:
                if c and c[0] == "if" and c[3] is True:
                    ct = G.term(c[1], c[2])
                    if ct[0] == "bin" and ct[1] in ("<", "!=", "<=", ">"):
                        ends = ends or (e, ct)
    e, ct = ends if ends else (None, None)
    P1, P2, N = [("param", i, p["n"]) for i, p in enumerate(ps[:3])]
    index = None
    if ct is None:
        raise Unknown
    op, x, y = ct[1], ct[2], ct[3]
    if op == ">":
        op, x, y = "<", y, x
    if x in (P1, P2):
        if y == ("bin", "+", x, N):
            if op == "<=":
                bad(e, "one word more than there is is read")
                return True
            if op not in ("<", "!="):
                raise Unknown
        elif any(z == N for z in iterwalk(y)):
            bad(e, "the loop over the words ends at %s" % show(y))
            return True
        else:
            raise Unknown
        lead = p1 if x == P1 else p2
    else:
        L = next((L for L in X.loops if L.v[0] == "var"), None)
        if L is None:
            raise Unknown
        if L.init != ("int", 0) or L.step != 1 or L.bound != N or L.add != 0:
            if L.bound == N:
                bad(e, "the loop over the words does not visit every word once")
                return True
            raise Unknown
        index = L.v[2]
        lead = None
    els = [z for z in blocks_in_order(f, body, h)]
    els = [z for z in els if outermost(f, z, els)]
    assigned = set()
    for z in f.nodes_in(els) if hasattr(f, "nodes_in") else all_nodes(f, els):
        n = f.nodes[z]
        if n["k"] == "BinaryOperator" and n["op"] == "=":
            try:
                assigned.add(Machine.decl(f, n["c"][0]))
            except Unknown:
                pass
    zero = {d for d in assigned if isinstance(env.get(d), (Bitv, Lanes)) and as_zero(env[d])}
    acc = {}
    for _ in range(6):
        E = {}
        for d, v in env.items():
            if d in assigned and d not in zero:
                if d in acc:
                    E[d] = acc[d]
                continue
            E[d] = v
        for d in zero:
            E[d] = zero_bits()
        if index is not None:
            E[index] = 0
        M.stmts = 0
        for z in els:
            M.stmt(f, z, E)
        changed = False
        for d in sorted(zero):
            v = E.get(d)
            if isinstance(v, (Bitv, Lanes)) and as_zero(v):
                continue
            zero.discard(d)
            # accumulates: lanes as wide as it is used
            w = v.w if isinstance(v, Lanes) else None
            if w:
                acc[d] = Lanes(w, [(Counter({("acc", d, i): 1}), 0) for i in range(128 // w)],
                               [None] * (128 // w))
            changed = True
        if not changed:
            break
    # pointers advance by one word together
    adv = {}
    for d in (p1, p2):
        adv[d] = E[d][1] if isinstance(E.get(d), tuple) else None
    used = {x[1] for x in inputs(E)}
    if index is None:
        if adv[p1] is None or adv[p2] is None:
            raise Unknown
        if adv[p1] != 1 or adv[p2] != 1:
            bad(f, "one round of the loop advances by %s and %s words" % (adv[p1], adv[p2]))
            return True
    elif not any(f.nodes[z]["k"] == "DeclRefExpr" and f.nodes[z].get("d") == index and
                 not any(f.nodes[p].get("op") in ("++", "+=") for p in f.parents.get(z, [])) for z in all_nodes(f, els)):
        if not adv[p1] and not adv[p2]:
            bad(f, "every round of the loop reads the same word")
            return True
        if adv[p1] != 1 or adv[p2] != 1:
            bad(f, "one round of the loop advances by %s and %s words" % (adv[p1], adv[p2]))
            return True
    elif adv[p1] or adv[p2]:
        bad(f, "the words are advanced twice in one round")
        return True
    grown = []
    for d, a0 in acc.items():
        v = E.get(d)
        if not isinstance(v, Lanes):
            if v is None:
                continue
            raise Unknown
        delta = Counter()
        const = 0
        own = True
        for i, (c, k) in enumerate(v.l):
            c = Counter(c)
            if c.get(("acc", d, i)) == 1:
                del c[("acc", d, i)]
            else:
                own = False
            if any(z[0] == "acc" for z in c):
                raise Unknown
            delta = addc(delta, c)
            const += k
        if not own:
            # does not carry the earlier rounds' counts
            continue
        if not delta and not const:
            continue
        if v.w <= 16:
            bad(f, "a counter of %d bits grows in every round and is not moved to a wider one" % v.w)
            return True
        grown.append((d, delta, const, v.w))
    if not grown:
        bad(f, "the counts of the earlier words are lost")
        return True
    want = {("^", frozenset((("in", "1", 0, i), ("in", "2", 0, i)))) for i in range(128)}
    if len(grown) > 1:
        raise Unknown
    d, delta, const, w = grown[0]
    missing = [x for x in want if delta.get(x, 0) == 0]
    twice = [x for x in delta if delta[x] > 1]
    extra = [x for x in delta if x not in want and delta[x]]
    if missing:
        bad(f, "%d bits of every 16 bytes are not counted" % len(missing))
        return True
    if twice:
        bad(f, "%d bits of every 16 bytes count more than once" % len(twice))
        return True
    if extra or const:
        bad(f, "something else than the differing bits is counted")
        return True
    # behind the loop
    E2 = dict(E)
    E2[d] = Lanes(w, acc[d].l, [0] * len(acc[d].l))
    rest, b, n = [], after, 0
    ret = None
    while ret is None:
        n += 1
        if n > 50:
            raise Unknown
        blk = f.bmap[b]
        for z in blk["el"]:
            if isinstance(z, int):
                rest.append(z)
                if f.nodes[z]["k"] == "ReturnStmt":
                    ret = z
        ss = succ(blk)
        if len(ss) != 1:
            break
        b = ss[0]
    if ret is None:
        raise Unknown
    rs = set(rest)
    for z in rest:
        n = f.nodes[z]
        if z == ret:
            break
        if outermost(f, z, rest):
            if n["k"] == "BinaryOperator" and n["op"] == "=":
                try:
                    E2[M.decl(f, n["c"][0])] = M.ev(f, n["c"][1], E2)
                except Unknown:
                    E2.pop(M.decl(f, n["c"][0]), None)
            elif n["k"] == "DeclStmt":
                M.stmt(f, z, E2)
    v = M.ev(f, f.nodes[ret]["c"][0], E2)
    got = v.l[0][0] if isinstance(v, Lanes) else None
    if got is None:
        raise Unknown
    lanes_ = [("acc", d, i) for i in range(128 // w)]
    if w == 32:
        lanes_ = lanes_[0::2] if all(not acc_odd(E[d], d, i) for i in (1, 3)) else lanes_
    if any(got.get(x, 0) != 1 for x in lanes_) or any(got[x] and x not in lanes_ and not (w == 32 and x[0] == "acc") for x in got):
        bad(f, "the result is not the sum of all counters")
    return True


def acc_odd(v, d, i):
    c, k = v.l[i]
    c = Counter(c)
    c.pop(("acc", d, i), None)
    return bool(c) or bool(k)


def iterwalk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from iterwalk(x)


def inputs(E):
    return []


def as_zero(v):
    return v.zero() if isinstance(v, Lanes) else all(x == 0 for x in v.b)


def outermost(f, x, els):
    """x is not part of another element"""
    s = set(els)
    return not any(p in s for p in parents(f, x))


def all_nodes(f, els):
    todo, seen = list(els), set()
    while todo:
        x = todo.pop()
        if x in seen or x is None or x < 0:
            continue
        seen.add(x)
        todo += f.nodes[x]["c"]
    return seen
