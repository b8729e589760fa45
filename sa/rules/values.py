"""Value classes: comparison, hashing, copying and text forms agree; orderings are strict weak orders."""
import itertools
from ..ir import short, strip_tmpl, VERIF
from ..absint import Interp, Limit, FLIP, UNK
from .. import programs

THIS, PAR = ("this",), ("param", 0)
RESULT = {"==": {"eq"}, "!=": {"lt", "gt"}, "<": {"lt"}, ">": {"gt"}, "<=": {"lt", "eq"}, ">=": {"gt", "eq"}}


def run(prog, fn, **kw):
    """outcomes of fn, or None when the interpreter gives up"""
    I = Interp(prog)
    try:
        return I, I.run(fn, **kw)
    except (Limit, RecursionError):
        return I, None


def leaves(v, out=None):
    """the atoms of a value"""
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] in ("w", "ptr", "ref", "fn", "static"):
            out.append(v)
            if v[0] == "w" and v[1][0][0] == "ret":
                leaves(v[1][0][2:], out)
            return out
        if v == UNK:
            out.append(v)
            return out
        if v[0] == "call":
            out.append(("callee", v[1]))
        for x in v[1:]:
            leaves(x, out)
        if v and not isinstance(v[0], str):
            leaves(v[0], out)
    return out


def nm(fn):
    """name without template arguments; operators keep their symbol"""
    return strip_tmpl(fn.name) if not fn.short.startswith("operator") else strip_tmpl(fn.rec or "") + "::" + fn.short


def where(fn):
    return "%s:%d" % (fn.file.split("/repo/")[-1], fn.line)


# ------------------------------------------------------------------------------------------------ identifiers
class Ids:
    def __init__(self, R, prog):
        self.R, self.prog = R, prog
        self.base = prog.record("aslam::HashId")
        R.need(self.base is not None, "class aslam::HashId")
        self.classes = sorted((r for r in prog.recs.values() if self.derives(r) and not r["file"].startswith(VERIF)),
                              key=lambda r: r["key"])
        self.words = self.discover()

    def derives(self, r, seen=()):
        if r["key"] == self.base["key"]:
            return True
        for b in r.get("bases", []):
            br = self.prog.recs.get(b) or self.prog.record(b)
            if br is not None and br["key"] not in seen and self.derives(br, seen + (r["key"],)):
                return True
        return False

    def methods(self, name, rec=None):
        out = []
        for r in ([rec] if rec else self.classes):
            out += [f for f in self.prog.methods_of(r["key"]) if f.short == name and f.blocks]
        return sorted(out, key=lambda f: f.key)

    def discover(self):
        """{word cell suffix: index of the source word}: what fromUint64 stores"""
        f = self.methods("fromUint64", self.base)
        self.R.need(len(f) == 1, "HashId::fromUint64")
        I, res = run(self.prog, f[0])
        self.R.need(res, "HashId::fromUint64 has one outcome")
        w = {}
        for p, _ in res:
            for c, v in p.mem.items():
                if c[0] == THIS:
                    v = I.word(p, c)
                    if v[0] == "w" and v[1][0] == PAR and len(v[1]) == 2:
                        w[c[1:]] = v[1][1]
                    else:
                        w[c[1:]] = None
        self.R.need(len(w) >= 1, "words of a HashId")
        if sorted(w.values(), key=repr) != [0, 1]:
            self.R.violation("transfer", f[0].qual, "words", where(f[0]), "does not store both words of its argument: %s" %
                             sorted(w.values(), key=repr))
            w = {c: i for i, c in enumerate(sorted(w, key=repr))}
        return w

    def cell(self, root, suffix):
        return (root,) + suffix


def feasible(rel, pairs):
    """no contradiction between the order of two words and their orders with constants"""
    for a, b in pairs:
        cons = sorted({x for k in rel if len(k) == 2 for x in k if isinstance(x, int) and (a in k or b in k)})
        if not cons:
            continue
        rank = {c: 10 * (i + 1) for i, c in enumerate(cons)}
        dom = sorted({r + d for r in rank.values() for d in (-2, -1, 0, 1, 2)})
        ok = False
        for va in dom:
            for vb in dom:
                good = True
                for k, r in rel.items():
                    if len(k) != 2 or not ({a, b} & set(k)):
                        continue
                    xs = [va if x == a else vb if x == b else rank.get(x) if isinstance(x, int) else None for x in k]
                    if None in xs:
                        continue
                    o = "lt" if xs[0] < xs[1] else "gt" if xs[0] > xs[1] else "eq"
                    if o != r:
                        good = False
                        break
                if good:
                    ok = True
        if not ok:
            return False
    return True


def table(ids, fn, eqop=False):
    """{order of the words: set of results}, and whether everything was understood"""
    I, res = run(ids.prog, fn)
    if res is None:
        return None, "too many paths"
    W = sorted(ids.words, key=lambda c: repr(ids.words[c]))
    pairs = [(("w", (THIS,) + s), ("w", (PAR,) + s)) for s in W]
    T = {o: set() for o in itertools.product(("lt", "eq", "gt"), repeat=len(W))}
    odd = None
    ours = {x for pr in pairs for x in pr}
    for p, v in res:
        v = I.rval(p, v)
        if v == (eqop == "==") and eqop and few(p, len(W), ours):
            return T, "!'equal' when only %s compare equal" % few(p, len(W), ours)
        if isinstance(v, tuple) and v[0] == "w" or not isinstance(v, int):
            odd = "result %s" % (v,)
            continue
        known = [None] * len(W)
        for k, r in p.rel.items():
            if k[0] == "bytes" and eqop:
                continue
            if len(k) != 2:
                odd = odd or "condition %s" % (k,)
                continue
            hit = False
            for i, (a, b) in enumerate(pairs):
                if k == (a, b):
                    known[i], hit = r, True
                elif k == (b, a):
                    known[i], hit = FLIP[r], True
            if not hit and not all(isinstance(x, int) or x in ours for x in k):
                odd = odd or "comparison %s" % (k,)
        for o in T:
            if all(x is None or x == y for x, y in zip(known, o)):
                rel = {k: r for k, r in p.rel.items() if len(k) == 2}
                for (a, b), r in zip(pairs, o):
                    rel[(a, b)] = r
                rel = orient(rel)
                if rel is not None and consistent(rel) and feasible(rel, pairs):
                    T[o].add(bool(v))
    return T, odd


def few(p, n, ours):
    """an answer 'equal' that rests on fewer word-sized comparisons than there are words: two different values pass them"""
    ks = []
    for k, r in p.rel.items():
        if len(k) != 2 or k[0] == "bytes":
            return None
        if any(isinstance(x, int) for x in k):
            if any(len(operand_roots(x)) > 1 for x in k):
                return None
            continue
        if any(UNK in leaves(x) for x in k):
            return None
        roots = [operand_roots(x) for x in k]
        if any(len(x) > 1 for x in roots):
            return None
        if any(isinstance(x, tuple) and x[0] not in ("w", "op") for x in k):
            return None
        if r == "eq":
            ks.append(k)
    return "%d words derived from the identifiers" % len(ks) if len(ks) < n else None


def comparisons(R, ids):
    R.rule("equality", "== of identifiers is true exactly when all words are equal, != exactly when one differs")
    R.rule("order", "< and > of identifiers are one strict total order over the words, consistent with == and each other, the "
           "same for every identifier class")
    lt = None
    for fn in ids.methods("operator<") + ids.methods("operator>") + ids.methods("operator<=") + ids.methods("operator>=") + \
            ids.methods("operator==") + ids.methods("operator!="):
        op = fn.short[8:]
        if len(fn.params) != 1 or "ostream" in fn.params[0]["t"]:
            continue
        T, odd = table(ids, fn, op if op in ("==", "!=") else None)
        name = nm(fn)
        if odd and odd[0] == "!":
            R.count("comparison operators decided")
            R.violation("equality", name, op, where(fn), "answers " + odd[1:])
            continue
        if T is None or odd:
            R.note("not decided: %s (%s)" % (name, odd))
            continue
        R.count("comparison operators decided")
        alleq = tuple(["eq"] * len(ids.words))
        if op in ("==", "!="):
            for o, s in sorted(T.items()):
                if not s:
                    continue
                want = (o == alleq) == (op == "==")
                if s != {want}:
                    R.violation("equality", name, op, where(fn), "answers %s when the words compare %s" %
                                ("/".join(str(x).lower() for x in sorted(s)), o))
                    break
            continue
        # ordering: the table must be a lexicographic order of the words in some sequence and direction
        forms = {}
        for perm in itertools.permutations(range(len(ids.words))):
            for dirs in itertools.product((1, -1), repeat=len(ids.words)):
                t = {}
                for o in T:
                    r = "eq"
                    for i in perm:
                        if o[i] != "eq":
                            r = o[i] if dirs[i] == 1 else FLIP[o[i]]
                            break
                    t[o] = {r in RESULT["<"]} if op in ("<", ">=") else {r in RESULT[">"]}
                    if op in ("<=", ">="):
                        t[o] = {not x for x in t[o]}
                forms[(perm, dirs)] = t
        fit = [f for f, t in forms.items() if all(not T[o] or T[o] == t[o] for o in T)]
        if not fit:
            R.violation("order", name, op, where(fn), "is not a strict total order over the words: %s" %
                        ", ".join("%s->%s" % ("/".join(o), "/".join(str(x).lower() for x in sorted(s))) for o, s in sorted(T.items())))
            continue
        if lt is None:
            lt = (set(fit), name)
        elif not lt[0] & set(fit):
            R.violation("order", name, op + " differs", where(fn), "orders identifiers differently from %s" % lt[1])
    R.atleast("comparison operators decided", 3)


def cell_of(v):
    return v[1] if isinstance(v, tuple) and v and v[0] in ("ref", "ptr") else None


def transfers(R, ids):
    R.rule("transfer", "copying, assigning and converting identifiers carries every word to its own place; the invalid state is "
           "the same wherever it is set")
    W = ids.words
    inv = {}

    def judge(fn, dst, src, what):
        """after fn the words of dst are the words of src, on every path"""
        I, res = run(ids.prog, fn)
        name = nm(fn)
        if not res:
            return R.note("not decided: %s" % name)
        R.count("transfers decided")
        for p, v in res:
            d = dst
            if dst == "return":
                d = cell_of(v)
                if d is None:
                    R.note("not decided: %s (result %s)" % (name, str(v)[:80]))
                    return
            for s, i in sorted(W.items(), key=repr):
                got = I.word(p, tuple(d) + s if not isinstance(d[0], str) else (d,) + s)
                want = src(s, i)
                if got in want:
                    continue
                if p.odd or UNK in leaves(got):
                    R.note("not decided: %s (%s)" % (name, str(got)[:80]))
                    return
                R.violation("transfer", name, what, where(fn), "word %s is not %s but %s" % (i, what, pretty(got)))
                return

    def whole(root):
        return lambda s, i: (("w", (root,) + s), )

    for fn in ids.methods("HashId") + ids.methods("operator=") + ids.methods("fromHashId"):
        if len(fn.params) == 1 and "HashId" in fn.params[0]["t"] or fn.short != "HashId" and len(fn.params) == 1:
            judge(fn, (THIS,), whole(PAR), "the word of the source")
        elif len(fn.params) == 1 and "*" in fn.params[0]["t"]:
            judge(fn, (THIS,), lambda s, i: (("w", (PAR, i)),), "the word of the source")
    for fn in ids.methods("toHashId"):
        judge(fn, (PAR,), whole(THIS), "the word of the identifier")
    for fn in ids.methods("toIdType"):
        judge(fn, "return", whole(THIS), "the word of the identifier")
    for fn in ids.methods("toUint64"):
        I, res = run(ids.prog, fn)
        if not res:
            R.note("not decided: %s" % fn.qual)
            continue
        R.count("transfers decided")
        for p, v in res:
            for s, i in W.items():
                got = I.word(p, (PAR, i))
                if got != ("w", (THIS,) + s):
                    if p.odd or UNK in leaves(got):
                        R.note("not decided: %s" % fn.qual)
                    else:
                        R.violation("transfer", nm(fn), "words", where(fn),
                                    "word %s of the result is not word %s of the identifier but %s" % (i, i, pretty(got)))
                    break
    for fn in ids.methods("setInvalid") + [f for f in ids.methods("HashId") if not f.params]:
        I, res = run(ids.prog, fn)
        if not res:
            R.note("not decided: %s" % fn.qual)
            continue
        R.count("invalid states decided")
        for p, v in res:
            st = []
            for s in sorted(W, key=repr):
                x = I.word(p, (THIS,) + s)
                st.append(x)
            if not all(isinstance(x, int) for x in st):
                if any(UNK in leaves(x) for x in st) or p.odd:
                    R.note("not decided: %s" % fn.qual)
                    continue
                R.violation("transfer", fn.qual, "invalid", where(fn), "leaves a word of the identifier unset: %s" %
                            ", ".join(pretty(x) for x in st))
                continue
            inv[fn.qual] = tuple(st)
    if len(set(inv.values())) > 1:
        R.violation("transfer", sorted(inv)[0], "invalid states", where(ids.methods("setInvalid")[0]),
                    "the invalid identifier differs: %s" % sorted(inv.items()))
    R.atleast("transfers decided", 6)
    return next(iter(inv.values()), None)


def validity(R, ids, inv):
    R.rule("valid", "isValid() is false exactly for the identifier that default construction and setInvalid() give")
    for fn in ids.methods("isValid"):
        I, res = run(ids.prog, fn)
        if res is None or inv is None:
            R.note("not decided: %s" % fn.qual)
            continue
        ws = [("w", (THIS,) + s) for s in sorted(ids.words, key=repr)]
        T = {o: set() for o in itertools.product(("eq", "ne"), repeat=len(ws))}
        odd = False
        for p, v in res:
            v = I.rval(p, v)
            if not isinstance(v, int) or p.odd:
                odd = True
                continue
            for o in T:
                ok = True
                for k, r in p.rel.items():
                    if len(k) != 2:
                        continue
                    for i, w in enumerate(ws):
                        if w in k:
                            c = k[0] if k[1] == w else k[1]
                            if not isinstance(c, int):
                                odd = True
                            elif c == inv[i]:
                                ok = ok and (r == "eq") == (o[i] == "eq")
                            elif r == "eq" and o[i] == "eq":
                                ok = False
                if ok:
                    T[o].add(bool(v))
        if odd:
            R.note("not decided: %s" % fn.qual)
            continue
        R.count("validity tests decided")
        alleq = tuple(["eq"] * len(ws))
        for o, s in sorted(T.items()):
            if s != {o != alleq}:
                R.violation("valid", fn.qual, "isValid", where(fn), "answers %s for an identifier whose words are %s to the "
                            "invalid words" % ("/".join(str(x).lower() for x in sorted(s)) or "nothing", o))
                break


def pretty(v):
    if isinstance(v, tuple) and v and v[0] == "w":
        return "the initial content of " + ".".join(str(x) if not isinstance(x, tuple) else str(x[0]) if len(x) == 1 or x[0] not in
                                                    ("param", "glob", "var") else "%s %s" % x[:2] for x in v[1])
    return str(v)[:120]


# ------------------------------------------------------------------------------------------------ messages
def message_cells(prog, fn):
    """the repeated fields of the argument that fn reads"""
    I, res = run(prog, fn)
    out = set()
    for p, v in res or []:
        for k in p.rel:
            for x in k:
                if isinstance(x, tuple) and x and x[0] == "w" and x[1][0] == PAR and x[1][-1] == "#":
                    out.add((x[1][:-1], "size"))
        for c, x in p.mem.items():
            if isinstance(x, tuple) and x and x[0] == "w" and x[1][0] == PAR and len(x[1]) == 3 and isinstance(x[1][2], int):
                out.add((x[1][:2], "element"))
    return sorted(out, key=repr)


def messages(R, ids):
    R.rule("message", "serialize() leaves exactly the words of the identifier in the message, deserialize() takes the same words "
           "from it and refuses a message of another size")
    W = sorted(ids.words, key=lambda s: repr(ids.words[s]))
    f = None
    for fn in ids.methods("deserialize"):
        for c, kind in message_cells(prog=ids.prog, fn=fn):
            f = c
    R.need(f is not None, "the repeated field that deserialize() reads")
    for fn in ids.methods("serialize"):
        for n0 in range(len(W) + 3):     # length of the list before: 0, 1, .. more than the words
            I, res = run(ids.prog, fn, mem={f + ("#",): n0})
            if not res:
                R.note("not decided: %s" % fn.qual)
                break
            bad = None
            for p, v in res:
                n = p.mem.get(f + ("#",))
                got = [I.word(p, f + (i,)) for i in range(len(W))]
                if p.odd or not isinstance(n, int) or any(UNK in leaves(x) for x in got):
                    R.note("not decided: %s" % fn.qual)
                    continue
                R.count("message transfers decided")
                if n != len(W):
                    bad = ("length", "a message that held %d numbers holds %d afterwards, not %d" % (n0, n, len(W)))
                elif got != [("w", (THIS,) + s) for s in W]:
                    bad = ("words", "the message holds %s instead of the words of the identifier" % [pretty(x) for x in got])
            if bad:
                R.violation("message", fn.qual, bad[0], where(fn), bad[1])
                break
    for fn in ids.methods("deserialize"):
        I, res = run(ids.prog, fn)
        if not res:
            R.note("not decided: %s" % fn.qual)
            continue
        for p, v in res:
            sizes = [(k, r) for k, r in p.rel.items() if len(k) == 2 and "'#'" in str(k) and len(W) in k]
            got = [I.word(p, (THIS,) + s) for s in W]
            if any(UNK in leaves(x) for x in got):
                R.note("not decided: %s" % fn.qual)
                continue
            R.count("message transfers decided")
            if not any(r == "eq" for k, r in sizes):
                R.violation("message", fn.qual, "size", where(fn), "takes words from a message whose size was not tested to be %d" %
                            len(W))
                break
            idx = [elem(x) for x in got]
            if None in idx:
                bad = got[idx.index(None)]
                if not (isinstance(bad, tuple) and bad[0] in ("call", "op", "new")):
                    R.violation("message", fn.qual, "words", where(fn), "a word of the identifier is %s, not a word of the message" %
                                pretty(bad))
                else:
                    R.note("not decided: %s" % fn.qual)
                break
            if idx != list(range(len(W))):
                R.violation("message", fn.qual, "words", where(fn), "takes words %s of the message, serialize() stores them as 0, 1" %
                            idx)
                break
    R.atleast("message transfers decided", 2)


def elem(v):
    """index of the element of the message a value is"""
    if isinstance(v, tuple) and v and v[0] == "w" and "param" in str(v[1]) and isinstance(v[1][-1], int):
        return v[1][-1]
    if isinstance(v, tuple) and v and v[0] in ("call", "at"):
        a = v[-1]
        if v[0] == "call" and len(a) == 1 and isinstance(a[0], int) and "param" in str(v[2]):
            return a[0]
        if v[0] == "at" and isinstance(v[2], int) and "param" in str(v[1]):
            return v[2]
        if v[0] == "at" and isinstance(v[2], tuple) and len(v[2]) == 1:
            return v[2][0]
    if isinstance(v, tuple) and v and v[0] == "w" and isinstance(v[1][-1], int) and "ret" in str(v[1]):
        return v[1][-1]
    return None


# ------------------------------------------------------------------------------------------------ hashes
PURE = {"hash", "size", "rows", "cols", "data", "c_str", "length", "operator[]", "at", "begin", "end", "hash_value", "coeff",
        "operator()", "min", "max", "move", "forward", "empty", "first", "second", "substr"}


IMPURE = ("now", "rand", "counter", "getpid", "this_thread", "clock", "time", "mersenne")


def impure(prog, fn):
    """for a hash function with a loop over the value: what else it reads"""
    for n in fn.nodes:
        if n["k"] in ("CallExpr", "CXXMemberCallExpr") and any(z in short(n.get("fn", "")) for z in IMPURE):
            return "%s()" % short(n["fn"])
        if n["k"] == "CXXReinterpretCastExpr" and n["c"] and fn.nodes[n["c"][0]].get("t", "").endswith("*") and \
                not n.get("t", "").endswith("*"):
            return "the address of an object"
        if n["k"] == "DeclRefExpr" and n.get("dk") in ("static", "global") and "const " not in n.get("t", ""):
            return "the variable %s" % n["n"]
    return None


def hashes(R, ids, prog):
    R.rule("hash", "a hash value depends on nothing but the content of the value: equal values have equal hashes")
    fns = ids.methods("hashToSizeT") + ids.methods("hashToSizeTFast")
    fns += sorted((f for f in prog.fns.values() if f.blocks and f.short == "operator()" and strip_tmpl(f.rec or f.qual)
                   .find("std") >= 0 and "hash" in strip_tmpl(f.qual) and not f.file.startswith(VERIF)), key=lambda f: f.key)
    for fn in fns:
        if not fn.file.startswith(("/repo", prog_root())):
            continue
        I, res = run(prog, fn)
        if not res:
            bad = impure(prog, fn)
            R.count("hash functions decided")
            if bad:
                R.violation("hash", nm(fn), bad, where(fn), "the hash depends on %s, not only on the value" % bad)
            continue
        bad = None
        odd = False
        vals = set()
        for p, v in res:
            v = I.rval(p, v)
            vals.add(repr(v))
            for k in p.rel:
                for x in k:
                    leaves(x)
            for x in leaves(v):
                if x == UNK:
                    odd = True
                elif x[0] == "ptr":
                    bad = "the address of an object"
                elif x[0] == "callee" and short(x[1]) not in PURE:
                    if any(z in x[1] for z in IMPURE):
                        bad = "%s()" % x[1]
                    else:
                        odd = True
                elif x[0] == "w":
                    r = x[1][0]
                    if r == THIS or r[0] == "param":
                        continue
                    if r[0] in ("glob", "static"):
                        g = prog.globals.get(r[1]) if r[0] == "glob" else None
                        if r[0] == "static" or g is not None and not g.get("const") and "const " not in g.get("t", ""):
                            bad = "the variable %s" % r[-1]
                    elif r[0] == "var":
                        bad = bad or "an uninitialised variable"
        if bad == "an uninitialised variable" and odd:
            bad = None
        if bad:
            R.count("hash functions decided")
            R.violation("hash", nm(fn), bad, where(fn), "the hash depends on %s, not only on the value" % bad)
        elif odd:
            R.note("not decided: %s" % fn.qual)
        else:
            R.count("hash functions decided")
    R.atleast("hash functions decided", 4)


def prog_root():
    from ..ir import REPO
    return REPO


# ------------------------------------------------------------------------------------------------ text form
def fold(v, atom, x):
    """value of an integer expression when `atom` is x"""
    if isinstance(v, int):
        return v
    if v == atom:
        return x
    if isinstance(v, tuple) and v and v[0] == "op" and len(v) == 4:
        a, b = fold(v[2], atom, x), fold(v[3], atom, x)
        if a is None or b is None:
            return None
        from ..absint import arith
        r = arith(v[1], a, b)
        return r if isinstance(r, int) else None
    return None


def text(R, ids, prog):
    R.rule("text", "hexString() gives two hexadecimal digits per byte, high digit first, and fromHexString() reads every byte from "
           "the two digits hexString() wrote for it; a string of another length is refused")
    nb = 8 * len(ids.words)
    base = sorted(ids.words, key=repr)[0][:-1]
    for fn in ids.methods("hexString"):
        I, res = run(prog, fn)
        if not res:
            R.note("not decided: %s" % fn.qual)
            continue
        for p, v in res:
            v = I.rval(p, v)
            snap = None
            if isinstance(v, tuple) and v[0] == "new" and v[2] and isinstance(v[2][0], tuple) and v[2][0][0] == "snap":
                snap = {k[0]: x for k, x in v[2][0][1] if len(k) == 1}
            if snap is None:
                R.note("not decided: %s" % fn.qual)
                continue
            R.count("text conversions decided")
            for j in range(2 * nb):
                e = snap.get(j)
                ok = None
                if isinstance(e, tuple) and e[0] == "at" and isinstance(e[1], tuple) and e[1][0][0] == "glob":
                    g = prog.globals.get(e[1][0][1]) or {}
                    tab = g.get("str")
                    if tab is not None:
                        atom = ("w", (THIS,) + base + ("byte", j // 2))
                        fs = [fold(e[2], atom, x) for x in range(256)]
                        if None not in fs:
                            ok = all(f < len(tab) and tab[f].lower() == "%x" % ((x >> 4) if j % 2 == 0 else (x & 15))
                                     for x, f in zip(range(256), fs))
                        elif any(a[0] == "w" and a[1][-2:-1] == ("byte",) and a != atom for a in leaves(e[2])):
                            ok = False
                elif e is None:
                    ok = False
                if ok is None:
                    R.note("not decided: %s digit %d" % (fn.qual, j))
                elif not ok:
                    R.violation("text", fn.qual, "digit", where(fn), "character %d is not the %s digit of byte %d" %
                                (j, "high" if j % 2 == 0 else "low", j // 2))
                    break
    for fn in ids.methods("fromHexString"):
        I, res = run(prog, fn)
        if not res:
            R.note("not decided: %s" % fn.qual)
            continue
        R.count("text conversions decided")
        for p, v in res:
            v = I.rval(p, v)
            wrote = {c: x for c, x in p.mem.items() if c[0] == THIS}
            if not isinstance(v, int):
                R.note("not decided: %s" % fn.qual)
                continue
            size = [r for k, r in p.rel.items() if len(k) == 2 and 2 * nb in k and ("size()" in str(k) or "length()" in str(k))]
            if not v:
                if "eq" in size and not p.odd and len(p.rel) == len(size):
                    R.violation("text", fn.qual, "refused", where(fn), "refuses a string of %d characters" % (2 * nb))
                if wrote and "eq" not in size:
                    R.violation("text", fn.qual, "changed", where(fn), "changes the identifier although it refuses the string")
                continue
            if "eq" not in size:
                R.violation("text", fn.qual, "length", where(fn), "accepts a string whose length was not tested to be %d" % (2 * nb))
                continue
            for i in range(nb):
                e = wrote.get((THIS,) + base + ("byte", i))
                if e is None:
                    if any(UNK in leaves(x) for x in wrote.values()) or p.odd or \
                            not any(c[-2:-1] == ("byte",) for c in wrote):
                        R.note("not decided: %s byte %d" % (fn.qual, i))
                    else:
                        R.violation("text", fn.qual, "byte", where(fn), "byte %d is not set from the string" % i)
                    break
                if isinstance(e, tuple) and e[0] == "call" and short(e[1]) in ("stoul", "stoi", "stoull", "stol") and len(e[3]) == 3:
                    src, _, b = e[3]
                    if b != 16:
                        R.violation("text", fn.qual, "radix", where(fn), "byte %d is read in base %s" % (i, b))
                        break
                    if isinstance(src, tuple) and src[0] == "new" and len(src[2]) >= 3:
                        pos, cnt = src[2][1], src[2][2]
                    elif isinstance(src, tuple) and src[0] == "call" and short(src[1]) == "substr" and len(src[3]) == 2:
                        pos, cnt = src[3]
                    else:
                        R.note("not decided: %s byte %d" % (fn.qual, i))
                        break
                    if isinstance(pos, int) and isinstance(cnt, int) and (pos, cnt) != (2 * i, 2):
                        R.violation("text", fn.qual, "position", where(fn), "byte %d is read from %s characters at position %s, "
                                    "hexString() writes it at %d" % (i, cnt, pos, 2 * i))
                        break
                else:
                    R.note("not decided: %s byte %d" % (fn.qual, i))
                    break


# ------------------------------------------------------------------------------------------------ uniqueness
def unique(R, ids, prog):
    R.rule("unique", "a generated identifier has a word that is a function of one atomic step of a process-wide counter and of "
           "nothing else, and the whole generated value becomes the identifier")
    gs = [f for f in prog.fns.values() if f.short == "generateUnique128BitHash" and f.blocks]
    R.need(gs, "generateUnique128BitHash")
    for fn in gs:
        I, res = run(prog, fn)
        if not res:
            R.note("not decided: %s" % fn.qual)
            continue
        R.count("generators decided")
        for p, v in res:
            ws = [I.word(p, (PAR, i)) for i in range(2)]
            cnt = []
            for w in ws:
                ls = leaves(w)
                ats = atomic_steps(w)
                others = [x for x in ls if x[0] == "callee" and "atomic" not in x[1] and short(x[1]) not in PURE]
                if ats == 1 and not others and not any(x == UNK for x in ls):
                    cnt.append(w)
            if any(w == ("w", (PAR, i)) for i, w in enumerate(ws)):
                R.violation("unique", fn.qual, "unset", where(fn), "leaves a word of the result unset")
            elif not cnt:
                if p.odd or any(UNK in leaves(w) for w in ws):
                    R.note("not decided: %s" % fn.qual)
                else:
                    R.violation("unique", fn.qual, "counter", where(fn), "no word of the result comes from one atomic step of a "
                                "counter alone: %s" % [pretty(w) for w in ws])
            elif not all(injective(w) for w in cnt[:1]):
                R.violation("unique", fn.qual, "collision", where(fn), "different counter values give the same word: %s" %
                            pretty(cnt[0]))
            # the counter is one object of the process
            for w in cnt[:1]:
                for c in counters(w):
                    if c[0][0] in ("var", "tmp") or len(c[0]) == 1 and c[0][0] == "this":
                        R.violation("unique", fn.qual, "scope", where(fn), "the counter is not shared by the process")
    for fn in sorted((f for f in prog.fns.values() if f.short == "generateId" and f.blocks), key=lambda f: f.key):
        I, res = run(prog, fn)
        if not res:
            R.note("not decided: %s" % fn.key)
            continue
        R.count("generators decided")
        for p, v in res:
            ws = [I.word(p, (PAR,) + s) for s in ids.words]
            if any(UNK in leaves(w) for w in ws):
                R.note("not decided: %s" % fn.qual)
                continue
            if not any(atomic_steps(w) == 1 for w in ws):
                R.violation("unique", fn.qual, "generated", where(fn), "the generated words do not all reach the identifier: %s" %
                            [pretty(w) for w in ws])


def atomic_steps(v):
    n = 0
    if isinstance(v, tuple) and v:
        if v[0] == "call" and "atomic" in v[1] and short(v[1]) in ("operator++", "operator--", "fetch_add", "fetch_sub", "operator+=",
                                                                 "operator-="):
            n += 1
        for x in v:
            n += atomic_steps(x)
    return n


def counters(v):
    out = []
    if isinstance(v, tuple) and v:
        if v[0] == "call" and "atomic" in v[1] and v[2] is not None and isinstance(v[2], tuple) and v[2][0] in ("w", "ref"):
            out.append(v[2][1])
        for x in v:
            out += counters(x)
    return out


def injective(v):
    """the expression loses no bits of the counter: hash / xor / plus a constant / product with an odd constant only"""
    if isinstance(v, tuple) and v and v[0] == "call":
        return True
    if isinstance(v, tuple) and v and v[0] == "op":
        if v[1] == "hash":
            return injective(v[2])
        if len(v) == 4:
            a, b = v[2], v[3]
            if atomic_steps(b) and not atomic_steps(a):
                a, b = b, a
            if v[1] in ("^", "+", "-"):
                return injective(a) and not atomic_steps(b)
            if v[1] == "*":
                return injective(a) and (not isinstance(b, int) or b % 2 == 1)
            if v[1] in ("%", "&", ">>", "/", "|", "<<"):
                return False
    return True


# ------------------------------------------------------------------------------------------------ orderings
def consistent(rels):
    """no cycle in the union of the order relations"""
    terms = set()
    for k in rels:
        terms |= set(k)
    terms = list(terms)
    n = len(terms)
    ix = {t: i for i, t in enumerate(terms)}
    le = [[i == j for j in range(n)] for i in range(n)]
    lt = [[False] * n for _ in range(n)]
    for (x, y), r in rels.items():
        a, b = ix[x], ix[y]
        if r == "gt":
            a, b = b, a
        le[a][b] = True
        if r == "eq":
            le[b][a] = True
        else:
            lt[a][b] = True
    ints = [t for t in terms if isinstance(t, int)]
    for a in ints:
        for b in ints:
            if a < b:
                le[ix[a]][ix[b]] = lt[ix[a]][ix[b]] = True
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if le[i][k] and le[k][j]:
                    le[i][j] = True
                    if lt[i][k] or lt[k][j]:
                        lt[i][j] = True
    return not any(lt[i][i] for i in range(n)) and not any(lt[i][j] and le[j][i] for i in range(n) for j in range(n))


def subst(v, m):
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        return tuple(subst(x, m) for x in v)
    return v


def plain(t):
    """a term whose order with others is free: an int, a cell of one operand, or one function of one operand"""
    if isinstance(t, int):
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "w":
        return True
    return t[0] == "call" and UNK not in leaves(t)


def operand_roots(t):
    return {x for x in (THIS, ("param", 0), ("param", 1)) if repr(x) in repr(t)}


def outcomes(prog, fn):
    I, res = run(prog, fn)
    if not res:
        return None, "too many paths or no result"
    mem = fn.rec and fn.kind != "lambda" and len(fn.params) == 1
    A, B = (THIS, ("param", 0)) if mem else (("param", 0), ("param", 1))
    out = []
    for p, v in res:
        v = I.rval(p, v)
        if not isinstance(v, int):
            return None, "result %s" % (str(v)[:60],)
        rel = {}
        for k, r in p.rel.items():
            if len(k) != 2 or r not in FLIP:
                return None, "condition %s" % (str(k)[:60],)
            if not all(plain(t) and len(operand_roots(t)) <= 1 for t in k):
                return None, "comparison %s" % (str(k)[:60],)
            rel[k] = r
        out.append((rel, bool(v)))
    return (A, B, out), None


def orient(rels):
    """one key per pair"""
    out = {}
    for (x, y), r in rels.items():
        if x == y:
            if r != "eq":
                return None
            continue
        if repr(x) > repr(y):
            x, y, r = y, x, FLIP[r]
        if out.get((x, y), r) != r:
            return None
        out[(x, y)] = r
    return out


def strict_weak(out):
    """None or a text: the law that the comparator breaks"""
    A, B, outs = out
    X, Y, Z = ("x",), ("y",), ("z",)

    def inst(a, b):
        m = {A: a, B: b}
        return [({tuple(subst(t, m) for t in k): r for k, r in rel.items()}, v) for rel, v in outs]

    def compatible(*rels):
        u = {}
        for rel in rels:
            o = orient(rel)
            if o is None:
                return None
            for k, r in o.items():
                if u.get(k, r) != r:
                    return None
                u[k] = r
        return u if consistent(u) else None
    for rel, v in inst(X, X):
        if v and compatible(rel) is not None:
            return "says that an element is before itself"
    for r1, v1 in inst(X, Y):
        for r2, v2 in inst(Y, X):
            if v1 and v2 and compatible(r1, r2) is not None:
                return "says both that a is before b and that b is before a"
    xy, yz, xz, yx, zy, zx = inst(X, Y), inst(Y, Z), inst(X, Z), inst(Y, X), inst(Z, Y), inst(Z, X)
    if len(xy) > 12:
        return None
    for r1, v1 in xy:
        if not v1:
            continue
        for r2, v2 in yz:
            if v2 and compatible(r1, r2) is not None:
                for r3, v3 in xz:
                    if not v3 and compatible(r1, r2, r3) is not None:
                        return "is not transitive: a before b and b before c, but not a before c"
    if len(xy) > 6:
        return None
    for r1, v1 in xy:
        for r1b, v1b in yx:
            if v1 or v1b or compatible(r1, r1b) is None:
                continue
            for r2, v2 in yz:
                for r2b, v2b in zy:
                    if v2 or v2b or compatible(r1, r1b, r2, r2b) is None:
                        continue
                    for r3, v3 in xz:
                        if v3 and compatible(r1, r1b, r2, r2b, r3) is not None:
                            return "is not a weak order: a ties with b and b with c, but a is before c"
    return None


SORTS = {"sort", "stable_sort", "partial_sort", "nth_element", "partial_sort_copy", "make_heap", "push_heap", "pop_heap", "sort_heap",
         "lower_bound", "upper_bound", "equal_range", "binary_search", "min_element", "max_element", "is_sorted"}


def orderings(R, prog):
    R.rule("weak-order", "every operator<, operator> and every comparator given to a sorting algorithm is a strict weak order")
    fns = {}
    for f in prog.fns.values():
        if f.blocks and f.short in ("operator<", "operator>") and not f.file.startswith(VERIF) and \
                (len(f.params) == 1 and f.rec or len(f.params) == 2 and not f.rec):
            fns[f.key] = f
    for f in prog.fns.values():
        if not f.blocks or f.file.startswith(VERIF):
            continue
        for n in f.nodes:
            if n["k"] == "CallExpr" and short(n.get("fn", "")) in SORTS and n.get("fn", "").startswith("std::"):
                for a in n["c"][3:]:
                    x = f.nodes[a]
                    seen = 0
                    while x["k"] not in ("LambdaExpr", "DeclRefExpr") and x["c"] and seen < 6:
                        x = f.nodes[x["c"][0]]
                        seen += 1
                    k = x.get("lam") or x.get("fk")
                    if x["k"] == "DeclRefExpr" and x.get("dk") == "local":
                        k = local_lambda(f, x)
                    c = prog.fns.get(k)
                    if c is not None and c.blocks and len(c.params) == 2 and "bool" in str(getattr(c, "ret", "bool")):
                        fns[c.key] = c
    for k in sorted(fns, key=lambda k: (fns[k].file, fns[k].line, k)):
        f = fns[k]
        out, why = outcomes(prog, f)
        if out is None:
            R.note("ordering not decided: %s %s (%s)" % (nm(f), where(f), why))
            continue
        R.count("orderings decided")
        R.sample("%s %s" % (nm(f), where(f)))
        bad = strict_weak(out)
        if bad:
            R.violation("weak-order", nm(f), "order", where(f), "the ordering " + bad)
    R.atleast("orderings decided", 8)


def local_lambda(f, x):
    for n in f.nodes:
        if n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d["d"] == x.get("d") and d.get("init") is not None and d["init"] >= 0:
                    y = f.nodes[d["init"]]
                    while y["k"] != "LambdaExpr" and y["c"]:
                        y = f.nodes[y["c"][0]]
                    return y.get("lam") or y.get("fk")
    return None


def P11(R):
    prog = programs.whole("thread_pool.cc", "channels.cc", "cameras.cc", "common_headers.cc")
    ids = Ids(R, prog)
    R.count("identifier classes", len(ids.classes))
    comparisons(R, ids)
    inv = transfers(R, ids)
    validity(R, ids, inv)
    messages(R, ids)
    hashes(R, ids, prog)
    text(R, ids, prog)
    unique(R, ids, prog)
    orderings(R, prog)
    R.atleast("identifier classes", 4)


CHECKS = {"P11": P11}
