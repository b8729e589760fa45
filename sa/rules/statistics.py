"""Statistics and timers: what is recorded is what is reported."""
import re
from fractions import Fraction
from ..graph import *
from ..facts import Facts
from ..bounds import LFacts
from ..locks import Locks
from ..loops import counting, every_round, leaves_early
from ..ir import short, strip_tmpl
from .lists import expand
from ..absint import Interp, Limit, UNK, FLIP
from .. import programs

FILES = ("common/statistics", "src/statistics.cc", "common/timer.h", "src/timer.cc")
SERIES = ("AddValue",)


class Sym(Interp):
    """scalars are signed or floating; numbers are exact fractions; functions for which opaque(fn) holds are not entered"""
    def __init__(self, prog, opaque=None, **kw):
        super().__init__(prog, **kw)
        self.opaque = opaque or (lambda f: False)

    def order(self, p, a, b):
        a, b = self.rval(p, a), self.rval(p, b)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                return [(p, "lt" if a < b else "gt" if a > b else "eq")]
        if isinstance(a, int) and isinstance(b, int) or a == b and a != UNK:
            return super().order(p, a, b)
        la, lb = lin(a), lin(b)
        d = {k: la.get(k, 0) - lb.get(k, 0) for k in set(la) | set(lb)}
        d = {k: v for k, v in d.items() if v}
        if not d or set(d) == {1}:
            c = d.get(1, 0)
            return [(p, "lt" if c < 0 else "gt" if c > 0 else "eq")]
        swap = repr(a) > repr(b)
        x, y = (b, a) if swap else (a, b)
        k = (x, y)
        if k in p.rel:
            return [(p, FLIP[p.rel[k]] if swap else p.rel[k])]
        out = []
        for r in ("lt", "eq", "gt"):
            q = p.copy()
            q.rel[k] = r
            out.append((q, FLIP[r] if swap else r))
        return out

    def truth(self, p, v):
        v = self.rval(p, v)
        if isinstance(v, tuple) and v and (v[0] == "call" or v[0] == "op" and v[1] not in ("!", "~")):
            return [(q, r != "eq") for q, r in self.order(p, v, 0)]
        return super().truth(p, v)

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        if n["k"] == "FloatingLiteral":
            try:
                f = Fraction(float(n.get("v")))
                return [(p, int(f) if f.denominator == 1 else f)]
            except (TypeError, ValueError):
                return [(p, UNK)]
        if n["k"] == "StringLiteral":
            return [(p, ("str", n.get("v")))]
        if n["k"] == "UnaryOperator" and n["op"] in ("++", "--"):
            out = []
            for q, (v,) in self.many(fn, n["c"], p, env, cache, this, fid, outer):
                old = self.rval(q, v)
                if not isinstance(v, tuple) or v[0] != "ref" or isinstance(old, tuple) and old and old[0] in ("ptr", "ref"):
                    return super()._ev(fn, nid, p, env, cache, this, fid, outer)
                q = q.copy()
                q.mem[v[1]] = add(old, 1 if n["op"] == "++" else -1)
                out.append((q, old if n.get("post") else v))
            return out
        return super()._ev(fn, nid, p, env, cache, this, fid, outer)

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        s = short(n.get("fn", ""))
        ext = fn2 is None or not fn2.blocks
        if not ext and self.opaque(fn2):
            q = q.copy()
            o = self.rval(q, obj) if obj is not None else None
            r = tuple(self.snap(q, v) for v in vs)
            q.trace.append((n.get("fn", ""), obj, r, fn2))
            if n.get("cm") and not vs and isinstance(obj, tuple) and obj[0] == "ref":
                return [(q, ("w", obj[1] + (s + "()",)))]
            return [(q, ("call", n.get("fn", ""), o, r))]
        if ext and isinstance(obj, tuple) and obj[0] == "ref" and len(vs) == 1 and s in ("at", "operator[]"):
            if s == "operator[]" and "map<" in n.get("fn", ""):
                q = q.copy()
                q.trace.append((n.get("fn", ""), obj, (self.rval(q, vs[0]),)))
            if s == "operator[]" and "vector<" in n.get("fn", ""):
                q = q.copy()
                i, sz = self.rval(q, vs[0]), self.word(q, obj[1] + ("size()",))
                q.trace.append(("unchecked", obj, (i, rel(q, i, sz) == "lt")))
            return [(q, ("ref", obj[1] + (("ix", self.rval(q, vs[0])),)))]
        if ext and isinstance(obj, tuple) and obj[0] == "ref" and not vs and s in ("back", "front"):
            i = 0 if s == "front" else add(("w", obj[1] + ("size()",)), -1)
            return [(q, ("ref", obj[1] + (("ix", i),)))]
        if ext and isinstance(obj, tuple) and obj[0] == "ref" and "vector<" in n.get("fn", ""):
            sz = obj[1] + ("size()",)
            if s == "size" and not vs:
                return [(q, self.word(q, sz))]
            if s == "empty" and not vs:
                return self.compare(q, "==", self.word(q, sz), 0)
            if s in ("push_back", "emplace_back", "pop_back", "clear"):
                q = q.copy()
                q.trace.append((n.get("fn", ""), obj, tuple(self.snap(q, v) for v in vs)))
                q.mem[sz] = 0 if s == "clear" else add(self.word(q, sz), -1 if s == "pop_back" else 1)
                return [(q, UNK)]
        if ext and s in ("min", "max") and len(vs) == 2 and obj is None:
            out = []
            for q2, r in self.order(q, vs[0], vs[1]):
                first = r != "gt" if s == "min" else r != "lt"
                out.append((q2, self.rval(q2, vs[0 if first else 1])))
            return out
        if s in ("lock_guard", "unique_lock"):
            return [(q, UNK)]
        return super().apply(fn, n, fn2, q, obj, vs, env, fid)


def add(v, k):
    return v + k if isinstance(v, (int, Fraction)) else ("op", "+", v, k) if k > 0 else ("op", "-", v, -k)


def lin(v):
    """linear combination {atom: coefficient, 1: constant} of an abstract value; products and quotients by numbers only"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, Fraction)):
        return {1: v} if v else {}
    if isinstance(v, tuple) and v and v[0] == "op":
        o = v[1]
        if o == "neg":
            return scale(lin(v[2]), -1)
        if len(v) == 4 and o in ("+", "-"):
            return plus(lin(v[2]), scale(lin(v[3]), 1 if o == "+" else -1))
        if len(v) == 4 and o == "*":
            a, b = lin(v[2]), lin(v[3])
            if set(a) <= {1}:
                return scale(b, a.get(1, 0))
            if set(b) <= {1}:
                return scale(a, b.get(1, 0))
    return {v: 1}


def scale(d, k):
    return {a: c * k for a, c in d.items() if c * k}


def plus(a, b):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + c
        if not out[k]:
            del out[k]
    return out


def same(a, b):
    return lin(a) == lin(b)


def ours(prog):
    return sorted((f for f in prog.fns.values() if f.blocks and any(x in f.file for x in FILES)), key=lambda f: (f.file, f.line, f.key))


def cls(f):
    """unqualified name of the class f is a member of"""
    q = strip_tmpl(f.qual).split("::")
    return q[-2] if len(q) > 1 else ""


def user(f):
    return not f.d.get("implicit") and not f.d.get("defaulted")


def run(prog, f, opaque=None, mem=None):
    I = Sym(prog, opaque=opaque)
    try:
        return I, I.run(f, mem=mem)
    except (Limit, RecursionError):
        return I, None


def fieldname(v):
    """name of the field of this that v is the content of"""
    if isinstance(v, tuple) and v and v[0] in ("w", "ref") and len(v[1]) == 2 and v[1][0] == ("this",):
        return v[1][1]
    return None


def this(name):
    return ("w", (("this",), name))


def rel(p, a, b):
    """what the path knows of a and b: 'lt' 'eq' 'gt' or None; also from comparisons with other constants"""
    for (x, y), r in ((k, r) for k, r in p.rel.items() if len(k) == 2):
        if (x, y) == (a, b):
            return r
        if (x, y) == (b, a):
            return FLIP[r]
    return None


def bounds(p, v):
    """[lo, hi] of an integer value on path p, from comparisons with constants; None: not known"""
    lo, hi = None, None
    l1 = lin(v)
    for k, r in p.rel.items():
        if len(k) != 2:
            continue
        x, y = k
        if isinstance(x, (int, Fraction)):
            x, y, r = y, x, FLIP[r]
        if not isinstance(y, (int, Fraction)):
            continue
        d = plus(lin(x), scale(l1, -1))
        if set(d) - {1}:
            continue
        c = y - d.get(1, 0)         # v  r  c
        if r in ("eq", "lt"):
            h = c if r == "eq" else c - 1
            hi = h if hi is None else min(hi, h)
        if r in ("eq", "gt"):
            g = c if r == "eq" else c + 1
            lo = g if lo is None else max(lo, g)
    return lo, hi


def say(v):
    """readable form of an abstract value"""
    if isinstance(v, (int, Fraction)):
        return str(v)
    if isinstance(v, tuple) and v:
        if v[0] in ("w", "ref", "ptr") and isinstance(v[1], tuple):
            return ".".join(say(("ixx", c[1])) if isinstance(c, tuple) and c[0] == "ix" else
                            ("sample" if c[0] == "param" else str(c[0])) if isinstance(c, tuple) else str(c)
                            for c in v[1]).replace("this.", "").replace(".[", "[")
        if v[0] == "ixx":
            return "[%s]" % say(v[1])
        if v[0] == "op":
            if len(v) == 4:
                return "(%s %s %s)" % (say(v[2]), v[1], say(v[3]))
            return "%s%s" % (v[1], say(v[2]))
        if v[0] == "call":
            return "%s(%s)" % (short(v[1]), ", ".join(say(x) for x in v[3]))
        if v[0] == "str":
            return repr(v[1])
    return "?" if v == UNK else str(v)


# ------------------------------------------------------------------------------------------------ accumulators
class Roles:
    """fields of an accumulator by what the getters return"""


def accumulators(prog, fs):
    out = {}
    for f in fs:
        if f.short == "Add" and f.kind == "method" and len(f.params) == 1:
            out[f.name.rsplit("::", 1)[0]] = f
    return out


def window_of(prog, rec):
    m = re.search(r",\s*(\d+)>$", rec)
    return int(m.group(1)) if m else None


def accumulate(R, prog, fs):
    n = 0
    for rec, addf in sorted(accumulators(prog, fs).items()):
        mine = {}
        for f in fs:
            if f.name.rsplit("::", 1)[0] == rec and f.kind == "method":
                mine.setdefault(f.short, f)
        W = window_of(prog, rec)
        r = Roles()
        ok = True
        for role, name in (("total", "total_samples"), ("sum", "sum"), ("last", "GetMostRecent"), ("max", "max"), ("min", "min"),
                           ("list", "GetSamples")):
            g = mine.get(name)
            setattr(r, role, None)
            if g is None:
                continue
            I, res = run(prog, g)
            names = {fieldname(v) for p, v in res or []}
            if len(names) == 1 and None not in names:
                setattr(r, role, names.pop())
            elif role != "list":
                setattr(r, role, None)
        if r.list is None:
            vec = [x["n"] for x in (prog.record(rec) or {}).get("fields", []) if "vector" in x["t"] or "deque" in x["t"]]
            r.list = vec[0] if len(vec) == 1 else None
        roles = {k: v for k, v in vars(r).items() if v}
        dup = [k for k in roles for j in roles if k < j and roles[k] == roles[j]]
        if len(roles) < 6 or dup:
            for name, role in (("total_samples", "total"), ("sum", "sum"), ("GetMostRecent", "last"), ("max", "max"), ("min", "min")):
                g = mine.get(name)
                if g is not None and role in dup:
                    R.violation("accumulate", rec.split("<")[0] + "::" + name, name, g.where(),
                                "%s returns the field that another quantity is read from" % name)
            R.note("%s: the fields are not recognised" % rec)
            continue
        n += 1
        con = strip_tmpl(rec)
        judge_add(R, prog, addf, con, r, W)
        judge_ctor(R, prog, fs, rec, con, r)
        means(R, prog, mine, con, r, W)
        variance(R, prog, mine, con, r)
        # nothing else changes what was recorded
        for name, f in sorted(mine.items()):
            if f is addf or not user(f) or f.d.get("const"):
                continue
            I, res = run(prog, f)
            for p, v in res or []:
                ch = [c for c in p.mem if c[0] == ("this",) and len(c) == 2 and c[1] in roles.values()]
                if ch and name.lower() not in ("reset", "clear"):
                    R.note("%s: changes %s" % (f.qual, ch[0][1]))
    R.count("accumulators", n)
    R.atleast("accumulators", 2)


def judge_add(R, prog, f, con, r, W):
    I, res = run(prog, f)
    if res is None:
        R.note("%s: Add is not decided" % con)
        return
    x = ("w", (("param", 0),))
    vec = (("this",), r.list)
    size = ("w", vec + ("size()",))
    counters = None
    fields = {c[1] for p, v in res for c in p.mem if c[0] == ("this",) and len(c) == 2}
    for c in fields:
        if all(same(p.mem.get((("this",), c), this(c)), add(this(c), 1)) for p, v in res):
            counters = (counters or set()) | {c}
    r.counters = counters or set()
    r.wsum = None

    def bad(msg):
        R.violation("accumulate", con + "::Add", msg.split(":")[0], f.where(), msg)
    R.count("ways through Add decided", len(res))
    inits = getattr(r, "inits", {})
    for p, v in res:
        def now(name):
            return I.rval(p, ("ref", (("this",), name)))
        tot = this(r.total)
        lo, hi = bounds(p, tot)
        first = hi is not None and hi <= 0
        later = lo is not None and lo >= 1
        if not same(now(r.total), add(tot, 1)):
            bad("the number of samples: becomes %s, not one more" % say(now(r.total)))
        if not same(now(r.sum), ("op", "+", this(r.sum), x)):
            bad("the total: becomes %s, not the old total plus the sample" % say(now(r.sum)))
        if now(r.last) != x:
            bad("the most recent sample: becomes %s" % say(now(r.last)))
        for role, name, better in (("max", r.max, "gt"), ("min", r.min, "lt")):
            k = rel(p, x, this(name))
            new = now(name)
            if new == x:
                if k in (better, "eq") or first:
                    continue
                if k is None and rel(p, x, this(r.min if role == "max" else r.max)) is None:
                    bad("the %simum: is replaced without being compared" % role)
                elif k is not None:
                    bad("the %simum: is replaced by a %s sample" % (role, "smaller" if role == "max" else "larger"))
                else:
                    bad("the %simum: is replaced without being compared" % role)
            elif new == this(name):
                if k in (FLIP[better], "eq"):
                    continue
                if k == better:
                    bad("the %simum: is kept although the sample is %s" % (role, "larger" if role == "max" else "smaller"))
                    continue
                other = rel(p, x, this(r.min if role == "max" else r.max))
                # beyond the other bound: the sample cannot be beyond this one, once there is one
                if other == FLIP[better] and later:
                    continue
                if other == FLIP[better]:
                    bad("the %simum: is not compared where the sample is a new %simum, which the first sample always is" % (
                        role, "min" if role == "max" else "max"))
                else:
                    bad("the %simum: is kept without being compared" % role)
            else:
                bad("the %simum: becomes %s" % (role, say(new)))
        # the window
        pushes = [t for t in p.trace if short(t[0]) in ("push_back", "emplace_back") and t[1] == ("ref", vec)]
        others = [t for t in p.trace if t[1] is not None and isinstance(t[1], tuple) and t[1][:1] == ("ref",) and t[1][1][:2] == vec and
                  short(t[0]) not in ("push_back", "emplace_back", "size", "empty", "at", "operator[]", "capacity", "reserve", "begin",
                                      "end", "front", "back")]
        stores = {c: w for c, w in p.mem.items() if c[:2] == vec and len(c) == 3 and isinstance(c[2], tuple) and c[2][0] == "ix"}
        if others or "deque" in "":
            R.note("%s: the window is kept in a way that is not recognised" % con)
            r.window = None
            continue
        new = [c for c, w in stores.items()]
        drop = None
        if len(pushes) == 1 and not any(c[2][1] != size for c in new):
            if pushes[0][2][0] not in (x, ("ref", (("param", 0),))) and I.rval(p, pushes[0][2][0]) != x:
                bad("the window: %s is added to it" % say(pushes[0][2][0]))
            los = [bounds(p, this(c))[1] for c in sorted(r.counters)] + [bounds(p, size)[1]]
            los = [h for h in los if h is not None]
            if W is not None and W < 2 ** 31 - 1:
                if not los:
                    bad("the window: grows without limit")
                elif min(los) >= W:
                    bad("the window: grows beyond %d samples" % W)
        elif not pushes and len(new) == 1:
            ix = new[0][2][1]
            if stores[new[0]] != x:
                bad("the window: %s is stored in it" % say(stores[new[0]]))
            lo_ = [bounds(p, this(c))[0] for c in sorted(r.counters)] + [bounds(p, size)[0]]
            lo_ = [h for h in lo_ if h is not None]
            if lo_ and W is not None and max(lo_) < W:
                bad("the window: a sample is replaced before it is full")
            pos = position(ix, W)
            if isinstance(ix, tuple) and ix[0] == "op" and ix[1] == "%" and isinstance(ix[3], int) and ix[3] != W:
                bad("the window: places go round by %s, the window has %s" % (ix[3], W))
            elif pos is None:
                R.note("%s: the place in the window is not decided" % con)
            else:
                a, k = pos
                if a is None:
                    bad("the window: the sample always goes to place %s" % k)
                elif fieldname(a) in fields and fieldname(a) not in r.counters:
                    bad("the window: its place does not move on with every sample")
                elif fieldname(a) not in fields:
                    bad("the window: its place does not move on with every sample")
                elif k % W:
                    bad("the window: the sample goes to place %s, which is not the oldest" % say(ix))
            drop = ("w", new[0])
        else:
            if not pushes and not new:
                bad("the window: the sample is not kept")
            else:
                R.note("%s: the window is kept in a way that is not recognised" % con)
            continue
        want = ("op", "+", ("w", ()), x)
        cand = [c for c in fields if c not in r.counters and c not in (r.total, r.sum, r.last, r.max, r.min, r.list)]
        for c in cand:
            d = plus(lin(now(c)), scale(lin(this(c)), -1))
            exp = lin(x) if drop is None else plus(lin(x), scale(lin(drop), -1))
            if d == exp:
                r.wsum = r.wsum or c
            elif r.wsum == c or len(cand) == 1:
                bad("the sum of the window: changes by %s" % (" + ".join(sorted(
                    ("" if k == 1 else str(k) + " * ") + say(a) for a, k in d.items())) or "nothing"))


def position(ix, W):
    """(counter, offset) of an index counter % W"""
    if isinstance(ix, (int, Fraction)):
        return None, ix
    if isinstance(ix, tuple) and ix[0] == "op" and ix[1] == "%" and ix[3] == W:
        d = lin(ix[2])
        c = d.pop(1, 0)
        if len(d) == 1 and list(d.values()) == [1]:
            return list(d)[0], c
        return None if d else (None, c)
    return None


def judge_ctor(R, prog, fs, rec, con, r):
    for f in fs:
        if f.kind != "ctor" or f.name.rsplit("::", 1)[0] != rec or f.params or f.d.get("implicit"):
            continue
        I, res = run(prog, f)
        for p, v in res or []:
            R.count("constructors decided")
            for name in sorted({r.total, r.sum, r.wsum} | r.counters):
                if name is None:
                    continue
                x = I.rval(p, ("ref", (("this",), name)))
                if x == this(name):
                    R.violation("accumulate", con + "::" + con.split("::")[-1], "init " + name, f.where(), "%s is not initialised" % name)
                elif x != 0:
                    R.violation("accumulate", con + "::" + con.split("::")[-1], "init " + name, f.where(),
                                "%s starts as %s, not 0" % (name, say(x)))
            for name, good, what in ((r.min, ("max", "infinity"), "largest"), (r.max, ("lowest", "-infinity"), "smallest")):
                x = I.rval(p, ("ref", (("this",), name)))
                g = None
                if isinstance(x, tuple) and x[0] == "call":
                    g = short(x[1])
                elif isinstance(x, tuple) and x[0] == "op" and x[1] == "neg" and isinstance(x[2], tuple) and x[2][0] == "call":
                    g = {"infinity": "-infinity", "max": "lowest"}.get(short(x[2][1]), "?")
                if isinstance(x, int) and abs(x) >= 2 ** 31 - 1:
                    g = "max" if x > 0 else "lowest"
                if g not in good and not getattr(r, "firsts", False):
                    if x == this(name):
                        x = "not initialised"
                    R.violation("accumulate", con + "::" + con.split("::")[-1], "init " + name, f.where(),
                                "%s starts as %s, not as the %s value: samples on its far side are lost" % (
                                    name, x if isinstance(x, str) else say(x), what))


def nonempty(p, r, W):
    for c in [this(r.total), ("w", (("this",), r.list, "size()"))] + [this(c) for c in sorted(r.counters)]:
        lo, hi = bounds(p, c)
        if lo is not None and lo >= 1 or hi is not None and hi <= -1:
            return True
    return False


def empty(p, r):
    for c in [this(r.total), ("w", (("this",), r.list, "size()"))] + [this(c) for c in sorted(r.counters)]:
        lo, hi = bounds(p, c)
        if hi is not None and hi <= 0:
            return True
    return False


def impossible(p, r):
    """the path needs counts below zero"""
    size = ("w", (("this",), r.list, "size()"))
    cs = [this(r.total), size] + [this(c) for c in sorted(r.counters)]
    z = [bounds(p, c) for c in cs]
    if any(hi is not None and hi < 0 for lo, hi in z):
        return True
    return any(hi is not None and hi <= 0 for lo, hi in z) and any(lo is not None and lo >= 1 for lo, hi in z)


def means(R, prog, mine, con, r, W):
    size = ("w", (("this",), r.list, "size()"))
    inf = W is None or W >= 2 ** 31 - 1
    for name in ("Mean", "RollingMean"):
        f = mine.get(name)
        if f is None:
            continue
        I, res = run(prog, f)

        def bad(msg):
            R.violation("accumulate", con + "::" + name, msg.split(":")[0], f.where(), msg)
        for p, v in res or []:
            if impossible(p, r):
                continue
            R.count("means decided")
            v = I.rval(p, v)
            if empty(p, r):
                if isinstance(v, tuple) and v[0] == "op" and v[1] == "/":
                    bad("empty: the mean of no samples divides by zero")
                continue
            if not (isinstance(v, tuple) and v[0] == "op" and v[1] == "/"):
                if isinstance(v, (int, Fraction)):
                    bad("value: %s is returned although there may be samples" % say(v))
                else:
                    R.note("%s::%s: the result is not recognised" % (con, name))
                continue
            num, den = v[2], v[3]
            alls = {r.total} | r.counters
            full = (num == this(r.sum) or inf and num == this(r.wsum)) and (
                fieldname(den) in alls or inf and den == size)
            part = num == this(r.wsum) if r.wsum else False
            if part and not inf:
                part = den == size or (fieldname(den) in alls and (bounds(p, den)[1] if bounds(p, den)[1] is not None else W + 1) <= W) or \
                    den == W and any((bounds(p, this(c))[0] or 0) >= W for c in alls) or \
                    den == W and (bounds(p, size)[0] or 0) >= W
            if name == "Mean" and not full:
                bad("value: the mean is %s, not the total by the number of all samples" % say(v))
            elif name == "RollingMean" and not (part or inf and full):
                bad("value: the rolling mean is %s, not the sum by the number of the samples of the window" % say(v))
            elif not nonempty(p, r, W) and not isinstance(den, int):
                bad("empty: the mean of no samples divides by zero")


# ------------------------------------------------------------------------------------------------ variance
def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from walk(x)


def square(G, t):
    """the factor that t is the square of"""
    t = expand(G, t)
    if t[0] == "bin" and t[1] == "*" and expand(G, t[2]) == expand(G, t[3]):
        return expand(G, t[2])
    if t[0] == "call" and short(t[1]) == "pow" and len(t) == 4 and t[3][0] in ("int", "float") and float(t[3][1]) == 2:
        return expand(G, t[2])
    return None


def variance(R, prog, mine, con, r):
    f = mine.get("LazyVariance")
    if f is None:
        return
    G = Graph(prog, f, depth=3, inline=lambda fn, fr: any(x in fn.file for x in FILES) and fn.short not in ("Mean", "RollingMean"))
    F = LFacts(G)

    def bad(e, msg):
        R.violation("accumulate", con + "::LazyVariance", msg.split(":")[0], e.where() if e is not None else f.where(), msg)
    vec = ("fld", ("this",), r.list)
    size = ("size", vec)
    loops = list(counting(G))
    sums = []
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CompoundAssignOperator" and e.node["op"] == "+=":
            d = square(G, G.term(e.frame, e.node["c"][1]))
            if d is not None:
                sums.append((e, d))
    if len(sums) != 1:
        R.note("%s::LazyVariance: the sum is not recognised" % con)
        return
    e, d = sums[0]
    R.count("variances decided")
    if not (d[0] == "bin" and d[1] == "-"):
        bad(e, "term: %s is squared, not the distance to the mean" % show(d))
        return
    a, b = expand(G, d[2]), expand(G, d[3])
    if a[0] == "m" and a[1] in ("Mean", "RollingMean"):
        a, b = b, a
    if b[:2] == ("m", "Mean"):
        bad(e, "mean: the distance is taken to the mean of all samples, the sum over the window's")
    elif b[:2] != ("m", "RollingMean"):
        R.note("%s::LazyVariance: the mean is not recognised" % con)
    el = a
    cl = None
    if el[0] in ("idx",) and el[1] == vec:
        cl = next((L for L in loops if el[2] == L.v and e.id in L.events(G)), None)
        if cl is None:
            if el[2][0] in ("int",):
                bad(e, "samples: only sample %s is used" % show(el[2]))
            else:
                R.note("%s::LazyVariance: the loop is not recognised" % con)
        else:
            S = F.IN.get(e.id)
            if cl.init is None or cl.init != ("int", 0):
                bad(e, "samples: the loop starts at %s" % (show(cl.init) if cl.init else "?"))
            b2 = expand(G, cl.bound)
            if b2 != size or cl.add or cl.step != 1:
                if b2 == size:
                    bad(e, "samples: the loop does not visit every sample")
                else:
                    R.note("%s::LazyVariance: the loop's end %s is not recognised" % (con, show(cl.bound)))
            if not every_round(G, cl, {e.id}):
                bad(e, "samples: some are skipped")
            if leaves_early(G, cl) is not None:
                bad(e, "samples: the loop is left before all were visited")
    elif el[0] == "elem" and el[1] == vec:
        pass
    else:
        R.note("%s::LazyVariance: the samples are not recognised" % con)
    # divided, once, by one less than their number
    v = G.term(e.frame, e.node["c"][0])
    divs = []
    for x in G.ev:
        if x.id not in G.live or x.kind != "stmt" or x.node["k"] not in ("CompoundAssignOperator", "BinaryOperator"):
            continue
        if x.node["op"] in ("/=", "/", "*=", "*"):
            l = G.term(x.frame, x.node["c"][0])
            if l == v:
                divs.append((x, expand(G, G.term(x.frame, x.node["c"][1]))))
    if not divs:
        bad(e, "divisor: the sum is not divided")
    for x, t in divs:
        S = F.IN.get(x.id)
        if x.node["op"] in ("*=", "*"):
            R.note("%s::LazyVariance: the division is not recognised" % con)
            continue
        if x.id in reach(G, e.id) and e.id in reach(G, x.id):
            bad(x, "divisor: the sum is divided in every round")
            continue
        lt = F.lin(t)
        lw = F.lin(("bin", "-", size, ("int", 1)))
        if lt is None:
            R.note("%s::LazyVariance: the divisor is not recognised" % con)
            continue
        dd = {k: lt.get(k, 0) - lw.get(k, 0) for k in set(lt) | set(lw)}
        dd = {k: c for k, c in dd.items() if c}
        if dd:
            bad(x, "divisor: the sum is divided by %s, not by one less than the number of samples" % show(t))
        elif S is not None and not F.entails_ge(S, size, ("int", 2)):
            bad(x, "divisor: may be zero, or less, for fewer than two samples")
    if len([1 for x, t in divs if x.node["op"] in ("/", "/=")]) > 1:
        R.note("%s::LazyVariance: several divisions" % con)


def reach(G, start):
    seen, todo = set(), [t for t, c in G.ev[start].succ]
    while todo:
        i = todo.pop()
        if i in seen or i not in G.live:
            continue
        seen.add(i)
        todo += [t for t, c in G.ev[i].succ]
    return seen


# ------------------------------------------------------------------------------------------------ one series of values
ACC = {"sum": "the total", "total_samples": "the number of samples", "Mean": "the mean", "RollingMean": "the rolling mean",
       "max": "the maximum", "min": "the minimum", "LazyVariance": "the variance", "GetMostRecent": "the most recent sample"}
VALUE = {"GetLastValue": "GetMostRecent", "Sum": "sum", "TotalSamples": "total_samples", "Mean": "Mean", "RollingMean": "RollingMean",
         "Max": "max", "Min": "min", "LazyVariance": "LazyVariance"}
DELTA = {"GetLastDeltaTime": "GetMostRecent", "MeanDeltaTime": "Mean", "RollingMeanDeltaTime": "RollingMean", "MaxDeltaTime": "max",
         "MinDeltaTime": "min", "LazyVarianceDeltaTime": "LazyVariance"}
EXACT = {}


def is_acc(f):
    return cls(f) == "Accumulator" and f.kind == "method"


def now_term(v):
    return isinstance(v, tuple) and v and v[0] == "call" and short(v[1]) == "now"


def seconds(v, R):
    """(later, earlier) time points of a duration in seconds; None: not recognised; "unit": other unit"""
    from_op = v
    factor = None
    if isinstance(v, tuple) and v and v[0] == "op" and v[1] in ("*", "/") and len(v) == 4:
        a, b = v[2], v[3]
        if v[1] == "*" and not (isinstance(a, tuple) and a[0] == "call"):
            a, b = b, a
        from_op, factor = a, (v[1], b)
    t = from_op
    unit = None
    while isinstance(t, tuple) and t and t[0] in ("call", "w", "new", "at"):
        if t[0] == "call" and short(t[1]) == "count":
            m = re.search(r"std::ratio<1, (\d+)>", t[1])
            unit = int(m.group(1)) if m else 1 if "duration<double" in t[1] else None
            t = t[2]
        elif t[0] == "call" and short(t[1]).startswith("duration_cast"):
            t = t[3][0]
        elif t[0] == "call" and short(t[1]) == "operator-" and len(t[3]) == 2:
            return t[3][0], t[3][1], unit, factor
        elif t[0] == "new" and len(t[2]) == 1:
            t = t[2][0]
        else:
            return None
    return None


def constant(prog, v):
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, tuple) and v and v[0] == "w" and v[1][0][0] in ("glob", "static") and len(v[1]) == 1:
        g = prog.globals.get(v[1][0][1])
        if g:
            for k in ("cv", "fv", "val", "v"):
                if g.get(k) is not None:
                    try:
                        return Fraction(str(g[k]))
                    except (ValueError, ZeroDivisionError):
                        return None
    return None


def series(R, prog, fs):
    """roles of the accumulators of a series, then its getters"""
    by = {}
    for f in fs:
        if f.kind == "method":
            by.setdefault(f.name.rsplit("::", 1)[0], {}).setdefault(f.short, f)
    out = {}
    for rec, ms in sorted(by.items()):
        f = ms.get("AddValue")
        if f is None or not f.params:
            continue
        con = strip_tmpl(rec)

        def bad(m, fn, msg):
            R.violation("series", con + "::" + fn.short, m, fn.where(), msg)
        I, res = run(prog, f, opaque=is_acc)
        if res is None:
            R.note("%s::AddValue: not decided" % con)
            continue
        x = ("w", (("param", 0),))
        values = deltas = None
        last = None
        for p, v in res:
            adds = [t for t in p.trace if len(t) == 4 and is_acc(t[3]) and t[3].short == "Add"]
            for t in adds:
                o = t[1][1][1] if isinstance(t[1], tuple) and t[1][0] == "ref" and len(t[1][1]) == 2 else None
                if t[2][0] == x:
                    values = values or o
                elif o:
                    deltas = deltas or o
        if values is None:
            bad("sample", f, "the sample is not added to any accumulator")
            continue
        for p, v in res:
            R.count("ways through AddValue decided")
            adds = [t for t in p.trace if len(t) == 4 and is_acc(t[3]) and t[3].short == "Add"]
            vs = [t for t in adds if t[1] == ("ref", (("this",), values))]
            ds = [t for t in adds if t[1] == ("ref", (("this",), deltas))] if deltas else []
            if len(vs) != 1:
                bad("sample", f, "the sample is added %s" % ("twice" if len(vs) > 1 else "only sometimes"))
            elif vs[0][2][0] != x:
                bad("sample", f, "%s is added in place of the sample" % say(vs[0][2][0]))
            if deltas is None:
                continue
            stamps = [c for c, w in p.mem.items() if c[0] == ("this",) and len(c) == 2 and now_term(w)]
            if not stamps:
                bad("stamp", f, "the time of the call is not remembered: the next interval is measured from an earlier call")
                continue
            tl = ("w", stamps[0])
            ks = [r for k, r in p.rel.items() if len(k) == 2 and tl in k]
            called = ks and ks[0] != "eq"
            if len(ds) > 1 or bool(ds) != bool(called):
                if ks:
                    bad("interval", f, "an interval is %s" % (
                        "added twice" if len(ds) > 1 else "added at the first call" if ds else "not added although there was a call before"))
                elif ds:
                    R.note("%s: when intervals are added is not decided" % con)
            for t in ds:
                s = seconds(t[2][0], R)
                if s is None:
                    R.note("%s: the interval is not recognised" % con)
                    continue
                a, b, unit, factor = s
                if not now_term(a) or b != tl:
                    bad("interval", f, "the interval added is from %s to %s" % (say(b), say(a)))
                unit_check(R, prog, con + "::AddValue", f, unit, factor)
        out[rec] = (values, deltas)
        for table, acc in ((VALUE, values), (DELTA, deltas)):
            for name, want in table.items():
                g = ms.get(name)
                if g is None or acc is None:
                    continue
                I, res = run(prog, g, opaque=is_acc)
                for p, v in res or []:
                    R.count("getters decided")
                    v = I.rval(p, v)
                    if isinstance(v, tuple) and v[0] == "w" and len(v[1]) == 3 and v[1][0] == ("this",):
                        if v[1][1:] != (acc, want + "()"):
                            bad("getter", g, "%s returns %s of %s" % (name, ACC.get(v[1][2][:-2], v[1][2]), v[1][1]))
                    elif isinstance(v, (int, Fraction)):
                        cnt = ("w", (("this",), acc, "total_samples()"))
                        lo, hi = bounds(p, cnt)
                        if not (hi is not None and hi <= 0):
                            bad("getter", g, "%s returns %s although there may be samples" % (name, say(v)))
                    else:
                        R.note("%s::%s: the result is not recognised" % (con, name))
        g = ms.get("MeanCallsPerSec")
        if g is not None and deltas:
            I, res = run(prog, g, opaque=is_acc)
            mean = ("w", (("this",), deltas, "Mean()"))
            for p, v in res or []:
                R.count("getters decided")
                v = I.rval(p, v)
                if v == ("op", "/", 1, mean):
                    if rel(p, mean, 0) in (None, "eq") and not any(
                            (bounds(p, ("w", (("this",), deltas, "total_samples()")))[0] or 0) >= 1 for _ in (0,)):
                        bad("rate", g, "the rate divides by a mean interval that may be zero")
                elif isinstance(v, tuple) and v[0] == "op":
                    bad("rate", g, "the rate is %s, not one by the mean interval" % say(v))
                elif isinstance(v, (int, Fraction)):
                    if rel(p, mean, 0) in ("gt",):
                        bad("rate", g, "%s is returned although there are intervals" % say(v))
        R.count("series")
    R.atleast("series", 1)
    return out


def unit_check(R, prog, con, f, unit, factor):
    if unit is None:
        R.note("%s: the unit of the interval is not recognised" % con)
        return
    k = Fraction(1)
    if factor is not None:
        k = constant(prog, factor[1])
        if k is None or factor[0] == "/" and not k:
            R.note("%s: the factor of the interval is not recognised" % con)
            return
        if factor[0] == "/":
            k = 1 / k
    if abs(k * unit - 1) > Fraction(1, 10 ** 6):
        R.violation("series", con, "unit", f.where(), "intervals are not in seconds: ticks of 1/%s s times %g" % (unit, float(k)))


# ------------------------------------------------------------------------------------------------ queries
QUERY = {"GetLastValue": "GetLastValue", "GetTotal": "Sum", "GetTotalSeconds": "Sum", "GetMean": "Mean", "GetMeanSeconds": "Mean",
         "GetNumSamples": "TotalSamples", "GetVariance": "LazyVariance", "GetVarianceSeconds": "LazyVariance", "GetMin": "Min",
         "GetMinSeconds": "Min", "GetMax": "Max", "GetMaxSeconds": "Max", "GetMeanDeltaTime": "MeanDeltaTime",
         "GetMaxDeltaTime": "MaxDeltaTime", "GetMinDeltaTime": "MinDeltaTime", "GetLastDeltaTime": "GetLastDeltaTime",
         "GetVarianceDeltaTime": "LazyVarianceDeltaTime"}
WORDS = {"Sum": "the total", "Mean": "the mean", "TotalSamples": "the number of samples", "LazyVariance": "the variance", "Min": "the minimum",
         "Max": "the maximum", "GetLastValue": "the last value"}


def collectors(fs):
    """classes with a static GetHandle(tag) and GetTag"""
    by = {}
    for f in fs:
        if f.kind == "method":
            by.setdefault(f.name.rsplit("::", 1)[0], []).append(f)
    return {q: ms for q, ms in sorted(by.items()) if any(f.short == "GetHandle" and f.params for f in ms) and
            any(f.short == "GetTag" for f in ms)}


def is_tag(f, i=0):
    return "basic_string" in f.params[i]["t"] or "string" in f.params[i]["t"]


def list_cell(v):
    """(list, index, rest) of a value that is read from an element of a list of the instance"""
    if isinstance(v, tuple) and v and v[0] in ("w", "ref"):
        c = v[1]
        for i, x in enumerate(c):
            if isinstance(x, tuple) and x and x[0] == "ix":
                return c[:i], x[1], c[i + 1:]
    return None


def queries(R, prog, fs):
    for rec, ms in collectors(fs).items():
        con = strip_tmpl(rec)
        handle = ("w", (("param", 0),))

        def bad(f, m, msg):
            R.violation("query", con + "::" + f.short, m, f.where(), msg)
        for f in ms:
            want = QUERY.get(f.short)
            if not f.params or f.short in ("GetHandle", "GetTag") or want is None and f.short != "GetHz":
                continue
            byt = is_tag(f)
            mates = {g.key for g in ms if g.short in (f.short, "GetHandle") and g is not f} if byt else set()
            I, res = run(prog, f, opaque=lambda g: cls(g) == "StatisticsMapValue" and g.kind == "method" or g.key in mates)
            for p, v in res or []:
                R.count("queries decided")
                v = I.rval(p, v)
                if byt:
                    q = v
                    if isinstance(q, tuple) and q[0] == "call" and q[3]:
                        if short(q[1]) != f.short:
                            bad(f, "tag", "%s(tag) returns %s" % (f.short, short(q[1])))
                            continue
                        h = q[3][0]
                    else:
                        z = list_cell(q)
                        if z is None or not z[2]:
                            R.note("%s::%s: the result is not recognised" % (con, f.short))
                            continue
                        if z[2] != (want + "()",) and want:
                            bad(f, "value", "%s returns %s" % (f.short, WORDS.get(z[2][0][:-2], z[2][0])))
                        h = z[1]
                    if not (isinstance(h, tuple) and h[0] == "call" and short(h[1]) == "GetHandle" and h[3] and h[3][0] in (
                            ("w", (("param", 0),)), ("ref", (("param", 0),)))):
                        bad(f, "tag", "%s(tag) does not ask for the handle of that tag" % f.short)
                    continue
                inv = False
                if f.short == "GetHz":
                    if isinstance(v, (int, Fraction)):
                        continue
                    if isinstance(v, tuple) and v[0] == "op":
                        if v[1] != "/" or v[2] != 1:
                            bad(f, "rate", "the rate is %s" % say(v))
                            continue
                        v, inv = v[3], True
                z = list_cell(v)
                if z is None or len(z[2]) != 1:
                    R.note("%s::%s: the result is not recognised" % (con, f.short))
                    continue
                if z[1] != handle:
                    bad(f, "handle", "the series read is number %s, not that of the handle" % say(z[1]))
                got = z[2][0][:-2]
                if f.short == "GetHz":
                    if inv != (got in ("RollingMean", "Mean", "MeanDeltaTime", "RollingMeanDeltaTime")):
                        bad(f, "rate", "the rate is %s%s" % ("one by " if inv else "", got))
                    elif timer(con) != (got in ("RollingMean", "Mean")):
                        bad(f, "rate", "the rate is computed from %s" % got)
                elif got != want:
                    bad(f, "value", "%s returns %s" % (f.short, WORDS.get(got, got)))
        R.count("collectors")
    R.atleast("collectors", 2)
    R.atleast("queries decided", 40)


def timer(con):
    return "Timing" in con


# ------------------------------------------------------------------------------------------------ handles
def unchecked(f):
    """elements of the list of series that are read without a range check"""
    out = []
    for i, n in enumerate(f.nodes):
        if n["k"] == "CXXOperatorCallExpr" and short(n.get("fn", "")) == "operator[]" and "StatisticsMapValue" in n.get("fn", "") and \
                "vector" in n.get("fn", ""):
            out.append(i)
    return out


def handles(R, prog, fs):
    for rec, ms in collectors(fs).items():
        con = strip_tmpl(rec)
        tagcell = ("w", (("param", 0),))

        def bad(f, m, msg):
            R.violation("handle", con + "::" + f.short, m, f.where(), msg)
        for f in ms:
            if f.short == "GetHandle" and f.params:
                one(R, prog, f, con, bad)
            elif f.short == "GetTag":
                I, res = run(prog, f)
                tag_of(R, prog, f, con, bad)
            elif f.short == "Reset":
                I, res = run(prog, f)
                for p, v in res or []:
                    R.count("handle functions decided")
                    if not any("map<" in t[0] and short(t[0]) in ("clear", "swap", "operator=", "erase") for t in p.trace) and not any(
                            c[0][0] == "static" and len(c) == 2 and "map" in c[1] for c in p.mem):
                        bad(f, "reset", "Reset keeps the tags")
            elif f.short == "HasHandle":
                I, res = run(prog, f)
                for p, v in res or []:
                    R.count("handle functions decided")
                    ch = [t for t in p.trace if short(t[0]) in ("operator[]", "insert", "emplace", "try_emplace", "push_back", "erase",
                                                                 "clear", "insert_or_assign", "GetHandle")]
                    if ch or any(len(c) > 2 and c[0][0] == "static" for c in p.mem):
                        bad(f, "pure", "asking for a tag changes the list of tags")
            elif f.short in ("AddSample", "AddTime") and len(f.params) == 2:
                I, res = run(prog, f, opaque=lambda g: cls(g) == "StatisticsMapValue" and g.kind == "method")
                for p, v in res or []:
                    R.count("handle functions decided")
                    a = [t for t in p.trace if len(t) == 4 and t[3].short == "AddValue"]
                    if len(a) != 1:
                        bad(f, "sample", "the sample is added %s" % ("twice" if a else "to no series"))
                        continue
                    z = list_cell(a[0][1])
                    if z is None:
                        R.note("%s::%s: the series is not recognised" % (con, f.short))
                    elif z[1] != ("w", (("param", 0),)):
                        bad(f, "sample", "the sample is added to series %s, not to the handle's" % say(z[1]))
                    if a[0][2][0] != ("w", (("param", 1),)):
                        bad(f, "sample", "%s is added in place of the sample" % say(a[0][2][0]))
            # handles that were never handed out are refused; series are never removed
            if unchecked(f) and f.short != "GetHandle":
                I, res = run(prog, f, opaque=lambda g: cls(g) == "StatisticsMapValue" and g.kind == "method")
                for p, v in res or []:
                    for t in p.trace:
                        if t[0] == "unchecked" and not t[2][1]:
                            bad(f, "unchecked", "series %s is read without a check that there is such a series" % say(t[2][0]))
            for i, n in enumerate(f.nodes):
                if n["k"] == "CXXMemberCallExpr" and "vector<" in n.get("fn", "") and "StatisticsMapValue" in n.get("fn", ""):
                    if short(n["fn"]) in ("clear", "erase", "pop_back", "resize", "assign", "swap"):
                        bad(f, "removed", "%s removes series whose handles are still in use" % f.short)
                if n["k"] == "CXXOperatorCallExpr" and "vector<" in n.get("fn", "") and "StatisticsMapValue" in n.get("fn", "") and \
                        short(n["fn"]) == "operator=":
                    bad(f, "removed", "%s replaces the series whose handles are still in use" % f.short)


def one(R, prog, f, con, bad):
    """outcomes of GetHandle"""
    I, res = run(prog, f)
    if res is None:
        R.note("%s::GetHandle: not decided" % con)
        return
    tag = ("w", (("param", 0),))
    for p, v in res:
        v = I.rval(p, v)
        known = found(p, tag)
        pushes = [t for t in p.trace if short(t[0]) in ("push_back", "emplace_back", "resize") and "StatisticsMapValue" in t[0]]
        stores = [(c, w) for c, w in p.mem.items() if len(c) >= 3 and c[0][0] == "static" and isinstance(c[2], tuple) and c[2][0] == "ix" and
                  c[2][1] == tag]
        ins = [t for t in p.trace if "map<" in t[0] and short(t[0]) in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint")]
        if known is None:
            if ins and "map<" in str(v):
                R.note("%s::GetHandle: insertion is not recognised" % con)
            elif pushes or stores:
                bad(f, "new", "a series is made without asking whether the tag has one")
            else:
                R.note("%s::GetHandle: the search is not recognised" % con)
            continue
        R.count("handle functions decided")
        if known:
            if pushes:
                bad(f, "known", "a known tag gets a new series")
            if stores:
                bad(f, "known", "the handle of a known tag is changed")
            if isinstance(v, tuple) and v[0] in ("w", "at") and ("second" in str(v) or "'ix'" in str(v) or "at" in str(v)):
                pass
            elif isinstance(v, tuple) and v[0] == "w" and v[1][-1] == "size()" or isinstance(v, (int, Fraction)):
                bad(f, "known", "a known tag gets the handle %s" % say(v))
            continue
        if len(pushes) != 1:
            bad(f, "new", "a new tag %s" % ("gets more than one series" if pushes else "gets no series"))
            continue
        lst = pushes[0][1]
        size0 = ("w", lst[1] + ("size()",)) if isinstance(lst, tuple) and lst[0] == "ref" else None
        if not stores and not ins:
            bad(f, "new", "a new tag is not stored: the next use makes another series")
            continue
        if ins:
            args = [a for a in ins[0][2]]
            flat = []
            for a in args:
                flat += list(a[1]) if isinstance(a, tuple) and a and a[0] == "tuple" else list(a[2]) if isinstance(a, tuple) and a and \
                    a[0] == "new" else [a]
            val = flat[-1] if len(flat) >= 2 else None
        else:
            val = stores[0][1]
        # cells of locals: what they hold
        val = I.rval(p, val) if val is not None else None
        if size0 is None or val is None:
            R.note("%s::GetHandle: the stored handle is not recognised" % con)
        elif not same(val, size0):
            bad(f, "new", "the handle stored for a new tag is %s, its series is number %s" % (say(val), say(size0)))
        if size0 is not None and not same(v, size0) and not (val is not None and same(val, size0) and isinstance(v, tuple) and
                                                             v[0] in ("at",)):
            bad(f, "new", "the handle returned for a new tag is %s, its series is number %s" % (say(v), say(size0)))
    # one critical section
    sections(R, prog, f, con, bad)


def found(p, tag):
    """whether the path found the tag; None: did not look"""
    for k, r in p.rel.items():
        if len(k) != 2:
            continue
        a, b = k
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "call" and short(x[1]) in ("find", "lower_bound") and "map<" in x[1] and x[3] and x[3][0] == tag:
                if isinstance(y, tuple) and y[0] == "call" and short(y[1]) in ("end", "cend"):
                    return r != "eq"
            if isinstance(x, tuple) and x[0] == "call" and short(x[1]) in ("count", "contains") and "map<" in x[1] and x[3] and x[3][0] == tag:
                if y == 0:
                    return r != "eq"
                if y == 1:
                    return (r == "eq") if x is a or True else None
    for k, r in p.rel.items():
        if len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == "call" and short(k[0][1]) in ("count", "contains") and "map<" in k[0][1]:
            return bool(r)
    return None


def sections(R, prog, f, con, bad):
    G = Graph(prog, f, depth=4, inline=lambda fn, fr: any(x in fn.file for x in FILES))
    L = Locks(G)
    looks, makes = [], []
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt" or e.node["k"] not in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            continue
        s, q = short(e.node.get("fn", "")), e.node.get("fn", "")
        if "map<" in q and s in ("find", "count", "contains", "lower_bound", "emplace", "insert", "try_emplace"):
            looks.append(e)
        if "map<" in q and s in ("operator[]", "emplace", "insert", "try_emplace") or "StatisticsMapValue" in q and s in (
                "push_back", "emplace_back", "size"):
            makes.append(e)
    R.count("critical sections decided", 1 if looks and makes else 0)
    for m in makes:
        h = L.held(m.id)
        for l in looks:
            if m.id not in reach(G, l.id):
                continue
            if not h:
                continue    # P12 reports accesses without a lock
            # an unlock between?
            cut = {e.id for e in G.ev if e.id in G.live and not L.held(e.id)}
            seen, todo = set(), [l.id]
            direct = False
            while todo:
                i = todo.pop()
                if i in seen or i in cut:
                    continue
                seen.add(i)
                if i == m.id:
                    direct = True
                todo += [t for t, c in G.ev[i].succ if t in G.live]
            gap = set()
            todo = [t for t in reach(G, l.id) & cut]
            if any(m.id in reach(G, t) for t in todo):
                bad(f, "section", "the lock is given up between the search for the tag and the new entry: two threads can make two "
                                  "series for one tag")
                return


def tag_of(R, prog, f, con, bad):
    G = Graph(prog, f, depth=3, inline=lambda fn, fr: any(x in fn.file for x in FILES))
    F = None
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt" or e.node["k"] not in ("BinaryOperator",):
            continue
        if e.node["op"] not in ("==", "!=", "<", ">", "<=", ">="):
            continue
        a, b = (strip_at(expand(G, G.term(e.frame, x))) for x in e.node["c"])
        hp = [x for x in (a, b) if x[0] == "param"]
        el = [x for x in (a, b) if x[0] == "fld"]
        if not (hp and el):
            continue
        R.count("handle functions decided")
        if el[0][2] != "second":
            bad(f, "tag", "the handle is compared with %s" % show(el[0]))
        # where the tag of the entry is taken, its handle is the one asked for
        F = F or Facts(G)
        for x in G.ev:
            if x.id not in G.live or x.kind != "stmt":
                continue
            if x.node["k"] == "ReturnStmt" and x.node["c"]:
                t = G.term(x.frame, x.node["c"][0])
            elif x.node["k"] == "CXXOperatorCallExpr" and short(x.node.get("fn", "")) == "operator=":
                t = G.term(x.frame, x.node["c"][-1])
            else:
                continue
            t = strip_at(expand(G, t))
            while t[0] == "ctor" and len(t) == 3 and isinstance(t[2], tuple) and not isinstance(t[2][0], int):
                t = strip_at(t[2])
            if t[0] == "fld" and t[2] == "first" and t[1] == el[0][1]:
                S = F.IN.get(x.id)
                if S is None or F.entails_le(S, a, b, 0) and F.entails_le(S, b, a, 0):
                    continue
                if e.node["op"] in ("==", "!=") and ("ne", a, b, 0) not in S and ("ne", b, a, 0) not in S:
                    R.note("%s::GetTag: which entry is taken is not decided" % con)
                else:
                    bad(f, "tag", "the tag returned is one whose handle may differ")


def strip_at(t):
    if isinstance(t, tuple) and t and t[0] == "fld" and len(t) > 3:
        return t[:3]
    return t


# ------------------------------------------------------------------------------------------------ recording
def recording(R, prog, fs):
    """objects that hold a handle and hand samples on"""
    for f in fs:
        c = cls(f)
        if not (c.endswith("Impl") or c in ("StatsCollectorImpl", "TimerImpl")) or f.kind not in ("method", "ctor") or not user(f):
            continue
        con = strip_tmpl(f.qual)

        def bad(m, msg):
            R.violation("record", con, m, f.where(), msg)
        sink = lambda g: g.kind == "method" and g.short in ("AddSample", "AddTime") and len(g.params) == 2 or \
            g.kind == "method" and g.short == "GetHandle" and g.params
        if f.kind == "ctor":
            I, res = run(prog, f, opaque=sink)
            hname = handle_field(prog, fs, c)
            if hname is None or not f.params:
                continue
            for p, v in res or []:
                h = I.rval(p, ("ref", (("this",), hname)))
                R.count("recorders decided")
                if is_tag(f):
                    if not (isinstance(h, tuple) and h[0] == "call" and short(h[1]) == "GetHandle" and h[3] and
                            h[3][0] in (("w", (("param", 0),)), ("ref", (("param", 0),)), ("w", (("this",), "tag_")))):
                        if h == this(hname):
                            bad("handle", "the handle is not initialised")
                        else:
                            bad("handle", "the handle is %s, not that of the tag" % say(h))
                elif h != ("w", (("param", 0),)):
                    bad("handle", "the handle is %s, not the one given" % ("not initialised" if h == this(hname) else say(h)))
            continue
        if f.short in ("AddSample", "IncrementOne"):
            hname = handle_field(prog, fs, c)
            I, res = run(prog, f, opaque=lambda g: sink(g) and g is not f)
            for p, v in res or []:
                R.count("recorders decided")
                adds = [t for t in p.trace if len(t) == 4 and t[3].short in ("AddSample", "AddTime")]
                if len(adds) != 1:
                    bad("sample", "the sample is recorded %s" % ("more than once" if adds else "not at all"))
                    continue
                h, x = adds[0][2]
                want = 1 if f.short == "IncrementOne" else ("w", (("param", 0),))
                if x != want:
                    bad("sample", "%s is recorded" % say(x))
                if hname and h != this(hname):
                    bad("sample", "the sample goes to series %s" % say(h))


def handle_field(prog, fs, c):
    for f in fs:
        if cls(f) == c and f.short == "GetHandle" and f.kind == "method" and not f.params:
            I, res = run(prog, f)
            names = {fieldname(v) for p, v in res or []}
            if len(names) == 1:
                return names.pop()
    return None


def timers(R, prog, fs):
    ms = {}
    for f in fs:
        if cls(f) == "TimerImpl" and user(f):
            ms.setdefault("ctor" if f.kind == "ctor" else "dtor" if f.kind == "dtor" else f.short, f)
    R.need("TimerImpl::Stop", ms.get("Stop"))
    R.need("TimerImpl::Start", ms.get("Start"))
    hname = handle_field(prog, fs, "TimerImpl")
    flag = None
    if "IsTiming" in ms:
        I, res = run(prog, ms["IsTiming"])
        names = {fieldname(v) for p, v in res or []}
        if len(names) == 1:
            flag = names.pop()
    if flag is None:
        R.note("TimerImpl: how a running timer is told is not recognised")
        return
    sink = lambda g: g.kind == "method" and g.short in ("AddTime", "AddSample") and len(g.params) == 2 or \
        g.kind == "method" and g.short == "GetHandle" and g.params
    fl = this(flag)
    start = None
    I, res = run(prog, ms["Start"], opaque=sink)
    for p, v in res or []:
        st = [c for c, w in p.mem.items() if c[0] == ("this",) and len(c) == 2 and now_term(w)]
        start = start or (st[0] if st else None)

    def bad(f, m, msg):
        R.violation("timer", "TimerImpl::" + f.short, m, f.where(), msg)

    def state(I, p):
        return I.rval(p, ("ref", (("this",), flag)))

    def running(p, default=None):
        for k, r in p.rel.items():
            if len(k) == 2 and fl in k and 0 in k:
                return r != "eq"
            if len(k) == 1 and k[0] == fl:
                return bool(r)
        return default

    def adds(p):
        return [t for t in p.trace if len(t) == 4 and t[3].short in ("AddTime", "AddSample")]
    for role, f in sorted(ms.items()):
        for run_now in ((None,) if role == "ctor" else (True, False)):
            mem = {} if run_now is None else {(("this",), flag): 1 if run_now else 0}
            I, res = run(prog, f, opaque=sink, mem=mem)
            if res is None:
                R.note("TimerImpl::%s: not decided" % f.short)
                continue
            for p, v in res:
                R.count("timer transitions decided")
                after, n = state(I, p), adds(p)
                stamp = I.rval(p, ("ref", start)) if start else None
                if role == "ctor":
                    stopped = None
                    prm = ("w", (("param", 1),)) if len(f.params) > 1 else None
                    for k, r in p.rel.items():
                        if prm is not None and prm in k:
                            stopped = (r != "eq") if len(k) == 2 else bool(r)
                    if after == fl:
                        bad(f, "flag", "whether the timer runs is not initialised")
                    if stopped is True and after != 0:
                        bad(f, "flag", "a timer constructed stopped runs")
                    if stopped is False and (after in (0, fl) or not now_term(stamp)):
                        bad(f, "flag", "a timer that is not constructed stopped does not run")
                    if n:
                        bad(f, "time", "constructing a timer records a time")
                elif role == "Start":
                    if after in (0, fl):
                        bad(f, "flag", "the timer does not run after Start")
                    if not now_term(stamp):
                        bad(f, "time", "Start%s does not take the time" % (" on a running timer" if run_now else ""))
                    if n:
                        bad(f, "time", "Start records a time")
                elif role in ("Stop", "dtor"):
                    name = "Stop" if role == "Stop" else "the destructor"
                    if role == "Stop" and after != 0:
                        bad(f, "flag", "the timer still runs after Stop")
                    if not run_now:
                        if n:
                            bad(f, "time", "%s records a time of a timer that does not run" % name)
                        continue
                    if len(n) != 1:
                        bad(f, "time", "%s of a running timer records %s" % (name, "its time twice" if n else "nothing"))
                        continue
                    h, x = n[0][2]
                    if hname and h != this(hname):
                        bad(f, "handle", "the time is recorded for %s" % say(h))
                    s = seconds(x, R)
                    if s is None:
                        R.note("TimerImpl::%s: the time is not recognised" % f.short)
                    else:
                        a, b, unit, factor = s
                        if not now_term(a) or start and b != ("w", start):
                            bad(f, "time", "the time recorded is from %s to %s" % (say(b), say(a)))
                        unit_check(R, prog, "TimerImpl::" + f.short, f, unit, factor)
                    if role == "Stop" and I.rval(p, v) != x:
                        bad(f, "result", "Stop returns %s, not the time it recorded" % say(I.rval(p, v)))
                elif role == "Discard":
                    if after != 0:
                        bad(f, "flag", "the timer still runs after Discard")
                    if n:
                        bad(f, "time", "Discard records a time")
                elif n or after not in (1 if run_now else 0, fl):
                    bad(f, "flag", "%s changes the timer" % f.short)


# ------------------------------------------------------------------------------------------------ reports
LABELS = (("samples", ("GetNumSamples",)), ("total", ("GetTotal", "GetTotalSeconds")), ("mean", ("GetMean", "GetMeanSeconds")),
          ("std", ("GetVariance", "GetVarianceSeconds")), ("min", ("GetMin", "GetMinSeconds")), ("max", ("GetMax", "GetMaxSeconds")),
          ("+-", ("GetVariance", "GetVarianceSeconds")), ("hz", ("GetHz",)))
PLACES = (("(", ("GetMean", "GetMeanSeconds")), ("[", ("GetMin", "GetMinSeconds")), (",", ("GetMax", "GetMaxSeconds")))


def reports(R, prog, fs):
    for f in fs:
        if f.short not in ("Print", "WriteToYamlFile") or not f.params:
            continue
        con = strip_tmpl(f.qual)
        G = Graph(prog, f, depth=4, inline=lambda fn, fr: any(x in fn.file for x in FILES) and not getter(fn))

        def bad(e, m, msg):
            R.violation("report", con, m, e.where(), msg)
        outs = []
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXOperatorCallExpr" and short(e.node.get("fn", "")) == "operator<<":
                outs.append(e)
            elif e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and short(e.node.get("fn", "")) == "operator<<":
                outs.append(e)
        val = {e.id: expand_all(G, G.term(e.frame, e.node["c"][-1])) for e in outs}
        text = {i: v[1] for i, v in val.items() if v[0] == "str"}
        entries = set()
        for e in outs:
            v = val[e.id]
            gs = [x for x in walk(v) if x[0] in ("call", "m") and getter_name(x)]
            if v[0] == "str":
                continue
            labs = before(G, e, {o.id for o in outs})
            for g in gs:
                name = getter_name(g)
                h = handle_of(g)
                R.count("reported values decided")
                if h is not None:
                    z = strip_at(h)
                    if z[0] == "fld" and z[2] == "second":
                        entries.add(z[1])
                    elif z[0] in ("int",):
                        bad(e, "handle", "%s of series %s is reported for every tag" % (name, show(z)))
                    elif z[0] == "fld" and z[2] == "first":
                        entries.add(z[1])
                for i in labs:
                    t = text.get(i)
                    if t is None:
                        continue
                    want = label(t)
                    if want is not None and name not in want:
                        bad(e, "label", "%s is reported as %r" % (name, t.strip()))
                    if want is not None and any("Variance" in w for w in want) and name in want and not any(
                            x[0] == "call" and short(x[1]) == "sqrt" for x in walk(v)):
                        bad(e, "label", "the variance is reported as the deviation")
                    if want is not None and not any("Variance" in w for w in want) and any(
                            x[0] == "call" and short(x[1]) in ("sqrt", "pow") for x in walk(v)):
                        bad(e, "label", "%s is changed before it is reported" % name)
        R.count("reports")
    R.atleast("reports", 4)


def getter(fn):
    return fn.short in QUERY or fn.short in ("GetHz", "GetHandle", "SecondsToTimeString")


def getter_name(t):
    s = short(t[1]) if t[0] == "call" else t[1]
    return s if s in QUERY or s == "GetHz" else None


def handle_of(t):
    a = t[2:] if t[0] == "call" else t[3:]
    return a[-1] if a else None


def label(t):
    s = t.strip().lower().rstrip(":")
    if t.rstrip().endswith(":"):
        for k, w in LABELS:
            if k in s:
                return w
        return None
    if "+-" in s and s.endswith("+-"):
        return dict(LABELS)["+-"]
    for k, w in PLACES:
        if s.endswith(k):
            return w
    return None


def before(G, e, outs):
    """the outputs directly before e"""
    seen, todo, found_ = set(), [p for p, c in G.ev[e.id].pred], set()
    while todo:
        i = todo.pop()
        if i in seen or i not in G.live:
            continue
        seen.add(i)
        if i in outs:
            found_.add(i)
            continue
        todo += [p for p, c in G.ev[i].pred]
    return found_


def expand_all(G, t, depth=0):
    t = expand(G, t)
    if depth > 6 or not isinstance(t, tuple):
        return t
    return tuple(expand_all(G, x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


def clock(R, prog, fs):
    """a number of seconds as hours, minutes and seconds"""
    for f in fs:
        if f.short != "SecondsToTimeString" or len(f.params) != 1:
            continue
        I, res = run(prog, f)
        x = ("w", (("param", 0),))
        d = lambda k: ("op", "/", x, k)
        for p, v in res or []:
            for t in p.trace:
                if short(t[0]) != "snprintf" or len(t[2]) < 4:
                    continue
                fmt = re.findall(r"%[0-9.]*([df])", str(I.rval(p, t[2][2])))
                args = [I.rval(p, a) for a in t[2][3:]]
                if len(fmt) != len(args) or not fmt or fmt[-1] != "f":
                    R.note("%s: the format is not recognised" % f.qual)
                    continue
                R.count("clock times decided")
                want = {"seconds": [{("call", "fmod", None, (x, 60)): 1}, {("call", "std::fmod", None, (x, 60)): 1}],
                        "minutes": [{d(60): 1, d(3600): -60}, {("op", "%", d(60), 60): 1}], "hours": [{d(3600): 1}]}
                names = ["hours", "minutes", "seconds"][-len(args):]
                for n, a in zip(names, args):
                    a = lin(a)
                    if a in want[n]:
                        continue
                    if all(isinstance(k, tuple) and (k[0] == "op" and k[1] in ("/", "%") and k[2] in (x, d(60)) or
                                                     k[0] == "call" and short(k[1]) == "fmod") or k == 1 for k in a):
                        R.violation("report", strip_tmpl(f.qual), n, f.where(), "the %s shown are %s" % (n, " + ".join(
                            "%s * %s" % (c, say(k)) for k, c in a.items())))
                    else:
                        R.note("%s: the %s are not recognised" % (f.qual, n))


def P17(R):
    R.rule("accumulate", "outcomes of Accumulator::Add, its constructor and its getters over all orders of sample, minimum and maximum: every "
           "sample counts once in number, total, extremes and window; the variance is the sum of squared distances to the mean of the "
           "window by one less than its size; no mean divides by zero")
    R.rule("series", "outcomes of StatisticsMapValue: a value goes once to the values, the interval since the last call once to the "
           "intervals, in seconds; every getter returns its own quantity")
    R.rule("query", "outcomes of the query functions: the quantity of the name, from the series of the handle; by tag: of the tag's handle")
    R.rule("handle", "outcomes of GetHandle: a known tag keeps its handle, a new one gets the index of the one series made for it, within "
           "one critical section; handles out of range are refused; series are never removed")
    R.rule("record", "a collector hands its sample, once, to its own handle")
    R.rule("timer", "transitions of a timer, running or not: what is recorded, what is returned and whether it runs after")
    R.rule("report", "each value of a report is the query its label names, for the tag it is reported under")
    prog = programs.common("common_headers.cc")
    fs = ours(prog)
    accumulate(R, prog, fs)
    series(R, prog, fs)
    queries(R, prog, fs)
    handles(R, prog, fs)
    recording(R, prog, fs)
    timers(R, prog, fs)
    reports(R, prog, fs)
    clock(R, prog, fs)
    R.count("functions", len(fs))
    R.atleast("functions", 80)


CHECKS = {"P17": P17}
