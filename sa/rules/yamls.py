"""YAML: matrices, the checked readers and writers, sensors, cameras and rigs."""
import re
from ..graph import *
from ..bounds import LFacts
from ..loops import counting, every_round
from ..ir import short, strip_tmpl
from ..absint import Limit, UNK, THROW
from .. import programs
from .descriptors import Fn
from .statistics import Sym
from .repo import DRV

EIGEN, READ, FILE = "common/yaml-serialization-eigen", "common/yaml-serialization.h", "common/yaml-file-serialization"
BASES = ("YAML::Exception", "std::exception", "exception", "std::runtime_error", "runtime_error", "Exception", "...")


def walk(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo.extend(x)


def ours(fn, fr=None):
    return "/aslam_cv_" in "/" + fn.file


# ------------------------------------------------------------------------------------------------ matrices
class MatFn(Fn):
    def __init__(self, R, prog, f):
        self.R, self.prog, self.f = R, prog, f
        self.G = Graph(prog, f, inline=ours)
        self.F = LFacts(self.G)
        self.loops = counting(self.G)

    def at(self, e):
        return self.F.IN.get(e.id)


def dims_of(t):
    m = re.search(r"Matrix<\s*([\w ]+),\s*(-?\d+),\s*(-?\d+)", t)
    return (m.group(1), int(m.group(2)), int(m.group(3))) if m else None


def norm(t):
    """without the trailing marks of impure reads"""
    if isinstance(t, tuple):
        return tuple(norm(x) for x in t if not (isinstance(x, tuple) and x[:1] == ("at",)))
    return t


def is_as(t, key):
    return t[0] == "m" and t[1] == "as" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "idx" and len(t[2]) > 2 and \
        any(x == ("str", key) for x in walk(t[2][2]))


def writes_of(X, M):
    """(event, row, column, value term, value node type)"""
    G = X.G
    for e in X.ev("BinaryOperator", "CXXOperatorCallExpr"):
        if e.node["op"] != "=":
            continue
        c = e.node["c"]
        l = norm(G.term(e.frame, c[-2]))
        if l[0] == "idx" and l[1] == M:
            n = e.frame.fn.nodes[c[-1]]
            while n["k"] in CASTS | {"ParenExpr", "UnaryOperator", "DeclRefExpr"}:
                if n["k"] == "DeclRefExpr":
                    d = (e.frame.fn.decls.get(n.get("d")) or [None])[0]
                    init = d.get("init", -1) if isinstance(d, dict) else -1
                    if init is None or init < 0 or e.frame.fn.writes.get(n.get("d")):
                        break
                    n = e.frame.fn.nodes[init]
                else:
                    n = e.frame.fn.nodes[n["c"][0]]
            yield e, l[2:], norm(G.term(e.frame, c[-1])), n.get("t", ""), c[-1]


def steps_of(X, it):
    """events that advance the iterator it = (frame, decl)"""
    for e in X.ev("CXXOperatorCallExpr", "UnaryOperator"):
        if e.node["op"] in ("++", "--", "+=", "-="):
            for c in e.node["c"][-2:] if e.node["op"] in ("+=", "-=") else e.node["c"]:
                n = e.frame.fn.nodes[c]
                if n["k"] == "DeclRefExpr" and n.get("d") == it[1] and e.frame.id == it[0]:
                    yield e


def decl_event(X, it):
    for e in X.ev("DeclStmt"):
        if e.frame.id == it[0] and any(d["d"] == it[1] for d in e.node["decls"]):
            return e
    return None


def once_per_round(X, L, inner, steps, use):
    """None, or what is wrong with how often / when the iterator moves in a round of L (inner: a loop within L or None)"""
    G = X.G
    ids = {e.id for e in steps}
    ev = L.events(G)
    if any(e.node["op"] not in ("++",) for e in steps):
        return "moves in other steps than one"
    if not ids & ev:
        return "does not move"
    if inner is not None and ids & inner.events(G):
        return "moves within the inner loop"
    if not every_round(G, L, ids & ev):
        # a step behind the loop over the columns of a row counts for the round
        return "is not moved in every round"
    for i in ids & ev:
        todo, seen = [t for t, c in G.ev[i].succ], set()
        while todo:
            x = todo.pop()
            if x in seen or x in L.heads or x not in ev:
                continue
            seen.add(x)
            if x in ids:
                return "moves twice in a round"
            if x == use:
                return "moves before the entry is read"
            todo += [t for t, c in G.ev[x].succ if t in G.live]
    return None


def returns_true_from(X, fr, start, stop):
    """ReturnStmts of frame fr reachable from the events `start` without passing `stop` whose value may be true"""
    G = X.G
    seen, todo, out = set(), list(start), []
    while todo:
        i = todo.pop()
        if i in seen or i in stop or i not in G.live:
            continue
        seen.add(i)
        e = G.ev[i]
        if e.kind == "stmt" and e.node["k"] == "ReturnStmt" and e.frame is fr:
            v = G.term(e.frame, e.node["c"][0]) if e.node["c"] and e.node["c"][0] >= 0 else None
            if v != ("int", 0):
                out.append((e, v))
            continue
        todo += [t for t, c in e.succ]
    return out


def decode(R, prog, f):
    dt = dims_of(f.params[1]["t"])
    if dt is None:
        return
    scalar, A, B = dt
    X = MatFn(R, prog, f)
    G = X.G
    con = "decode<%s, %d, %d>" % dt

    def bad(rule, e, msg):
        R.violation(rule, "YAML::convert::decode", msg, e.where() if e is not None else f.where(), "%s (%s)" % (msg, con))
    M = ("param", 1, f.params[1]["n"])
    ROWS = COLS = None
    for e in X.ev("CXXMemberCallExpr"):
        t = norm(G.term(e.frame, e.nid))
        if is_as(t, "rows"):
            ROWS = t
        if is_as(t, "cols"):
            COLS = t
    if ROWS is None or COLS is None:
        bad("key", None, "the sizes are not read from \"rows\" and \"cols\"")
        return
    R.count("matrix readers decided")
    W = list(writes_of(X, M))
    if not W:
        R.note("%s: no element writes recognised" % con)
        return
    # ---- sizes
    if A > 0:
        pass
    sizes = list(X.calls("resize", "conservativeResize", "setZero"))
    sizes = [(e, s, norm(t)) for e, s, t in sizes if len(t) > 3 and norm(t)[2] == M]
    for d, want, name in ((A, ROWS, "rows"), (B, COLS, "cols")):
        if d > 0:
            for e, ix, v, vt, vn in W:
                S = X.at(e)
                if S is not None and not X.F.entails_eq(S, want, ("int", d)):
                    bad("shape", e, "entries are written although \"%s\" may differ from the size of the matrix" % name)
                    break
        else:
            good = []
            for e, s, t in sizes:
                args = t[3:]
                a = None
                if len(args) == 1:
                    a = args[0] if (A == 1 or B == 1) else None
                elif len(args) >= 2:
                    a = args[0 if name == "rows" else 1]
                S = X.at(e)
                if a is not None and S is not None and X.F.entails_eq(S, a, want):
                    good.append(e)
                    if not X.F.entails_ge(S, want, ("int", 0)):
                        bad("shape", e, "the matrix is resized to \"%s\" although that may be negative" % name)
                elif a is not None and a[0] != "call" and "NoChange" not in str(a):
                    bad("shape", e, "the matrix is resized to %s, not to \"%s\"" % (show(a), name))
                elif "NoChange" in str(a):
                    bad("shape", e, "the matrix does not get the size \"%s\"" % name)
            first = [e.id for e, *_ in W]
            ok = {e.id for e in good}
            if not ok or must_pass(G, G.ev[0].id, first, lambda e: e.id in ok) is not None:
                if not any(s == "resize" for _, s, _ in sizes) and any(
                        norm(G.term(e.frame, e.node["c"][-2])) == M for e in X.ev("BinaryOperator", "CXXOperatorCallExpr")
                        if e.node["op"] == "=" and len(e.node["c"]) >= 2):
                    R.note("%s: how the matrix gets its size is not recognised" % con)
                else:
                    bad("shape", W[0][0], "entries are written before the matrix got the size \"%s\"" % name)
    # ---- places
    heads = set()
    bodies = {}
    for e, ix, v, vt, vn in W:
        S = X.at(e)
        if S is None:
            # never reached with these sizes
            for i in ix:
                L = X.loop_of(e, i) if i[0] == "var" else None
                if L is not None:
                    bodies.setdefault(id(L), (L, set()))[1].add(e.id)
            continue
        if vt.replace("const ", "").strip() not in (scalar, scalar + " &"):
            bad("exact", e, "entries of type %s are read as %s" % (scalar, vt))
        if len(ix) != 2:
            R.note("%s: an element write with one index is not decided" % con)
            continue
        a, b = ix
        C = None      # chain of (container, iterator) from the inside
        if not (v[0] == "m" and v[1] == "as"):
            R.note("%s: %s is not recognised as an entry of the file" % (con, show(v)))
            continue
        x = v[2]
        La = X.loop_of(e, a) if a[0] == "var" else None
        Lb = X.loop_of(e, b) if b[0] == "var" else None
        for i, L, want, name in ((a, La, ROWS, "row"), (b, Lb, COLS, "column")):
            other = COLS if want is ROWS else ROWS
            if i[0] == "var" and L is None:
                R.note("%s: the loop over %s is not recognised" % (con, show(i)))
                continue
            if i[0] == "var":
                m = X.upto(L, e, want)
                dim = A if want is ROWS else B
                if m and dim > 0 and X.upto(L, e, ("int", dim)) is None:
                    m = None
                if m and X.upto(L, e, ("m", "rows" if want is ROWS else "cols", M)) is None:
                    m = None
                if m == "?":
                    R.note("%s: the loop over the %ss is not decided" % (con, name))
                elif m:
                    bad("all", e, "the loop over the %ss %s" % (name, m))
            elif i[0] == "int":
                if not X.F.entails_eq(S, want, ("int", 1)) or i[1] != 0:
                    if X.F.entails_eq(S, want, ("int", 1)) or i[1] != 0:
                        bad("place", e, "an entry is written to %s %d" % (name, i[1]))
                    else:
                        bad("all", e, "only one %s is written although the matrix may have more" % name)
        loops = [L for L in (La, Lb) if L is not None]
        for L in loops:
            heads |= L.heads
            bodies.setdefault(id(L), (L, set()))[1].add(e.id)
        if not loops:
            continue
        outer, inner = (La, Lb)
        if La is not None and Lb is not None:
            if Lb.events(G) >= La.events(G):
                outer, inner = Lb, La
            bodies[id(outer)][1].update(inner.heads)
        place(R, X, e, S, x, a, b, outer, inner, La, Lb, ROWS, COLS, A, B, con, bad)
    for L, ids in bodies.values():
        R.count("loops over entries decided")
        if not every_round(G, L, ids & L.events(G)):
            # a round that returns false is fine
            if not all_or_false(X, L, ids):
                bad("all", G.ev[min(ids)], "entries are left out")
        out = []
        ev = L.events(G)
        for i in sorted(ev):
            for t, c in G.ev[i].succ:
                if t in G.live and t not in ev and t not in L.heads:
                    out += returns_true_from(X, G.ev[i].frame, [t], set())
        if out and any(v == ("int", 1) for _, v in out):
            bad("all", out[0][0], "reading stops before all entries were read, and still reports success")
        elif out:
            R.note("%s: what is returned when reading stops early is not decided" % con)
    # ---- nothing read, and yet true
    for fr in {e.frame for e, *_ in W}:
        start = [e.id for e in G.ev if e.kind == "begin" and e.frame is fr]
        for r, v in returns_true_from(X, fr, start, heads):
            S0 = X.F.IN.get(start[0])
            if v != ("int", 1):
                R.note("%s: what is returned without reading entries is not decided" % con)
                continue
            run = X.F.run_from(start[0], lambda q: q.id in heads, S0)
            S = run.get(r.id) if isinstance(run, dict) else X.F.IN.get(r.id)
            if S is None:
                continue
            if not (X.F.entails_eq(S, ROWS, ("int", 0)) or X.F.entails_eq(S, COLS, ("int", 0))):
                bad("all", r, "success is reported although no entry was read")


def all_or_false(X, L, ids):
    G = X.G
    ev = L.events(G)
    # from the body, without the ids: does the test come again?
    seen, todo = set(), [b for b in L.body if b not in ids]
    while todo:
        i = todo.pop()
        if i in seen or i in ids:
            continue
        seen.add(i)
        if i in L.heads:
            return False
        todo += [t for t, c in G.ev[i].succ if t in G.live]
    return True


def size_is(X, S, C, n):
    return any(X.F.entails_eq(S, s, n) for s in (("size", C), ("m", "size", C)))


def place(R, X, e, S, x, a, b, outer, inner, La, Lb, ROWS, COLS, A, B, con, bad):
    """x: the node whose value is written to (a, b)"""
    G = X.G
    R.count("element writes decided")
    prod = ("bin", "*", ROWS, COLS)
    if x[0] == "deref" and x[1][0] == "m" and x[1][1] == "begin" or x[0] == "elem" and x[1][0] == "m" and x[1][1] == "begin" or \
            x[0] == "idx" and x[1][0] == "elem" and x[2:] == (("int", 0),) and inner is not None:
        C = x[1][2] if x[1][0] == "m" else x[1]
        if not size_is(X, S, C, ("int", 1)):
            bad("shape", e, "the first entry of a nested sequence is taken, whose length is not known to be one")
        x = C
    if x[0] == "un" and x[1] == "*" and x[2][0] == "m" and x[2][1] == "begin":
        C = x[2][2]
        if not size_is(X, S, C, ("int", 1)):
            bad("shape", e, "the first entry of a nested sequence is taken, whose length is not known to be one")
        x = C
    if x[0] == "idx":
        c, i = x[1], x[2]
        if c[0] == "idx":
            if c[2] != a or i != b:
                bad("place", e, "entry (%s, %s) of the file is written to (%s, %s)" % (show(c[2]), show(i), show(a), show(b)))
            for cc, n in ((c[1], ROWS), (c, COLS)):
                if not size_is(X, S, cc, n):
                    bad("shape", e, "the number of entries in the file is not known to be the one of the matrix")
        else:
            flat = ("bin", "+", ("bin", "*", a, COLS), b) if b != ("int", 0) else a
            if not X.F.entails_eq(S, i, flat):
                if X.F.entails_eq(S, i, ("bin", "+", ("bin", "*", b, ROWS), a)):
                    bad("place", e, "the entries are read in column order")
                else:
                    R.note("%s: the place %s in the file is not decided" % (con, show(i)))
            if not size_is(X, S, c, prod if b != ("int", 0) else ROWS):
                bad("shape", e, "the number of entries in the file is not known to be the one of the matrix")
        return
    if x[0] != "elem" or len(x) < 3 or not isinstance(x[2], tuple):
        R.note("%s: %s is not recognised as an entry of the file" % (con, show(x)))
        return
    C, it = x[1], x[2]
    st = list(steps_of(X, it))
    D = decl_event(X, it)
    if C[0] == "elem" and len(C) > 2:
        C0, it0 = C[1], C[2]
        st0, D0 = list(steps_of(X, it0)), decl_event(X, it0)
        if inner is None or D is None or D0 is None or not st or not st0:
            R.note("%s: the iterators over the rows are not recognised" % con)
            return
        if outer is not La:
            bad("place", e, "the rows of the file are read as columns")
            return
        if D.id not in outer.events(G) or D.id in inner.events(G):
            bad("place", e, "the iterator over the entries of a row %s" % (
                "is set back for every entry" if D.id in inner.events(G) else "is not set for every row"))
            return
        if D0.id in outer.events(G):
            bad("place", e, "the iterator over the rows is set back for every row")
            return
        for L, inn, s, w, use in ((inner, None, st, "entries of a row", e.id), (outer, inner, st0, "rows", D.id)):
            m = once_per_round(X, L, inn, s, use)
            if m:
                bad("place", e, "the iterator over the %s %s" % (w, m))
        if not size_is(X, S, C0, ROWS):
            bad("shape", e, "the number of rows in the file is not known to be the one of the matrix")
        if not size_is(X, S, C, COLS):
            bad("shape", e, "the number of entries of a row is not known to be the number of columns")
        return
    if D is None or not st:
        R.note("%s: the iterator over the entries is not recognised" % con)
        return
    if D.id in outer.events(G):
        bad("place", e, "the iterator over the entries is set back in every round")
        return
    if inner is None:
        if La is None:
            R.note("%s: a single row is not decided" % con)
            return
        m = once_per_round(X, La, None, st, e.id)
        if m:
            bad("place", e, "the iterator over the entries %s" % m)
        if not size_is(X, S, C, ROWS):
            bad("shape", e, "the number of rows in the file is not known to be the one of the matrix")
        return
    if outer is not La:
        bad("place", e, "the entries are read in column order")
        return
    m = once_per_round(X, inner, None, st, e.id)
    if m:
        bad("place", e, "the iterator over the entries %s" % m)
    if {s.id for s in st} & (outer.events(G) - inner.events(G)):
        bad("place", e, "the iterator over the entries skips entries between the rows")
    if not size_is(X, S, C, prod):
        bad("shape", e, "the number of entries in the file is not known to be the one of the matrix")


def encode(R, prog, f):
    dt = dims_of(f.params[0]["t"])
    if dt is None:
        return
    scalar, A, B = dt
    X = MatFn(R, prog, f)
    G = X.G
    con = "encode<%s, %d, %d>" % dt
    M = ("param", 0, f.params[0]["n"])
    ROWS, COLS = ("m", "rows", M), ("m", "cols", M)

    def bad(rule, e, msg):
        R.violation(rule, "YAML::convert::encode", msg, e.where() if e is not None else f.where(), "%s (%s)" % (msg, con))
    R.count("matrix writers decided")
    seen = {}
    for e in X.ev("CXXOperatorCallExpr", "BinaryOperator"):
        if e.node["op"] == "=" and len(e.node["c"]) >= 2:
            l = norm(G.term(e.frame, e.node["c"][-2]))
            if l[0] == "idx" and l[2][0] == "str":
                seen[l[2][1]] = (e, norm(G.term(e.frame, e.node["c"][-1])))
    for k, want, d in (("rows", ROWS, A), ("cols", COLS, B)):
        if k not in seen:
            bad("key", None, "\"%s\" is not written" % k)
            continue
        e, v = seen[k]
        S = X.at(e)
        if v != want and not X.F.entails_eq(S, v, want) and not (d > 0 and v == ("int", d)):
            bad("key", e, "\"%s\" is written as %s" % (k, show(v)))
    pushes = []
    for e, s, t in X.calls("push_back"):
        t = norm(t)
        if t[2][0] == "idx" and t[2][2] == ("str", "data"):
            pushes.append((e, t[3]))
    if not pushes:
        R.note("%s: how the entries are written is not recognised" % con)
        return
    ids, row = set(), None
    for e, v in pushes:
        R.count("rows written decided")
        S = X.at(e)
        if v[0] == "idx" and v[1] == M and len(v) == 4:
            a, b = v[2], v[3]
            if b[0] == "int":
                if b[1] != 0 or not X.F.entails_le(S, COLS, ("int", 1), 0) and not X.F.entails_ge(S, ("int", 1), COLS) and B != 1:
                    bad("all", e, "only entry %s of a row is written" % show(b))
                L = X.loop_of(e, a) if a[0] == "var" else None
                row = row or L
                if L is None:
                    R.note("%s: the loop over the rows is not recognised" % con)
                    continue
                ids.add(e.id)
            else:
                La, Lb = (X.loop_of(e, i) if i[0] == "var" else None for i in (a, b))
                if La is None or Lb is None:
                    R.note("%s: the loops over the entries are not recognised" % con)
                    continue
                for L, w, n in ((La, ROWS, "rows"), (Lb, COLS, "columns")):
                    m = X.upto(L, e, w)
                    if m and m != "?":
                        bad("all", e, "the loop over the %s %s" % (n, m))
                if Lb.events(G) >= La.events(G):
                    bad("place", e, "the entries are written in column order")
            continue
        ld = [y for y in walk(v) if y[0] == "call" and y[1].endswith("YAML::Load")] or [v]
        em = [y for y in walk(ld[0]) if y[0] in ("var", "ctor") and (y[0] == "var" or "Emitter" in y[1] or "Node" in y[1])]
        if not em:
            R.note("%s: the value %s of a row is not recognised" % (con, show(v)))
            continue
        # entries put into the emitter (or a node that is pushed)
        puts = []
        for e2 in X.ev("CXXOperatorCallExpr", "CXXMemberCallExpr"):
            if e2.node["k"] == "CXXOperatorCallExpr" and e2.node["op"] != "<<":
                continue
            if e2.node["k"] == "CXXMemberCallExpr" and short(e2.node.get("fn", "")) != "push_back":
                continue
            y = norm(G.term(e2.frame, e2.node["c"][-1]))
            if y[0] == "idx" and y[1] == M and len(y) == 4 and e2.id != e.id:
                puts.append((e2, y[2], y[3]))
        puts = [p for p in puts if p[0].id not in ids and p[2][0] != "int"]
        if not puts:
            R.note("%s: the entries of a row are not recognised" % con)
            continue
        for e2, a, b in puts:
            La, Lb = (X.loop_of(e2, i) if i[0] == "var" else None for i in (a, b))
            if La is None or Lb is None:
                R.note("%s: the loops over the entries are not recognised" % con)
                continue
            for L, w, n, d in ((La, ROWS, "rows", A), (Lb, COLS, "columns", B)):
                m = X.upto(L, e2, w)
                if m and d > 0 and X.upto(L, e2, ("int", d)) is None:
                    m = None
                if m and m != "?":
                    bad("all", e2, "the loop over the %s %s" % (n, m))
            if Lb.events(G) >= La.events(G):
                bad("place", e2, "the entries are written in column order")
            elif not every_round(G, Lb, {p[0].id for p in puts}):
                bad("all", e2, "entries of a row are left out")
            if e.id in Lb.events(G):
                bad("place", e, "an unfinished row is written")
            elif e.id not in La.events(G):
                bad("place", e, "the rows are written as one")
            row = row or La
        ids.add(e.id)
    if row is not None:
        m = X.upto(row, G.ev[min(row.body)], ROWS)
        if m and A > 0 and X.upto(row, G.ev[min(row.body)], ("int", A)) is None:
            m = None
        if m and m != "?":
            bad("all", G.ev[min(row.body)], "the loop over the rows %s" % m)
        if not every_round(G, row, ids):
            bad("all", G.ev[min(row.body)], "rows are left out")
        for i in sorted(ids):
            todo, seen_ = [t for t, c in G.ev[i].succ], set()
            while todo:
                y = todo.pop()
                if y in seen_ or y in row.heads or y not in row.events(G):
                    continue
                seen_.add(y)
                if y in ids:
                    bad("place", G.ev[y], "a row is written twice")
                    todo = []
                    break
                todo += [t for t, c in G.ev[y].succ if t in G.live]
    for e, s, t in list(X.calls("SetDoublePrecision", "SetFloatPrecision", "DoublePrecision", "FloatPrecision", "Precision")):
        k = [y[1] for y in walk(t) if y[0] == "int"]
        need = 17 if "ouble" in s or s == "Precision" else 9
        if not k or min(k) < need:
            bad("exact", e, "the entries are written with %s digits, not the %d that bring every value back" % (
                min(k) if k else "an unknown number of", need))


# ------------------------------------------------------------------------------------------------ readers and writers
BOOLS = re.compile(r"^(Is\w+|operator bool|good|is_open|fail|bad|eof|isValid|empty|hasKey|operator!)\(\)$")


class Yam(Sym):
    """YAML calls may raise; booleans are two-valued; safeGet is modelled unless it is what is looked at"""
    rethrow = cases = True

    def __init__(self, prog, reader=False, **kw):
        super().__init__(prog, **kw)
        self.reader = reader

    def throws(self, n):
        fn = strip_tmpl(n.get("fn", ""))
        return n["k"] in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr") and (
            fn in ("YAML::Node::as", "YAML::LoadFile", "YAML::Load", "YAML::Node::push_back", "YAML::LoadAll") or
            fn == "YAML::operator<<" or fn == "YAML::Node::operator=")

    def catches(self, t):
        t = t.replace("const ", "").replace("&", "").replace("class ", "").strip()
        return t in BASES

    def order(self, p, a, b):
        a, b = self.rval(p, a), self.rval(p, b)
        for x, y, f in ((a, b, False), (b, a, True)):
            if y == 0 and self.two(x):
                k = (x, 0)
                if k in p.rel:
                    r = p.rel[k]
                    return [(p, {"lt": "gt", "gt": "lt"}.get(r, r) if f else r)]
                out = []
                for r in ("eq", "gt"):
                    q = p.copy()
                    q.rel[k] = r
                    out.append((q, {"gt": "lt"}.get(r, r) if f else r))
                return out
        return super().order(p, a, b)

    def two(self, x):
        if isinstance(x, tuple) and x and x[0] == "w" and isinstance(x[1][-1], str):
            return bool(BOOLS.match(x[1][-1]))
        return isinstance(x, tuple) and x and (x[0] == "call" and (
            short(x[1]).startswith(("operator==", "operator!=", "is", "Is", "has", "loadFrom", "deserialize", "serialize", "safeGet",
                                    "fromHex", "check"))))

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        s = short(n.get("fn", ""))
        if s == "safeGet" and not self.reader and len(vs) == 3:
            out = []
            k = keyname(self.prog, self.rval(q, vs[1]))
            a = q.copy()
            a.trace.append(("get", self.snap(q, vs[0]), k, vs[2], False))
            out.append((a, 0))
            b = q.copy()
            dst = self.rval(b, vs[2])
            b.trace.append(("get", self.snap(q, vs[0]), k, vs[2], True))
            if isinstance(dst, tuple) and dst[0] in ("ptr", "ref"):
                self.drop(b, dst[1])
                b.mem[dst[1]] = ("yaml", self.snap(q, vs[0]), k)
            out.append((b, 1))
            return out
        out = list(super().apply(fn, n, fn2, q, obj, vs, env, fid))
        if self.reader and n.get("op") == "[]" and strip_tmpl(n.get("fn", "")) == "YAML::Node::operator[]" and \
                isinstance(obj, tuple) and obj[0] == "ref" and obj[1] == (("param", 0),):
            # text has no entries
            k = (("w", obj[1] + ("IsMap()",)), 0)
            if q.rel.get(k, "eq") == "eq":
                out.append((q.copy(), THROW))
        return out


def keyname(prog, v):
    """the constant string a key is"""
    for _ in range(6):
        if not isinstance(v, tuple) or not v:
            return None
        if v[0] == "str":
            return v[1]
        if v[0] == "new" and "basic_string" in v[1] and v[2]:
            v = v[2][0]
            continue
        if v[0] in ("w", "ptr", "ref") and isinstance(v[1], tuple):
            c = v[1][0]
            if isinstance(c, tuple) and c[0] == "glob":
                g = prog.globals.get(c[1]) or {}
                return g.get("str")
            return None
        return None
    return None


def runs(prog, f, I):
    try:
        return I.run(f)
    except Limit:
        return None


def content(p, v, depth=0):
    """v with every local variable and temporary replaced by what it holds"""
    if depth > 8 or not isinstance(v, tuple) or not v:
        return v
    if v[0] in ("w", "ref", "ptr") and len(v) == 2 and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple):
        c = v[1]
        for i in range(len(c), 0, -1):
            if c[:i] in p.mem and c[0][0] in ("var", "tmp", "ret"):
                base = content(p, p.mem[c[:i]], depth + 1)
                rest = c[i:]
                if not rest:
                    return base
                if isinstance(base, tuple) and base and base[0] in ("w", "ref", "ptr"):
                    return content(p, ("w", base[1] + rest), depth + 1)
                return ("of", base, rest)
        return ("w", tuple(content(p, s, depth + 1) if isinstance(s, tuple) and s and s[0] == "ix" else s for s in c)) \
            if v[0] != "ptr" else v
    return tuple(content(p, x, depth + 1) if isinstance(x, tuple) else x for x in v)


def file_name(v):
    """the parameter number whose content names a file"""
    for x in walk(v):
        if x[0] == "param" and len(x) == 2:
            return x[1]
    return None


def known(p, *cells):
    """True / False / None: what p knows of the two-valued cells"""
    for k, r in p.rel.items():
        if len(k) == 2 and 0 in k:
            x = k[0] if k[1] == 0 else k[1]
            if x in cells:
                return r != "eq"
    return None


def readers(R, prog, fs):
    def bad(rule, f, msg):
        R.violation(rule, f.qual, msg, f.where(), msg)
    done = set()
    for f in fs:
        if f.short == "safeGet" and len(f.params) == 3:
            I = Yam(prog, reader=True)
            rs = runs(prog, f, I)
            if rs is None:
                R.note("%s: too many ways through" % f.name)
                continue
            R.count("safeGet instances decided")
            done.add("safeGet")
            for p, v in rs:
                v = I.rval(p, v)
                now = p.mem.get((("param", 2),))
                touched = any(c[0] == ("param", 2) for c in p.mem)
                if v == THROW:
                    bad("quiet", f, "safeGet lets an exception of the YAML library escape")
                elif v == 0:
                    if touched:
                        bad("true", f, "safeGet returns false after it changed the value")
                elif v == 1:
                    if now is None:
                        bad("true", f, "safeGet returns true without having filled in the value")
                        continue
                    x = content(p, now)
                    want = ("w", (("param", 0), ("ix", ("w", (("param", 1),))), "as()"))
                    if x != want:
                        if "as()" in str(x) or isinstance(x, tuple) and x[0] in ("w", "new") or isinstance(x, int):
                            bad("true", f, "safeGet returns true with a value that is not the one at the key")
                        else:
                            R.note("%s: the value %s is not decided" % (f.qual, str(x)[:80]))
                else:
                    R.note("%s: the result %s is not decided" % (f.qual, str(v)[:80]))
        elif f.short == "hasKey" and len(f.params) == 2:
            I = Yam(prog, reader=True)
            rs = runs(prog, f, I)
            if rs is None:
                R.note("hasKey: too many ways through")
                continue
            done.add("hasKey")
            ex = ("w", (("param", 0), ("ix", ("w", (("param", 1),))), "operator bool()"))
            for p, v in rs:
                v = content(p, I.rval(p, v))
                R.count("hasKey outcomes decided")
                there = None
                for k, r in p.rel.items():
                    if len(k) == 2 and 0 in k and content(p, k[0] if k[1] == 0 else k[1]) in (
                            ex, ("w", ex[1][:-1] + ("IsDefined()",))):
                        there = r != "eq"
                if v == THROW:
                    bad("quiet", f, "hasKey lets an exception escape")
                elif v in (ex, ("w", ex[1][:-1] + ("IsDefined()",))):
                    pass
                elif v == 1 and there is not True:
                    bad("true", f, "hasKey returns true for a key that is not there")
                elif v == 0 and there is True:
                    bad("true", f, "hasKey returns false for a key that is there")
                elif v == 0 and there is None and known(p, ("w", (("param", 0), "IsMap()"))) is not False:
                    bad("true", f, "hasKey returns false without having looked")
                elif v not in (0, 1):
                    if "operator bool" in str(v) or "Is" in str(v) or "operator!" in str(v):
                        bad("true", f, "hasKey answers with something else than whether the key is there")
                    else:
                        R.note("hasKey: the result %s is not decided" % str(v)[:80])
        elif f.short == "Load" and len(f.params) == 2:
            I = Yam(prog, reader=True)
            rs = runs(prog, f, I)
            if rs is None:
                R.note("Load: too many ways through")
                continue
            R.count("Load instances decided")
            done.add("Load")
            for p, v in rs:
                v = I.rval(p, v)
                touched = [c for c in p.mem if c[0] == ("param", 1)]
                if v == THROW:
                    bad("quiet", f, "Load lets an exception of the YAML library escape")
                elif v == 0 and touched:
                    bad("true", f, "Load returns false after it changed the object")
                elif v == 1:
                    x = content(p, p.mem.get((("param", 1),)))
                    if not touched:
                        bad("true", f, "Load returns true without having read the object")
                    elif "LoadFile" in str(x) and "as()" in str(x) or "YAML::Load" in str(x):
                        if file_name(x) != 0:
                            bad("true", f, "Load reads another file than the one named")
                    else:
                        R.note("Load: the value %s is not decided" % str(x)[:80])
        elif f.short == "Save" and len(f.params) == 2 and "ostream" in f.params[1]["t"]:
            I = Yam(prog, reader=True)
            rs = runs(prog, f, I)
            if rs is None:
                R.note("Save: too many ways through")
                continue
            R.count("Save instances decided")
            done.add("Save")
            for p, v in rs:
                v = content(p, I.rval(p, v))
                put = [t for t in p.trace if t[0].endswith("operator<<") and t[2] and "YAML" in t[0]]
                if v == THROW:
                    bad("quiet", f, "Save lets an exception of the YAML library escape")
                elif v == 0:
                    pass
                else:
                    if not put:
                        bad("true", f, "Save returns true without having written")
                        continue
                    for t in put:
                        if ("ref", (("param", 1),)) not in t[2] and ("ptr", (("param", 1),)) not in t[2]:
                            bad("true", f, "Save writes to another stream")
                        x = content(p, t[2][-1])
                        if x != ("w", (("param", 0),)):
                            if x == ("w", (("var",),)) or "param" not in str(x):
                                bad("true", f, "Save writes something else than the object")
                            else:
                                R.note("Save: what is written is not decided: %s" % str(x)[:80])
                    st = stream_ok(p, (("param", 1),), put, v)
                    if st is False:
                        bad("written", f, "Save returns true although writing may have failed")
        elif f.short == "Save" and len(f.params) == 2:
            I = Yam(prog, reader=True, opaque=lambda g: g.short == "Save")
            rs = runs(prog, f, I)
            done.add("SaveFile")
            for p, v in rs or ():
                v = I.rval(p, v)
                R.count("Save to file outcomes decided")
                calls = [t for t in p.trace if t[0].endswith("Save")]
                if isinstance(v, tuple) and v[:1] == ("call",) and v[1].endswith("Save"):
                    if ("ref", (("param", 0),)) not in v[3] and ("w", (("param", 0),)) not in v[3]:
                        bad("true", f, "Save writes something else than the object")
                elif v not in (0, THROW):
                    if not calls:
                        bad("true", f, "Save returns true without having written")
                    elif not any("Save" in str(k) and r != "eq" for k, r in p.rel.items()):
                        bad("true", f, "Save returns true although writing may have failed")
    for k in ("safeGet", "hasKey", "Load", "Save"):
        if k not in done:
            R.need(False, "%s was not found" % k)


def stream_ok(p, cell, put, v):
    """the stream was flushed and found good after the writing: True / False"""
    flags = ("good()", "operator bool()", "fail()", "bad()", "operator!()")
    last = max(i for i, t in enumerate(p.trace) if t in put)
    later = [t for t in p.trace[last + 1:] if t[1] is not None and str(cell[0]) in str(t[1])]
    names = [short(t[0]) for t in later]
    if not any(n in ("flush", "close") for n in names):
        return False
    i = max(k for k, n in enumerate(names) if n in ("flush", "close"))
    if not any(n in ("good", "operator bool", "fail", "bad", "operator!", "is_open") for n in names[i + 1:]):
        # the test may be in the value
        return any(str(cell[0]) in str(v) and g in str(v) for g in flags)
    if v in (0, 1):
        for k, r in p.rel.items():
            if len(k) == 2 and 0 in k:
                x = k[0] if k[1] == 0 else k[1]
                if isinstance(x, tuple) and x[0] == "w" and x[1][:1] == cell and x[1][-1] in flags:
                    return (r != "eq") == (x[1][-1] in ("good()", "operator bool()"))
        return False
    return True


def files(R, prog, fs):
    def bad(rule, f, msg):
        R.violation(rule, f.qual, msg, f.where(), msg)
    for f in fs:
        if f.short == "deserializeFromFile":
            I = Yam(prog, reader=True)
            rs = runs(prog, f, I)
            if rs is None:
                R.note("deserializeFromFile: too many ways through")
                continue
            for p, v in rs:
                R.count("deserializeFromFile outcomes decided")
                v = I.rval(p, v)
                calls = [t for t in p.trace if short(t[0]) == "deserialize"]
                if v == THROW:
                    bad("quiet", f, "deserializeFromFile lets an exception of the YAML library escape")
                    continue
                for t in calls:
                    x = content(p, t[2][0]) if t[2] else None
                    if "LoadFile" not in str(x):
                        bad("true", f, "deserializeFromFile reads something else than the file")
                    elif file_name(x) != 0:
                        bad("true", f, "deserializeFromFile reads another file than the one named")
                res = v
                if isinstance(res, tuple) and res[:1] == ("call",) and short(res[1]) == "deserialize":
                    continue
                if v == 0:
                    if calls and not any("deserialize" in str(k) and r == "eq" for k, r in p.rel.items()):
                        bad("true", f, "deserializeFromFile drops the result of reading")
                elif v == 1:
                    if not calls or not any("deserialize" in str(k) and r != "eq" for k, r in p.rel.items()):
                        bad("true", f, "deserializeFromFile reports success that the reader did not report")
                else:
                    R.note("deserializeFromFile: the result %s is not decided" % str(v)[:80])
        elif f.short == "serializeToFile":
            I = Yam(prog, reader=True)
            rs = runs(prog, f, I)
            if rs is None:
                R.note("serializeToFile: too many ways through")
                continue
            for p, v in rs:
                R.count("serializeToFile outcomes decided")
                if v == THROW:
                    continue
                ser = [i for i, t in enumerate(p.trace) if short(t[0]) == "serialize"]
                put = [t for t in p.trace if t[0].endswith("operator<<") and "YAML" in t[0]]
                if not ser:
                    bad("written", f, "serializeToFile does not ask the object for its values")
                    continue
                if not put:
                    bad("written", f, "serializeToFile writes nothing")
                    continue
                s = p.trace[ser[0]]
                for t in put:
                    out, node = t[2][0], t[2][1]
                    if p.trace.index(t) < ser[0]:
                        bad("written", f, "the file is written before the object gave its values")
                    if s[2] and s[2][0][1] != node[1]:
                        bad("written", f, "serializeToFile writes another node than the object's")
                    if isinstance(out, tuple) and out[0] in ("ref", "ptr"):
                        o = p.mem.get(out[1])
                        mode = o[2][1] if isinstance(o, tuple) and o[0] == "new" and len(o[2]) > 1 else 16
                        if isinstance(mode, int) and (mode & 1 or mode & 8 and not mode & 32):
                            bad("written", f, "what the file held before stays in it")
                        if o is not None and file_name(o) != 0 and "open" not in str(p.trace):
                            bad("written", f, "serializeToFile writes another file than the one named")
                        if not checked(p, out[1], put):
                            bad("written", f, "serializeToFile returns although writing may have failed")


def checked(p, cell, put):
    last = max(i for i, t in enumerate(p.trace) if t in put)
    closed = False
    for t in p.trace[last + 1:]:
        n = short(t[0])
        if t[1] is not None and str(cell[0]) in str(t[1]):
            if n in ("flush", "close"):
                closed = True
            elif closed and n in ("good", "fail", "bad", "operator bool", "operator!"):
                for k, r in p.rel.items():
                    x = k[0] if len(k) == 2 and k[1] == 0 else k[1] if len(k) == 2 and k[0] == 0 else None
                    if isinstance(x, tuple) and x[0] == "w" and x[1][:1] == cell[:1] and x[1][-1] == n + "()":
                        return (r != "eq") == (n in ("good", "operator bool"))
    return False


# ------------------------------------------------------------------------------------------------ sensors
QUIETLY = ("hexString", "fromHexString", "generateId", "isValid", "operator<<", "printString", "shortHex", "printParameters")


def closed(f):
    return f.short in QUIETLY or f.short.endswith("Impl") or (f.short == "operator==" and "HashId" in f.qual)


def field_of(v):
    """name of the field of this that the value comes from"""
    fs = {x[1][1] for x in walk(v) if x[0] in ("w", "ref", "ptr") and len(x) == 2 and isinstance(x[1], tuple) and len(x[1]) > 1 and
          x[1][0] == ("this",) and isinstance(x[1][1], str) and not x[1][1].endswith("()")}
    return fs.pop() if len(fs) == 1 else None


def keyed(prog, p, node, field=True):
    """{key: value} of what path p stored in the node at cell `node`"""
    out = {}
    for c, v in p.mem.items():
        if len(c) == len(node) + 1 and c[:len(node)] == node and isinstance(c[-1], tuple) and c[-1][0] == "ix":
            k = keyname(prog, c[-1][1])
            out[k] = content(p, v)
    return out


def gets(p):
    return [t for t in p.trace if t[0] == "get"]


def parity(R, prog, save, load, bad, what, skip=()):
    """every field that save writes under a key is what load fills in from that key"""
    I = Yam(prog, opaque=closed)
    rs = runs(prog, save, I)
    J = Yam(prog, opaque=closed)
    rl = runs(prog, load, J)
    if rs is None or rl is None:
        R.note("%s: too many ways through" % what)
        return None
    rs = [(p, v) for p, v in rs if v != THROW]
    written = {}
    for p, v in rs:
        ks = keyed(prog, p, (("param", 0),))
        if None in ks:
            R.note("%s: a key is not constant" % what)
        for k, x in ks.items():
            if k is not None:
                written.setdefault(k, set()).add(repr(x))
                written.setdefault(("v", k), []).append(x)
    keys = [k for k in written if isinstance(k, str)]
    for p, v in rs:
        ks = keyed(prog, p, (("param", 0),))
        for k in keys:
            if k not in ks and k not in skip:
                bad("keys", save, "\"%s\" is not always written" % k)
                break
    fields = {k: {field_of(x) for x in written[("v", k)]} for k in keys}
    names = {}
    for k in keys:
        for f in fields[k]:
            if f is not None and k not in skip:
                names.setdefault(f, set()).add(k)
                R.count("written fields decided")
    read = {}
    for p, v in rl:
        v = J.rval(p, v)
        if v == 0 or v == THROW:
            continue
        for t in gets(p):
            _, node, k, dst, ok = t
            if not ok or k is None:
                continue
            read.setdefault(k, [])
            dst = dst[1] if isinstance(dst, tuple) and dst[0] in ("ptr", "ref") else None
            if dst and dst[0] == ("this",):
                x = p.mem.get(dst)
                kept = isinstance(x, tuple) and x[:1] == ("yaml",) and x[2] == k
                read[k].append((dst[1], kept))
            else:
                # handed on: to a field's method or assigned to a field
                hit = None
                for c, x in p.mem.items():
                    if c[0] == ("this",) and len(c) > 1 and any(y[0] == "yaml" and y[2] == k for y in walk(content(p, x)) if len(y) > 2):
                        hit = (c[1], True)
                for u in p.trace:
                    if u[0] != "get" and isinstance(u[1], tuple) and u[1][0] == "ref" and u[1][1][0] == ("this",) and \
                            len(u[1][1]) > 1 and any(len(y) > 2 and y[0] == "yaml" and y[2] == k for a in u[2] for y in walk(content(p, a))):
                        hit = (u[1][1][1], True)
                read[k].append(hit)
    if not read:
        R.note("%s: no reads recognised" % what)
        return written, {}
    for f, ks in sorted(names.items()):
        for k in sorted(ks):
            if k not in read:
                others = [r for r in read if any(h and h[0] == f for h in read[r])]
                bad("keys", load, "%s is written under \"%s\" but %s" % (
                    f, k, "read from \"%s\"" % others[0] if others else "never read"))
                continue
            hits = [h for h in read[k] if h is not None]
            wrong = [h for h in hits if h[0] != f]
            if wrong:
                bad("keys", load, "\"%s\" holds %s but is read into %s" % (k, f, wrong[0][0]))
            elif any(not h[1] for h in hits):
                bad("keys", load, "the value read from \"%s\" is replaced before it can be used" % k)
            elif not hits:
                R.note("%s: where the value of \"%s\" goes is not recognised" % (what, k))
    for k in sorted(read):
        if k not in keys:
            dst = {h[0] for h in read[k] if h}
            if dst:
                bad("keys", save, "\"%s\" is read into %s but never written" % (k, sorted(dst)[0]))
    return written, read


def sensors(R, prog, fs):
    def bad(rule, f, msg):
        R.violation(rule, f.qual, msg, f.where(), msg)
    by = {}
    for f in fs:
        if f.short in ("serialize", "deserialize") and f.qual.split("::")[-2] == "Sensor":
            by[f.short] = f
    R.need(len(by) == 2, "Sensor::serialize and deserialize were not found")
    if len(by) < 2:
        return
    parity(R, prog, by["serialize"], by["deserialize"], bad, "Sensor")
    J = Yam(prog, opaque=closed)
    rl = runs(prog, by["deserialize"], J)
    impl = lambda n: n.endswith("loadFromYamlNodeImpl")
    for p, v in rl or ():
        v = J.rval(p, v)
        R.count("ways through Sensor::deserialize decided")
        calls = [t for t in p.trace if impl(t[0])]
        if v == THROW:
            R.note("Sensor::deserialize lets an exception pass")
        elif v != 0 and not (isinstance(v, tuple) and v[:1] == ("call",) and impl(v[1])) and \
                not (calls and any("loadFromYamlNodeImpl" in str(k) and r != "eq" for k, r in p.rel.items())):
            bad("true", by["deserialize"], "Sensor::deserialize reports success that the sensor's own reader did not report")
        elif v == 0 and calls and not any("loadFromYamlNodeImpl" in str(k) and r == "eq" for k, r in p.rel.items()):
            bad("true", by["deserialize"], "Sensor::deserialize drops the result of the sensor's own reader")
        elif v == 0 and gets(p) and not calls and False:
            pass
        if v not in (0, THROW):
            idg = [t for t in gets(p) if t[2] == "id"]
            took = any(t[0].endswith("fromHexString") for t in p.trace)
            made = any(t[0].endswith("generateId") for t in p.trace)
            if idg and idg[-1][4] and not took and not any(c[:2] == (("this",), "id_") for c in p.mem):
                bad("keys", by["deserialize"], "the id that the file holds is not taken")
            if took and made:
                bad("keys", by["deserialize"], "the id that was read is replaced by a new one")
            if not took and not made and not any(c[:2] == (("this",), "id_") for c in p.mem):
                bad("keys", by["deserialize"], "without an id in the file the sensor keeps its old one")
    I = Yam(prog, opaque=closed)
    for p, v in runs(prog, by["serialize"], I) or ():
        if v != THROW and not any(t[0].endswith("saveToYamlNodeImpl") for t in p.trace):
            bad("keys", by["serialize"], "the sensor's own values are not written")


def P18(R):
    R.rule("key", "the sizes of a matrix are written and read under \"rows\" and \"cols\"")
    R.rule("all", "the loops over rows and columns run over all of them, in every round an entry is written / read; success is not "
           "reported when reading stopped early or did not start")
    R.rule("place", "the entry at (row, column) is the one the row-major order of the file puts there: iterators start outside, move "
           "once per round and after use")
    R.rule("shape", "entries are only stored when the sizes in the file fit the type, are not negative, the matrix got that size, and "
           "the number of entries in the file was compared")
    R.rule("exact", "entries are read as the matrix' own scalar type and written with all digits")
    R.rule("true", "outcomes of safeGet, hasKey, Load, Save, deserializeFromFile over all ways through, raising calls included: true "
           "only with the value of that key / file stored, false with nothing changed")
    R.rule("quiet", "no exception of the YAML library leaves the checked readers and writers")
    R.rule("written", "success is reported only after the stream was flushed and found good")
    R.rule("keys", "every field that serialize writes under a key is what deserialize fills in from that key; the derived class is asked")
    prog = programs.common("common_headers.cc")
    fs = sorted((f for f in prog.fns.values() if f.blocks and (any(x in f.file for x in (EIGEN, READ, FILE)) or
                                                               "src/sensor.cc" in f.file or "common/sensor.h" in f.file)),
                key=lambda f: (f.file, f.line, f.key))
    for f in fs:
        if EIGEN in f.file and f.short == "decode" and len(f.params) == 2:
            decode(R, prog, f)
        if EIGEN in f.file and f.short == "encode" and len(f.params) == 1:
            encode(R, prog, f)
    readers(R, prog, fs)
    files(R, prog, fs)
    sensors(R, prog, fs)
    R.atleast("matrix readers decided", 4)
    R.atleast("matrix writers decided", 4)
    R.count("functions", len(fs))


CHECKS = {"P18": P18}
