"""Finite-domain dataflow for classes whose guarded state is a handful of flags and counters: every event is mapped to the
set of abstract states (flags exact, counters 0/1/2/many) that reach it. Used to decide whether a waiter that was blocked
before a critical section is still blocked after it."""
import itertools
from .graph import *
from .graph import is_cv_type
from .facts import Facts
from .ir import short

MANY = 3


def iv(v):
    return (v, v) if v < MANY else (MANY, None)


def cmp_iv(op, a, b):
    """truth of a op b over intervals, or None"""
    (al, ah), (bl, bh) = a, b
    if op == ">":
        return cmp_iv("<", b, a)
    if op == ">=":
        r = cmp_iv("<", a, b)
        return None if r is None else not r
    if op == "<=":
        r = cmp_iv("<", b, a)
        return None if r is None else not r
    if op == "<":
        if ah is not None and ah < bl:
            return True
        if bh is not None and al >= bh:
            return False
        return None
    if op == "!=":
        r = cmp_iv("==", a, b)
        return None if r is None else not r
    if op == "==":
        if al == ah and bl == bh and al == bl:
            return True
        if ah is not None and ah < bl or bh is not None and bh < al:
            return False
        return None


class FiniteFlow:
    def __init__(self, G, F, fields, clamp=False):
        """fields: {name: 'bool'|'int'} of this"""
        self.G, self.F, self.clamp = G, F, clamp
        self.names = sorted(fields)
        self.kind = fields
        self.pos = {n: i for i, n in enumerate(self.names)}
        self.dom = [(0, 1) if fields[n] == "bool" else (0, 1, 2, MANY) for n in self.names]

    def all_states(self):
        return [tuple(x) for x in itertools.product(*self.dom)]

    def field(self, t):
        if t[0] == "fld" and t[1] == ("this",) and t[2] in self.pos:
            return t[2]
        return None

    # ---------------------------------------------------------------- values
    def val(self, t, s, ex):
        """interval of an integer/boolean term"""
        if t[0] == "int":
            return (int(t[1]), int(t[1]))
        f = self.field(t)
        if f:
            return iv(s[self.pos[f]])
        for loc, v in ex:
            if loc == t:
                return v
        if t[0] == "un" and t[1] == "!":
            b = self.truth(t[2], s, ex)
            return None if b is None else ((0, 0) if b else (1, 1))
        if t[0] == "un" and t[1] in ("+",):
            return self.val(t[2], s, ex)
        if t[0] == "bin" and t[1] in ("+", "-") and len(t) == 4:
            a, b = self.val(t[2], s, ex), self.val(t[3], s, ex)
            if a is None or b is None:
                return None
            if t[1] == "+":
                return (a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])
            if b[1] is None:
                return None
            if a[0] - b[1] < 0:
                return None
            return (a[0] - b[1], None if a[1] is None else a[1] - b[0])
        if t[0] == "bin" and t[1] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|"):
            b = self.truth(t, s, ex)
            return None if b is None else ((1, 1) if b else (0, 0))
        if t[0] == "cond":
            b = self.truth(t[1], s, ex)
            if b is not None:
                return self.val(t[2] if b else t[3], s, ex)
            x, y = self.val(t[2], s, ex), self.val(t[3], s, ex)
            if x is None or y is None:
                return None
            return (min(x[0], y[0]), None if x[1] is None or y[1] is None else max(x[1], y[1]))
        return None

    def truth(self, t, s, ex):
        if t[0] == "bin" and len(t) == 4:
            op = t[1]
            if op in ("&&", "||", "&", "|"):
                a, b = self.truth(t[2], s, ex), self.truth(t[3], s, ex)
                if op[0] == "&":
                    return False if a is False or b is False else True if a and b else None
                return True if a or b else False if a is False and b is False else None
            if op in ("<", ">", "<=", ">=", "==", "!="):
                a, b = self.val(t[2], s, ex), self.val(t[3], s, ex)
                return None if a is None or b is None else cmp_iv(op, a, b)
        if t[0] == "un" and t[1] == "!":
            r = self.truth(t[2], s, ex)
            return None if r is None else not r
        v = self.val(t, s, ex)
        if v is None:
            return None
        if v[0] > 0:
            return True
        if v == (0, 0):
            return False
        return None

    # ---------------------------------------------------------------- flow
    def edge(self, A, c):
        if c[0] == "if":
            t, pol = self.F.cond_term(c[1], c[2]), c[3]
        elif c[0] == "ret":
            r = c[1].fn.simple_return()
            t, pol = (self.G.term(c[1], r) if r is not None else ("ret", c[1].id)), c[2]
        else:
            return A
        out = frozenset(x for x in A if self.truth(t, x[0], x[1]) in (pol, None))
        return out or None

    def put(self, s, f, vals):
        i = self.pos[f]
        return [s[:i] + (v,) + s[i + 1:] for v in vals]

    def step_field(self, s, f, d, val):
        i = self.pos[f]
        cur = s[i]
        if self.kind[f] == "bool":
            if d == "set" and val is not None and (val[0] > 0 or val == (0, 0)):
                return self.put(s, f, [1 if val[0] > 0 else 0])
            return self.put(s, f, [0, 1])
        if d == "+1":
            return self.put(s, f, [min(cur + 1, MANY)])
        if d == "-1":
            if cur == 0:
                # outside the contract (release without acquire)
                return self.put(s, f, [0]) if self.clamp else []
            return self.put(s, f, [cur - 1] if cur < MANY else [MANY - 1, MANY])
        if d == "set" and val is not None:
            hi = MANY if val[1] is None else min(val[1], MANY)
            return self.put(s, f, range(min(val[0], MANY), hi + 1))
        return self.put(s, f, [0, 1, 2, MANY])

    def transfer(self, e, A):
        if e.kind != "stmt":
            return A
        n, fr, G = e.node, e.frame, self.G
        k, c = n["k"], n["c"]
        if k == "DeclStmt":
            for d in n["decls"]:
                loc = ("var", fr.id, d["d"], d["n"])
                t = d["t"].replace("const ", "")
                if d.get("init") is not None and not d.get("ref") and G._scalar(t):
                    A = self.local(A, loc, self.F.ret_subst(G.term(fr, d["init"]), fr, d["init"]), e, d["init"])
                else:
                    A = self.local(A, loc, None, e, None)
            return A
        if k == "ReturnStmt" and fr.parent is not None and c and c[0] >= 0:
            return self.local(A, ("ret", fr.id), self.F.ret_subst(G.term(fr, c[0]), fr, c[0]), e, c[0])
        tgt, d, val = None, None, None
        if k == "BinaryOperator" and n["op"] == "=":
            tgt, d, val = c[0], "set", G.term(fr, c[1])
            val = self.F.ret_subst(val, fr, c[1])
        elif k == "CompoundAssignOperator":
            tgt = c[0]
            v = G.term(fr, c[1])
            d = {"+=": "+1", "-=": "-1"}.get(n["op"]) if v == ("int", 1) else None
        elif k == "UnaryOperator" and n["op"] in ("++", "--"):
            tgt, d = c[0], "+1" if n["op"] == "++" else "-1"
        elif k == "CallExpr" and short(n.get("fn", "")) in ("exchange", "swap") and len(c) > 2:
            out = A
            for i in (1, 2):
                f = self.field(G.term(fr, c[i]))
                if f:
                    v = G.term(fr, c[2]) if short(n["fn"]) == "exchange" else None
                    out = self.write(out, f, "set" if v else None, v, e)
            return out
        if tgt is None:
            return A
        t = G.term(fr, tgt)
        f = self.field(t)
        if f:
            return self.write(A, f, d, val, e)
        if t[0] == "var":
            return self.local(A, t, val if d == "set" else None, e, None)
        return A

    def local(self, A, loc, val, e, nid):
        out = set()
        for s, ex in A:
            v = self.val(val, s, ex) if val is not None else None
            ex2 = frozenset(x for x in ex if x[0] != loc)
            if v is None and val is not None:
                b = self.truth(val, s, ex)
                v = None if b is None else ((1, 1) if b else (0, 0))
            if v is not None:
                ex2 |= {(loc, v)}
            out.add((s, ex2))
        return frozenset(out)

    def write(self, A, f, d, val, e):
        out = set()
        for s, ex in A:
            v = self.val(val, s, ex) if val is not None else None
            ex2 = frozenset(x for x in ex if x[0] != ("#w",)) | {(("#w",), (e.id, e.id))}
            for s2 in self.step_field(s, f, d, v):
                out.add((s2, ex2))
        return frozenset(out)

    def run(self, init, start=None, stop=None, special=None):
        def tr(e, A):
            if special is not None:
                r = special(e, A)
                if r is not None:
                    return r
            return self.transfer(e, A)
        return forward(self.G, frozenset(init), tr, lambda A, B: A | B, self.edge, start=start, stop=stop)


def blocked_states(w, F, fields, wait_ids_same_cv):
    """abstract states in which the waiter, woken up, goes back to waiting on the same condition variable"""
    G = w.G
    FF = FiniteFlow(G, F, fields, clamp=True)
    heads = [t for t, c in w.e.succ if G.ev[t].kind == "cbhead"]
    body = None
    if heads:
        body = {w.e.id} | set(heads)
        for x in G.live:
            fr = G.ev[x].frame
            while fr is not None:
                if fr.call == w.e.nid and fr.parent is w.e.frame:
                    body.add(x)
                    break
                fr = fr.parent
        for x in G.live:  # joins of the callback
            if G.ev[x].kind in ("cbtail", "cbend") and G.ev[x].nid == w.e.nid:
                body.add(x)
    out = set()
    for s in FF.all_states():
        stop = lambda ev: ev.id in wait_ids_same_cv
        IN = FF.run([(s, frozenset())], start=w.e.id, stop=stop)
        if body is not None:
            ok = all(x in body for x in IN)
        else:
            # every path ends in a wait on the same condition variable
            ok = G.exit not in IN and not any(is_other_wait(G.ev[x]) and x not in wait_ids_same_cv for x in IN)
        if ok:
            out.add(s)
    return out


def is_other_wait(ev):
    return ev.kind == "stmt" and ev.node["k"] == "CXXMemberCallExpr" and \
        short(ev.node.get("fn", "")) in ("wait", "wait_for", "wait_until") and is_cv_type(ev.node.get("rec", ""))


def stable_flags(w, F, fields, writers):
    """flags whose value is fixed while this thread waits: constant whenever the wait is reached and written by no other
    operation (writers: field -> set of operations that write it)"""
    G = w.G
    FF = FiniteFlow(G, F, fields)
    seen = set()

    def special(e, A):
        if F.acquires(e) and e.id != w.e.id:
            return frozenset((s, frozenset()) for s in FF.all_states())
        return None
    IN = FF.run([(s, frozenset()) for s in FF.all_states()], stop=lambda ev: ev.id == w.e.id, special=special)
    at = IN.get(w.e.id, ())
    out = {}
    for f in fields:
        vals = {s[FF.pos[f]] for s, ex in at}
        if fields[f] == "bool" and len(vals) == 1 and writers.get(f, set()) <= {G.root.fn.short}:
            out[f] = vals.pop()
    return out


def missed_wakeups(G, F, fields, blocked, notify_ids):
    """(event to blame, event where the operation gives up the lock) for an operation that can leave a waiter, blocked in
    every state of `blocked` before, runnable without a notification"""
    FF = FiniteFlow(G, F, fields)
    N, O = (("#n",), (1, 1)), (("#owed",), (1, 1))

    def special(e, A):
        if e.id in notify_ids:
            return frozenset((s, (ex - {O}) | {N}) for s, ex in A)
        if F.acquires(e):
            exs = set()
            for s, ex in A:
                owed = O in ex or N not in ex and s not in blocked
                b = frozenset(x for x in ex if x[0] not in (("#n",), ("#owed",)))
                exs.add(b | {O} if owed else frozenset(x for x in b if x[0] != ("#w",)))
            return frozenset((s, ex) for s in blocked for ex in exs)
        return None
    init = [(s, frozenset()) for s in blocked]
    IN = FF.run(init, special=special)
    out = []
    n = 0
    for t in [G.exit] + [e.id for e in G.ev if e.id in G.live and is_other_wait(e)]:
        for s, ex in IN.get(t, ()):
            n += 1
            if N in ex:
                continue
            if O in ex or s not in blocked:
                w = [v[0] for loc, v in ex if loc == ("#w",)]
                out.append((w[0] if w else None, t))
    return out, n
