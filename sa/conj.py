"""Functions that report a conjunction: after one test fails only `false` may be returned, and `true` may only be returned
after every test was made (for every element, where the test is inside a loop)."""
from .graph import *
from .graph import deref, addr
from .facts import Facts, atoms


def returns(G):
    return [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.frame is G.root and e.node["k"] == "ReturnStmt"
            and e.node["c"] and e.node["c"][0] >= 0]


def may_return(F, S, ev, val):
    """the return event can yield `val` under facts S"""
    t = F.cond_term(ev.frame, ev.node["c"][0])
    r = F.truth(S, t)
    return r is None or r == val


def after(F, evid, facts, stop=None):
    """states of the paths that leave event evid, with the given facts added to what is known after it"""
    S = F.IN.get(evid)
    if S is None:
        return {}
    S = F.step(F.G.ev[evid], S)
    for f in facts:
        if f[0] == "T" and ("F", f[1]) in S or f[0] == "F" and ("T", f[1]) in S:
            return {}
    S = S | frozenset(facts)
    out = {}
    for t, c in F.G.ev[evid].succ:
        s = F.edge(S, c) if c is not None else S
        if s is None:
            continue
        # start in front of the successor
        for k, v in forward(F.G, s, F.step, F.join, F.edge, start=t, stop=stop).items():
            out[k] = v if k not in out else F.join(out[k], v)
    return out


def true_after(F, evid, facts, val=True, stop=None):
    """return events that can yield `val` although the test at evid came out as `facts` say"""
    IN = after(F, evid, facts, stop)
    return [r for r in returns(F.G) if r.id in IN and may_return(F, IN[r.id], r, val)]


class Loop:
    """container; body: first events of the body; done_ev / done_cond: events and branch conditions met after the last
    element; heads: event ids of the loop condition"""
    def __init__(self, container):
        self.container, self.body, self.done_ev, self.done_cond, self.heads = container, [], set(), set(), set()
        self.after = []


def cond_key(c):
    return (c[0], c[1].id, c[2], c[3]) if c and c[0] == "if" else None


def feasible(F, start, S=None, stop_ev=(), stop_cond=()):
    """states of the feasible paths from (in front of) event `start` that meet none of the given events / conditions"""
    if S is None:
        S = F.IN.get(start)
    if S is None:
        return {}

    def edge(st, c):
        return None if cond_key(c) in stop_cond else F.edge(st, c)
    IN = forward(F.G, S, F.step, F.join, edge, start=start, stop=lambda e: e.id in stop_ev)
    return {k: v for k, v in IN.items() if k not in stop_ev}


def loops_over(G, pred):
    """iterations over all elements of a container c with pred(c)"""
    out = {}

    def get(key, c):
        return out.setdefault(key, Loop(c))
    for e in G.ev:
        if e.id not in G.live:
            continue
        if e.kind == "enter" and e.d.get("over") is not None and pred(e.d["over"]):
            r = get(("cb", e.d["call"], e.d["over"]), e.d["over"])
            r.body.append(e.id)
            for p, _ in e.pred:
                r.heads.add(p)
            continue
        if e.kind == "cbres" and e.d.get("over") is not None and pred(e.d["over"]):
            r = get(("cb", e.nid, e.d["over"]), e.d["over"])
            r.done_ev.add(e.id)
            r.after.append(e.id)
            continue
        for t, c in e.succ:
            if not c or c[0] != "if":
                continue
            x = G.term(c[1], c[2])
            for f in atoms(x, c[3]):
                it = f[1]
                hit = None
                if f[0] in "TF" and it[0] == "iter" and pred(it[1]):
                    r = get(("it", it), it[1])
                    hit = f[0] == "T"
                elif f[0] in ("le", "ne"):
                    # i < c.size(), i != c.size() / i >= c.size()
                    for i, s, body in ((f[1], f[2], True), (f[2], f[1], f[0] == "ne")):
                        if s[0] == "size" and pred(s[1]) and i[0] == "var":
                            if f[0] == "ne" or f[3] == (-1 if body else 0):
                                if starts_at_zero(G, i) and steps_by_one(G, i):
                                    r = get(("ix", i, s), s[1])
                                    hit = body
                if hit is True:
                    r.body.append(t)
                    r.heads.add(e.id)
                elif hit is False:
                    r.done_cond.add(cond_key(c))
                    r.after.append(t)
                    r.heads.add(e.id)
    return [v for v in out.values() if v.body and (v.done_ev or v.done_cond)]


def results(G, fr, nid, depth=0):
    """(frame, nid) of the expressions whose value the expression may have: follows ?:, inlined calls that are not a plain
    `return e`, and variables assigned once"""
    n = fr.fn.nodes[nid]
    k, c = n["k"], n["c"]
    if depth < 8:
        if k in CASTS and len(c) == 1:
            return results(G, fr, c[0], depth + 1)
        if k == "ConditionalOperator" and len(c) == 3:
            return results(G, fr, c[1], depth + 1) + results(G, fr, c[2], depth + 1)
        if k in ("CallExpr", "CXXMemberCallExpr"):
            m = getattr(G, "_callee_of", None)
            if m is None:
                m = G._callee_of = {(f.parent.id, f.call): f for f in G.frames if f.parent is not None and f.call is not None}
            nf = m.get((fr.id, nid))
            if nf is not None and nf.fn.simple_return() is None and nf.fn.kind not in ("ctor", "dtor"):
                out = []
                for i, m_ in enumerate(nf.fn.nodes):
                    if m_["k"] == "ReturnStmt" and m_["c"] and m_["c"][0] >= 0:
                        out += results(G, nf, m_["c"][0], depth + 1)
                if out:
                    return out
    return [(fr, nid)]


def result_terms(G, ev):
    """terms a return event may yield"""
    return [G.term(f, i) for f, i in results(G, ev.frame, ev.node["c"][0])]


def _decl(G, v):
    fr = next((f for f in [G.root] + G.frames if f.id == v[1]), None)
    if fr is None or v[2] not in fr.fn.decls:
        return None, None
    return fr, fr.fn.decls[v[2]][0]


def starts_at_zero(G, v):
    fr, d = _decl(G, v)
    return d is not None and d.get("init") is not None and G.term(fr, d["init"]) == ("int", 0)


def steps_by_one(G, v):
    fr, d = _decl(G, v)
    if d is None:
        return False
    n = 0
    for k, i in fr.fn.writes.get(v[2], []):
        if k == "write":
            for p in fr.fn.parents.get(i, []):
                if fr.fn.nodes[p]["k"] == "UnaryOperator" and fr.fn.nodes[p]["op"] == "++":
                    n += 1
                elif fr.fn.nodes[p]["k"] == "CompoundAssignOperator" and fr.fn.nodes[p]["op"] == "+=" and \
                        G.term(fr, fr.fn.nodes[p]["c"][1]) == ("int", 1):
                    n += 1
                else:
                    return False
        elif k in ("addr", "refarg", "refbind", "capture"):
            return False
    return n >= 1
