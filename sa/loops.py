"""Counting loops `for (v = init; v < bound; v += step)` of a graph, in whatever form the condition is written."""
from .graph import *
from .facts import atoms
from .conj import cond_key, _decl


class CLoop:
    """v runs from init (term) up to, not including, bound + add; heads: events that test it; body / after: first events
    inside / behind; exits: conditions under which it is left"""
    def __init__(self, v, init, bound, add, step):
        self.v, self.init, self.bound, self.add, self.step = v, init, bound, add, step
        self.heads, self.body, self.after, self.exits = set(), [], [], set()

    def events(self, G):
        """events of the body: reachable from it without passing the loop's test"""
        if getattr(self, "_ev", None) is None:
            seen, todo = set(), list(self.body)
            while todo:
                i = todo.pop()
                if i in seen or i in self.heads:
                    continue
                seen.add(i)
                todo += [t for t, c in G.ev[i].succ if t in G.live]
            # only what comes back to the test
            back, todo = set(), [p for h in self.heads for p, c in G.ev[h].pred]
            while todo:
                i = todo.pop()
                if i in back or i not in seen:
                    continue
                back.add(i)
                todo += [p for p, c in G.ev[i].pred]
            self._ev = back
        return self._ev


def init_of(G, v):
    fr, d = _decl(G, v)
    if d is None or d.get("init") is None:
        return None
    return G.term(fr, d["init"])


def step_of(G, v):
    """+1 / +k where every write of v is such a step, else None"""
    fr, d = _decl(G, v)
    if d is None:
        return None
    ks = set()
    for k, i in fr.fn.writes.get(v[2], []):
        if k == "write":
            for p in fr.fn.parents.get(i, []):
                n = fr.fn.nodes[p]
                if n["k"] == "UnaryOperator" and n["op"] in ("++", "--"):
                    ks.add(1 if n["op"] == "++" else -1)
                elif n["k"] == "CompoundAssignOperator" and n["op"] in ("+=", "-=") and G.term(fr, n["c"][1])[0] == "int":
                    x = G.term(fr, n["c"][1])[1]
                    ks.add(x if n["op"] == "+=" else -x)
                else:
                    return None
        elif k in ("addr", "refarg", "refbind", "capture"):
            return None
    return ks.pop() if len(ks) == 1 else None


def counting(G):
    out = {}
    for e in G.ev:
        if e.id not in G.live:
            continue
        for t, c in e.succ:
            if not c or c[0] != "if":
                continue
            for f in atoms(G.term(c[1], c[2]), c[3]):
                if f[0] not in ("le", "ne"):
                    continue
                for v, b, low in ((f[1], f[2], True), (f[2], f[1], False)):
                    if v[0] != "var":
                        continue
                    st = step_of(G, v)
                    if st is None or st <= 0:
                        continue
                    i = init_of(G, v)
                    if i is None:
                        continue
                    # v - b <= k stays in the loop; b - v <= k leaves it; v != b stays, v == b is two le facts
                    if f[0] == "ne":
                        add, stay = f[3], True
                    elif low:
                        add, stay = f[3] + 1, True
                    else:
                        add, stay = -f[3], False
                    if f[0] == "le" and low and not stay:
                        continue
                    key = (v, b)
                    L = out.get(key)
                    if L is None:
                        L = out[key] = CLoop(v, i, b, add, st)
                        L.cand = []
                    L.cand.append((e.id, t, stay, add, cond_key(c)))
    res = []
    for L in out.values():
        stays = [x for x in L.cand if x[2]]
        leaves = [x for x in L.cand if not x[2]]
        if not stays or not (leaves or stays):
            continue
        L.add = stays[0][3]
        if any(x[3] != L.add for x in stays):
            continue
        for h, t, s, a, k in stays:
            L.heads.add(h)
            L.body.append(t)
        for h in L.heads:
            for t, c in G.ev[h].succ:
                if t not in L.body:
                    L.after.append(t)
                    if c:
                        L.exits.add(cond_key(c))
        if L.events(G):     # it does loop
            res.append(L)
    return res


def every_round(G, L, target):
    """every round of L passes an event in `target` (a set of event ids)"""
    for b in L.body:
        if b in target:
            continue
        w = must_pass(G, b, sorted(L.heads), lambda e: e.id in target)
        if w is not None:
            return False
    return True


def leaves_early(G, L):
    """an edge that leaves the loop from inside a round (break / return), other than into a function that does not return"""
    ev = L.events(G)
    for i in ev:
        for t, c in G.ev[i].succ:
            if t in G.live and t not in ev and t not in L.heads and reaches_exit(G, t):
                return G.ev[i]
    return None


def reaches_exit(G, i):
    if getattr(G, "_rx", None) is None:
        seen, todo = set(), [e.id for e in G.ev if e.kind == "exit" and e.frame is G.root]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [p for p, c in G.ev[x].pred]
        G._rx = seen
    return i in G._rx
