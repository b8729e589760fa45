"""Must-hold locksets, guarded-field accesses, condition-variable sites."""
from .graph import *
from .graph import deref, addr, GUARD_TYPES, is_mutex_type, is_cv_type
from .ir import short, strip_tmpl


def is_guard_type(t):
    t = t.replace("const ", "")
    return t.startswith(GUARD_TYPES)


def is_sync_type(t):
    return is_mutex_type(t) or is_cv_type(t) or "std::once_flag" in t


def is_atomic_type(t):
    return t.replace("volatile ", "").startswith(("std::atomic<", "std::__atomic_base"))


class Locks:
    """Lockset at every event. State: frozenset of (guard key, mutex term, held flag). Manual m.lock() uses the mutex
    term as its own guard key."""

    def __init__(self, G, may=False, initial=frozenset()):
        self.G = G
        self.may = may
        self.IN = forward(G, initial, self.transfer, self.join)

    def join(self, A, B):
        if A == B:
            return A
        if self.may:
            return A | B
        out = set()
        for (k, m, h) in A:
            if (k, m, h) in B:
                out.add((k, m, h))
            elif (k, m, not h) in B:
                out.add((k, m, False))
        return frozenset(out)

    def held(self, evid):
        S = self.IN.get(evid)
        if S is None:
            return frozenset()
        return frozenset(m for k, m, h in S if h)

    def held_out(self, evid):
        S = self.IN.get(evid)
        if S is None:
            return frozenset()
        return frozenset(m for k, m, h in self.transfer(self.G.ev[evid], S) if h)

    @staticmethod
    def _set(S, key, mutexes, held):
        S = frozenset(x for x in S if x[0] != key)
        return S | frozenset((key, m, held) for m in mutexes)

    def transfer(self, e, S):
        G, fr = self.G, e.frame
        if e.kind == "dtor":
            if is_guard_type(e.d["t"]):
                key = ("var", fr.id, e.d["dtor"], e.d["n"])
                key = self.alias(key, S)
                return frozenset(x for x in S if x[0] != key)
            return S
        if e.kind == "tdtor":
            if is_guard_type(e.d["tdtor"]):
                key = ("tmp", fr.id, e.d["e"])
                return frozenset(x for x in S if x[0] != key)
            return S
        if e.kind != "stmt":
            return S
        n = e.node
        k, c = n["k"], n["c"]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_guard_type(n["t"]):
            if n.get("cc") in ("move", "copy"):
                # transfer: guard moved into a new object
                src = self.guard_key(fr, c[0])
                dst = self.target_key(fr, e.nid)
                mv = [x for x in S if x[0] == src]
                S = frozenset(x for x in S if x[0] != src)
                return S | frozenset((dst, m, h) for _, m, h in mv)
            key = self.target_key(fr, e.nid)
            args = [x for x in c if x >= 0]
            mux, tag = [], None
            for a in args:
                t = fr.fn.nodes[a].get("t", "")
                if "defer_lock_t" in t:
                    tag = "defer"
                elif "adopt_lock_t" in t:
                    tag = "adopt"
                elif "try_to_lock_t" in t or "chrono" in t:
                    tag = "try"
                else:
                    mux.append(G.term(fr, a))
            if not mux:
                return S
            if tag == "adopt":
                S = frozenset(x for x in S if x[0] not in mux)
            return self._set(S, key, mux, tag not in ("defer", "try"))
        if k == "DeclStmt":
            # guard initialised from an inlined function returning a guard
            for d in n["decls"]:
                if is_guard_type(d["t"]) and d.get("init") is not None and not d.get("ref"):
                    m = fr.fn.nodes[d["init"]]
                    if m["k"] in ("CallExpr", "CXXMemberCallExpr"):
                        nf = self._callee(fr, d["init"])
                        if nf is not None:
                            src = ("ret", nf.id)
                            dst = ("var", fr.id, d["d"], d["n"])
                            mv = [x for x in S if x[0] == src]
                            S = frozenset(x for x in S if x[0] != src) | frozenset((dst, a, h) for _, a, h in mv)
            return S
        if k == "ReturnStmt" and c and c[0] >= 0 and fr.parent is not None and is_guard_type(fr.fn.d.get("ret", "")):
            src = self.guard_key(fr, c[0])
            mv = [x for x in S if x[0] == src]
            return frozenset(x for x in S if x[0] != src) | frozenset((("ret", fr.id), a, h) for _, a, h in mv)
        if k == "CXXMemberCallExpr":
            me = fr.fn.nodes[c[0]]
            if me["k"] == "MemberExpr":
                rec, nm = me.get("rec", ""), me["n"]
                if is_mutex_rec(rec) and nm in ("lock", "unlock", "lock_shared", "unlock_shared"):
                    m = G.obj_term(fr, c[0])
                    if nm.startswith("lock"):
                        return self._set(S, m, [m], True)
                    return frozenset((kk, mm, False if mm == m else h) for kk, mm, h in S if kk != m)
                if is_guard_type(rec) or rec.startswith("std::unique_lock") or rec.startswith("std::lock_guard"):
                    key = self.guard_obj_key(fr, c[0])
                    if nm == "lock":
                        return frozenset((kk, mm, True if kk == key else h) for kk, mm, h in S)
                    if nm == "unlock":
                        return frozenset((kk, mm, False if kk == key else h) for kk, mm, h in S)
                    if nm == "release":
                        return S
            return S
        if k == "CallExpr":
            fn = strip_tmpl(n.get("fn", ""))
            if fn == "std::lock":
                out = S
                for a in c[1:]:
                    t = fr.fn.nodes[a].get("t", "")
                    if is_guard_type(t):
                        key = self.guard_key(fr, a)
                        out = frozenset((kk, mm, True if kk == key else h) for kk, mm, h in out)
                    else:
                        m = G.term(fr, a)
                        out = self._set(out, m, [m], True)
                return out
        return S

    def alias(self, key, S):
        return key

    def _callee(self, fr, nid):
        for f in self.G.frames:
            if f.parent is fr and f.call == nid:
                return f
        return None

    def guard_key(self, fr, nid, depth=0):
        n = fr.fn.nodes[nid]
        k, c = n["k"], n["c"]
        if depth < 8:
            if k == "CXXFunctionalCastExpr" and c:
                return self.guard_key(fr, c[0], depth + 1)
            if k == "CallExpr" and strip_tmpl(n.get("fn", "")) in ("std::move", "std::forward"):
                return self.guard_key(fr, c[-1], depth + 1)
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return self.target_key(fr, nid)
            if k in ("CallExpr", "CXXMemberCallExpr"):
                nf = self._callee(fr, nid)
                if nf is not None:
                    return ("ret", nf.id)
        return self.G.term(fr, nid, "ref")

    def guard_obj_key(self, fr, me):
        n = fr.fn.nodes[me]
        b = self.G.term(fr, n["c"][0], "ref")
        return deref(b) if n.get("arrow") else b

    def target_key(self, fr, nid):
        """variable a construct expression initialises (or the temporary itself)"""
        cur = nid
        for _ in range(4):
            ps = fr.fn.parents.get(cur, [])
            for p in ps:
                pn = fr.fn.nodes[p]
                if pn["k"] == "DeclStmt":
                    for d in pn["decls"]:
                        if d.get("init") == cur:
                            return ("var", fr.id, d["d"], d["n"])
            nxt = [p for p in ps if fr.fn.nodes[p]["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr")
                   and is_guard_type(fr.fn.nodes[p]["t"])]
            if not nxt:
                break
            cur = nxt[0]
        return ("tmp", fr.id, nid)


def is_mutex_rec(r):
    return r in ("std::mutex", "std::recursive_mutex", "std::__mutex_base", "std::timed_mutex", "std::shared_mutex",
                 "std::shared_timed_mutex", "std::recursive_timed_mutex")


# ------------------------------------------------------------------------------------------------ storage roots
ITER_FNS = {"begin", "end", "find", "rbegin", "rend", "lower_bound", "upper_bound", "cbegin", "cend", "at", "front",
            "back", "insert", "emplace", "erase", "equal_range", "data", "ptr"}


def roots(G, fr, nid, tracked, depth=0):
    """tracked fields whose storage the lvalue/iterator expression `nid` designates -> set of (base term, rec, field,
    MemberExpr path)"""
    if nid is None or nid < 0 or depth > 20:
        return set()
    n = fr.fn.nodes[nid]
    k, c = n["k"], n["c"]
    if k == "MemberExpr":
        if n.get("mk") == "field":
            if (n["rec"], n["n"]) in tracked:
                b = G.term(fr, c[0])
                return {(deref(b) if n.get("arrow") else b, n["rec"], n["n"])}
            if n.get("arrow"):
                return proots(G, fr, c[0], tracked, depth + 1)
            return roots(G, fr, c[0], tracked, depth + 1)
        return set()
    if k == "DeclRefExpr" and n.get("dk") in ("local", "param", "binding"):
        r = G._lookup(fr, n["d"])
        if not r:
            return set()
        if r[0] == "bind":
            (f2, a), owner = r[1], r[2]
            p = next((p for p in owner.fn.params if p["d"] == n["d"]), None)
            if p and (p.get("ref") or "iterator" in p["t"]):
                return roots(G, f2, a, tracked, depth + 1)
            return set()
        if r[0] == "decl":
            f2, dd = r[1], r[2]
            if dd.get("init") is None:
                return set()
            if dd.get("ref") or "iterator" in dd["t"]:
                return roots(G, f2, dd["init"], tracked, depth + 1)
        return set()
    if k == "UnaryOperator" and n["op"] == "*":
        return proots(G, fr, c[0], tracked, depth + 1)
    if k == "ArraySubscriptExpr":
        return roots(G, fr, c[0], tracked, depth + 1)
    if k == "CXXOperatorCallExpr":
        op = n.get("op")
        a = c[1:]
        if op in ("*", "->") and len(a) == 1:
            t = fr.fn.nodes[a[0]].get("t", "")
            if "iterator" in t or "Iterator" in t:
                return roots(G, fr, a[0], tracked, depth + 1)
            return set()
        if op in ("[]", "()", "=", "++", "--", "+", "-", "+=", "-="):
            return roots(G, fr, a[0], tracked, depth + 1) if a else set()
        return set()
    if k == "CXXMemberCallExpr":
        me = fr.fn.nodes[c[0]]
        if me["k"] == "MemberExpr" and me["n"] in ITER_FNS and not me.get("repo"):
            if me.get("arrow"):
                return proots(G, fr, me["c"][0], tracked, depth + 1)
            return roots(G, fr, me["c"][0], tracked, depth + 1)
        return set()
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(c) == 1:
        if "iterator" in n["t"]:
            return roots(G, fr, c[0], tracked, depth + 1)
        return set()
    if k in ("CallExpr",):
        s = strip_tmpl(n.get("fn", ""))
        if s in ("std::move", "std::forward", "std::begin", "std::end"):
            return roots(G, fr, c[1], tracked, depth + 1)
        if s.startswith("std::") and short(s) in ("find_if", "find", "lower_bound", "upper_bound", "min_element", "max_element"):
            return roots(G, fr, c[1], tracked, depth + 1)
        return set()
    if k in CASTS:
        return roots(G, fr, c[0], tracked, depth + 1) if c else set()
    if k == "ConditionalOperator" and len(c) == 3:
        return roots(G, fr, c[1], tracked, depth + 1) | roots(G, fr, c[2], tracked, depth + 1)
    return set()


def proots(G, fr, nid, tracked, depth=0):
    """as roots, for an expression whose value is a raw pointer"""
    if nid is None or nid < 0 or depth > 20:
        return set()
    n = fr.fn.nodes[nid]
    k, c = n["k"], n["c"]
    if k == "UnaryOperator" and n["op"] == "&":
        return roots(G, fr, c[0], tracked, depth + 1)
    if k == "DeclRefExpr" and n.get("dk") in ("local", "param"):
        r = G._lookup(fr, n["d"])
        if not r:
            return set()
        if r[0] == "bind":
            f2, a = r[1]
            return proots(G, f2, a, tracked, depth + 1)
        if r[0] == "decl" and r[2].get("init") is not None:
            return proots(G, r[1], r[2]["init"], tracked, depth + 1)
        return set()
    if k == "CXXOperatorCallExpr" and n.get("op") == "->":
        t = fr.fn.nodes[c[1]].get("t", "")
        if "iterator" in t or "Iterator" in t:
            return roots(G, fr, c[1], tracked, depth + 1)
        return set()
    if k == "CallExpr" and strip_tmpl(n.get("fn", "")) in WRAP_FNS:
        return proots(G, fr, c[-1], tracked, depth + 1)
    if k == "CallExpr" and strip_tmpl(n.get("fn", "")) == "std::addressof":
        return roots(G, fr, c[1], tracked, depth + 1)
    if k == "CXXMemberCallExpr":
        me = fr.fn.nodes[c[0]]
        if me["k"] == "MemberExpr" and me["n"] in ("data", "ptr") and not me.get("repo"):
            return roots(G, fr, me["c"][0], tracked, depth + 1) if not me.get("arrow") else set()
    if k in CASTS and c:
        return proots(G, fr, c[0], tracked, depth + 1)
    return set()


# ------------------------------------------------------------------------------------------------ class-level analysis
class Access:
    __slots__ = ("entry", "ev", "base", "rec", "field", "kind", "held", "frame", "G")

    def __init__(self, entry, G, ev, base, rec, field, kind, held):
        self.entry, self.G, self.ev, self.base, self.rec, self.field, self.kind, self.held = \
            entry, G, ev, base, rec, field, kind, held

    def where(self):
        return "%s in %s" % (self.G.ev[self.ev].where(), self.G.ev[self.ev].frame.fn.name)


def address_taken(prog):
    """function keys whose address is taken (not called directly)"""
    out = {}
    for f in prog.fns.values():
        for i, n in enumerate(f.nodes):
            if n["k"] == "DeclRefExpr" and n.get("dk") == "func" and n.get("fk"):
                direct = False
                for p in f.parents.get(i, []):
                    pn = f.nodes[p]
                    if pn["k"] in ("CallExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr") and pn["c"] and pn["c"][0] == i:
                        direct = True
                if not direct:
                    out.setdefault(n["fk"], []).append((f, i))
    return out


def called(prog):
    """keys of functions called anywhere in the program"""
    if not hasattr(prog, "_called"):
        prog._called = {n.get("fk") for f in prog.fns.values() for n in f.nodes if n["k"] in
                        ("CXXMemberCallExpr", "CallExpr") and n.get("fk")}
    return prog._called


def class_entries(prog, rec, extra=()):
    """Functions of class `rec` through which another thread/caller can enter: public and protected methods,
    private methods whose address is taken, and (added by the caller) escaping lambdas."""
    at = address_taken(prog)
    out = []
    for f in prog.methods_of(rec):
        if f.d.get("implicit") or f.short.startswith("operator new") or f.short.startswith("operator delete"):
            continue
        if f.kind == "lambda":
            continue
        if f.access == "protected" and f.kind == "method" and not f.d.get("virtual") and f.key not in at and \
                f.key in called(prog):
            continue  # a helper: analysed in its callers
        if f.access in ("public", "protected") or f.key in at or f.d.get("virtual"):
            out.append(f)
    return out


def graphs_for(prog, rec, depth=8, extra_entries=(), inline=None, entries=None):
    """inlined graphs of every entry of the class, incl. lambdas that escape (are not run in place)"""
    gs = []
    done = set()
    ents = (class_entries(prog, rec) if entries is None else list(entries)) + list(extra_entries)
    inl = set()
    for f in ents:
        if f.key in done:
            continue
        done.add(f.key)
        G = Graph(prog, f, depth=depth, inline=inline, volatile=True)
        gs.append((f, G))
        inl |= G.inlined
    # escaping lambdas created in any of these functions
    work = [g for _, g in gs]
    while work:
        G = work.pop()
        fnset = {G.root.fn.key: G.root.fn}
        for fr in G.frames:
            fnset[fr.fn.key] = fr.fn
        for fn in fnset.values():
            for n in fn.nodes:
                if n["k"] == "LambdaExpr" and n["fk"] not in inl and n["fk"] not in done:
                    lf = prog.fns.get(n["fk"])
                    if lf is None or not lf.blocks:
                        continue
                    done.add(n["fk"])
                    g2 = Graph(prog, lf, depth=depth, inline=inline, volatile=True)
                    gs.append((lf, g2))
                    inl |= g2.inlined
                    work.append(g2)
    return gs


def accesses(prog, gs, tracked, initial=None):
    """every access to a tracked (rec, field) in the given graphs with the locks held there"""
    out = []
    for f, G in gs:
        L = Locks(G)
        for e in G.ev:
            if e.id not in G.live or e.kind not in ("stmt", "init"):
                continue
            if e.kind == "init":
                continue
            n = e.node
            k = n["k"]
            rs = set()
            if k == "MemberExpr" and n.get("mk") == "field" and (n["rec"], n["n"]) in tracked:
                if only_binds(e.frame.fn, e.nid):
                    continue  # a reference or pointer is formed; its uses are accesses
                rs = roots(G, e.frame, e.nid, tracked)
                kind = e.frame.fn.write_kind(e.nid)
            elif k == "MemberExpr" and n.get("mk") == "method" and n.get("arrow"):
                if "iterator" in e.frame.fn.nodes[n["c"][0]].get("t", ""):
                    continue
                rs = proots(G, e.frame, n["c"][0], tracked)
                kind = "read" if n.get("cm") else "mut"
            elif n.get("lv") or k in ("CXXOperatorCallExpr",):
                # indirect: through a reference, iterator or element pointer obtained earlier
                if k in ("DeclRefExpr",):
                    t = n.get("t", "")
                    if "iterator" in t:
                        continue  # merely naming an iterator is no access
                    rs = roots(G, e.frame, e.nid, tracked)
                    kind = e.frame.fn.write_kind(e.nid)
                elif k in ("MemberExpr",) and n.get("mk") == "field":
                    rs = roots(G, e.frame, e.nid, tracked)
                    kind = e.frame.fn.write_kind(e.nid)
                elif k == "UnaryOperator" and n["op"] == "*":
                    rs = roots(G, e.frame, e.nid, tracked)
                    kind = e.frame.fn.write_kind(e.nid)
                elif k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->"):
                    rs = roots(G, e.frame, e.nid, tracked)
                    kind = e.frame.fn.write_kind(e.nid)
            for (b, r, fl) in rs:
                out.append(Access(f, G, e.id, b, r, fl, kind, L.held(e.id)))
    return out


def only_binds(fn, nid):
    """the lvalue is only bound to a reference or its address kept in a local"""
    ps = fn.parents.get(nid, [])
    if not ps:
        return False
    for p in ps:
        pn = fn.nodes[p]
        if pn["k"] == "DeclStmt" and any(d.get("init") == nid and d.get("ref") and not d.get("impl") for d in pn["decls"]):
            continue
        if pn["k"] == "UnaryOperator" and pn["op"] == "&" and all(
                fn.nodes[q]["k"] == "DeclStmt" for q in fn.parents.get(p, [])) and fn.parents.get(p):
            continue
        return False
    return True


def cv_events(G, names):
    """events calling a condition-variable method named in `names` -> list of (event, cv term)"""
    out = []
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
            me = e.frame.fn.nodes[e.node["c"][0]]
            if me["k"] == "MemberExpr" and me["n"] in names and is_cv_type(me.get("rec", "")):
                out.append((e, G.obj_term(e.frame, e.node["c"][0])))
    return out
