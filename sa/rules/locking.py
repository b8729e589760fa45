"""Rules about state shared between threads."""
from ..ir import AnalysisError, short, strip_tmpl, VERIF as VERIF_DIR
from ..graph import *
from ..graph import deref, addr, is_cv_type, is_mutex_type, GUARD_TYPES
from ..facts import Facts, Z, lin, f_le, f_ne
from ..finite import blocked_states, stable_flags, missed_wakeups
from ..locks import Locks, graphs_for, accesses, cv_events, is_sync_type, is_atomic_type, roots, proots, class_entries


def const_type(t):
    return t.startswith("const ") and not t.endswith("*") or t.endswith("const")


def tracked_fields(rec):
    out = {}
    for f in rec["fields"]:
        t = f["t"]
        if is_sync_type(t) or is_atomic_type(t) or (f.get("const") or const_type(t)):
            continue
        out[(rec["key"], f["n"])] = t
    return out


def mutex_fields(rec):
    return [f["n"] for f in rec["fields"] if is_mutex_type(f["t"])]


def is_ctor(G):
    return G.root.fn.kind == "ctor"


def is_dtor(G):
    return G.root.fn.kind == "dtor"


def owns_threads(rec):
    return any("std::thread" in f["t"] for f in rec["fields"])


class ClassLocks:
    """All lock-relevant information about one class, computed once."""

    def __init__(self, prog, rec, entries=None, depth=8):
        self.prog, self.rec = prog, rec
        self.gs = graphs_for(prog, rec["key"], depth=depth, entries=entries)
        self.tracked = tracked_fields(rec)
        self.mutexes = mutex_fields(rec)
        self.locks = {}
        self.acc = accesses(prog, self.gs, set(self.tracked))

    def L(self, G):
        if id(G) not in self.locks:
            self.locks[id(G)] = Locks(G)
        return self.locks[id(G)]


def thread_starts(G):
    """events that start a thread in this graph"""
    out = []
    for e in G.ev:
        if e.id not in G.live or e.kind not in ("stmt", "init"):
            continue
        if e.kind == "init":
            if e.nid is not None and e.nid >= 0:
                n = e.node
                if "std::thread" in n.get("t", "") and n["k"] in ("CXXConstructExpr",) and n["c"]:
                    out.append(e)
            continue
        n = e.node
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n["t"].replace("const ", "") == "std::thread" \
                and n["c"] and not n.get("cc"):
            out.append(e)
        if n["k"] == "CXXMemberCallExpr" and short(n.get("fn", "")) in ("emplace_back", "push_back", "emplace") and \
                "std::thread" in n.get("rec", ""):
            out.append(e)
        if n["k"] == "CallExpr" and strip_tmpl(n.get("fn", "")) == "std::async":
            out.append(e)
    return out


def guarded_state(R, CL, rule, what):
    """Every mutable field reachable from several threads is protected by one common mutex at every access."""
    rec = CL.rec
    R.need(CL.mutexes, "%s has no mutex field" % rec["name"])
    per = {}
    owner = owns_threads(rec)
    started = {}
    for a in CL.acc:
        G = a.G
        ex = False
        if is_ctor(G) and a.base == ("this",):
            ex = True
            if owner:
                if id(G) not in started:
                    s = set()
                    for e in thread_starts(G):
                        s |= reachable(G, e.id)
                    started[id(G)] = s
                if a.ev in started[id(G)]:
                    ex = False
        if is_dtor(G) and a.base == ("this",) and not owner:
            ex = True
        if local_object(G, a.base):
            ex = True
        per.setdefault(a.field, []).append((a, ex))
    nf = 0
    for field, lst in sorted(per.items()):
        conc = [a for a, ex in lst if not ex]
        outside = [a for a in conc if not is_ctor(a.G) and not is_dtor(a.G)]
        R.count("field accesses analysed", len(lst))
        if not outside:
            continue  # confined to construction/destruction
        if not any(a.kind != "read" for a in conc):
            continue  # immutable after construction
        nf += 1
        votes = {}
        for a in conc:
            for m in own_mutexes(a):
                votes[m] = votes.get(m, 0) + 1
        best = max(sorted(votes), key=lambda m: votes[m]) if votes else None
        for a in conc:
            if best is None or best not in own_mutexes(a):
                fn = a.G.ev[a.ev].frame.fn
                R.violation(rule, fn.qual, "%s of %s without %s" % ("write" if a.kind != "read" else "read", field,
                            best or "a mutex"), a.G.ev[a.ev].where(),
                            "%s '%s' is %s without holding '%s' (entry %s), although other threads access it under that lock"
                            % (what, field, "modified" if a.kind != "read" else "read", best or "any mutex",
                               a.entry.qual))
        R.sample("%s.%s guarded by %s at %d concurrent accesses" % (rec["name"], field, best, len(conc)))
    # initialisation of fields after threads have been started
    for f, G in CL.gs:
        if is_ctor(G) and owner:
            st = thread_starts(G)
            for e in st:
                for x in reachable(G, e.id):
                    ev = G.ev[x]
                    if ev.kind == "init" and ev.frame is G.root and (rec["key"], ev.d.get("init")) in CL.tracked:
                        R.violation(rule, f.qual, "init of %s after thread start" % ev.d["init"], ev.where(),
                                    "'%s' is initialised after a thread that uses it has been started" % ev.d["init"])
    R.count("guarded fields", nf)
    R.count("entry points analysed", len(CL.gs))
    escapes(R, CL, rule)
    return nf


def local_object(G, base):
    """object created by this entry and not shared yet (local variable of class type)"""
    return base[0] == "var"


def own_mutexes(a):
    """names of mutex fields of the accessed object itself that are held"""
    return {m[2] for m in a.held if m[0] == "fld" and m[1] == a.base}


def escapes(R, CL, rule):
    """public methods must not hand out references or pointers into guarded state"""
    for f, G in CL.gs:
        fn = G.root.fn
        if fn.kind != "method" or fn.access != "public":
            continue
        ret = fn.d.get("ret", "")
        if not (ret.endswith("&") or ret.endswith("*") or "iterator" in ret):
            continue
        for i, n in enumerate(fn.nodes):
            if n["k"] == "ReturnStmt" and n["c"] and n["c"][0] >= 0:
                rs = proots(G, G.root, n["c"][0], set(CL.tracked)) if ret.endswith("*") else \
                    roots(G, G.root, n["c"][0], set(CL.tracked))
                for b, r, fl in rs:
                    if any(a.field == fl and a.kind != "read" and not is_ctor(a.G) for a in CL.acc):
                        R.violation(rule, fn.qual, "returns reference to %s" % fl, fn.where(i),
                                    "returns a reference or pointer into '%s', which is protected by a mutex" % fl)


# --------------------------------------------------------------------------------------------- condition variables
def branch_edges(G, x):
    return [(t, c) for t, c in G.ev[x].succ if c is not None and c[0] in ("if", "switch")]


def loop_events(G, wid):
    """events on cycles through wid"""
    f = reachable(G, wid)
    if wid not in f:
        return set()
    b = reachable(G, wid, back=True)
    return f & b


def controlling(G, wid):
    """branch events one of whose edges cannot reach wid without repeating the branch"""
    back = reachable(G, wid, back=True) | {wid}
    out = []
    for x in back:
        be = branch_edges(G, x)
        if len(be) < 2:
            continue
        can = []
        for t, c in be:
            r = t == wid or wid in reachable(G, x, edge_ok=lambda a, b, cc, x=x, t=t: not (a == x and b != t),
                                             stop=lambda e, x=x: e.id == x)
            can.append(r)
        if any(can) and not all(can):
            out.append(x)
    return out


def fields_read(G, evs, tracked):
    out = set()
    for x in evs:
        e = G.ev[x]
        if e.kind == "stmt" and e.node["k"] == "MemberExpr" and e.node.get("mk") == "field":
            n = e.node
            if (n["rec"], n["n"]) in tracked:
                out.add(n["n"])
    return out


class Wait:
    def __init__(self, f, G, e, cv):
        self.f, self.G, self.e, self.cv = f, G, e, cv
        self.fields = set()
        self.pred = None
        self.disj = None


def wait_condition(G, w, F, maxpaths=64):
    """DNF of the condition under which the wait blocks, over the loop around it: list of conjunctions of
    (term, polarity); None when it is not a plain combination of branches"""
    e = w.e
    head = [t for t, c in e.succ if G.ev[t].kind == "cbhead"]
    if head:
        return None
    loop = loop_events(G, e.id)
    out = []

    # backwards from the wait to the last event before which the previous wait/loop entry happened
    def walk(x, lits, seen):
        if len(out) > maxpaths:
            return
        preds = [(p, c) for p, c in G.ev[x].pred]
        for p, c in preds:
            if p in seen:
                continue
            l2 = lits
            if c is not None and c[0] == "if":
                t = F.cond_term(c[1], c[2])
                l2 = lits + [(t, c[3])]
            if p == e.id or p not in loop:
                out.append(list(reversed(l2)))
            else:
                walk(p, l2, seen | {p})
    walk(e.id, [], {e.id})
    uniq = []
    for d in out:
        if d not in uniq:
            uniq.append(d)
    return uniq if len(out) <= maxpaths else None


WAITS = ("wait", "wait_for", "wait_until")
NOTIFY = ("notify_one", "notify_all")


def cv_discipline(R, CL, rule_wait, rule_notify, seed=None, extra_flags=True, calls_ok=(), own=False):
    """Waits re-check their condition; every change that may unblock a waiter is followed by a notification."""
    prog, rec = CL.prog, CL.rec
    atom = {(rec["key"], f["n"]) for f in rec["fields"] if is_atomic_type(f["t"])}
    track = set(CL.tracked) | atom
    waits, notifies = [], []
    for f, G in CL.gs:
        for e, cv in cv_events(G, WAITS):
            if not own or cv[0] == "fld" and cv[1] == ("this",):
                waits.append(Wait(f, G, e, cv))
        for e, cv in cv_events(G, NOTIFY):
            notifies.append((f, G, e, cv))
    R.count("wait sites", len(waits))
    R.count("notify sites", len(notifies))
    R.need(waits, "no condition-variable wait left in %s" % rec["name"])
    facts = {}

    def FF(G):
        if id(G) not in facts:
            facts[id(G)] = Facts(G, sync=True, seed=seed)
        return facts[id(G)]

    wmutex = {}
    for w in waits:
        G = w.G
        held = CL.L(G).held(w.e.id)
        own = {m for m in held if m[0] == "fld"}
        wmutex.setdefault(w.cv, []).append((w, own))
        if not own:
            R.violation(rule_wait, w.e.frame.fn.qual, "wait on %s without its mutex" % show(w.cv), w.e.where(),
                        "waits on '%s' without holding a mutex" % show(w.cv))
        n = w.e.node
        pred = [t for t, c in w.e.succ if G.ev[t].kind == "cbhead"]
        short_name = G.root.fn.qual
        if pred:
            body = set()
            for x in G.live:
                ev = G.ev[x]
                fr = ev.frame
                while fr is not None:
                    if fr.call == w.e.nid and fr.parent is w.e.frame:
                        body.add(x)
                        break
                    fr = fr.parent
            w.fields = fields_read(G, body, track)
        elif len(n["c"]) > 2 and short(n.get("fn", "")) == "wait":
            R.note("%s: wait with a predicate that is not a lambda in view" % w.e.where())
            continue
        else:
            loop = loop_events(G, w.e.id)
            ctrl = [x for x in controlling(G, w.e.id) if x in loop]
            # leaving without testing the condition again
            bad = None
            if not loop or not ctrl:
                bad = "is not in a loop that re-tests its condition"
            else:
                cs = set(ctrl)
                r = reachable(G, w.e.id, stop=lambda ev: ev.id in cs)
                if G.exit in r:
                    bad = "can be left without testing its condition again"
            if bad:
                R.violation(rule_wait, w.e.frame.fn.qual, "wait on %s not re-tested" % show(w.cv), w.e.where(),
                            "the wait on '%s' %s (spurious or stale wake-ups pass)" % (show(w.cv), bad))
            w.fields = fields_read(G, loop, track)
            if loop and ctrl:
                w.disj = wait_condition(G, w, FF(G))
        if not w.fields:
            R.violation(rule_wait, w.e.frame.fn.qual, "wait on %s reads no shared state" % show(w.cv), w.e.where(),
                        "the loop around the wait on '%s' reads no shared state, so a wake-up changes nothing"
                        % show(w.cv))
        R.sample("wait %s in %s on %s, condition over %s" % (w.e.where(), G.root.fn.qual, show(w.cv),
                                                             ", ".join(sorted(w.fields))))
    for cv, lst in wmutex.items():
        ms = [m for w, m in lst if m]
        if ms and not set.intersection(*ms):
            w = lst[0][0]
            R.violation(rule_wait, w.e.frame.fn.qual, "different mutexes for %s" % show(cv), w.e.where(),
                        "waiters of '%s' use different mutexes" % show(cv))
    # ---- one condition variable, several kinds of waiters: notify_one may wake the wrong one
    for cv in wmutex:
        conds = set()
        for w in waits:
            if w.cv == cv:
                conds.add((w.e.frame.fn.key, w.e.nid))
        if len(conds) > 1:
            for f, G, e, c in notifies:
                if c == cv and e.frame.fn.nodes[e.node["c"][0]]["n"] == "notify_one":
                    R.violation(rule_notify, e.frame.fn.qual, "notify_one on %s" % show(cv), e.where(),
                                "'%s' has waiters with different conditions (%d wait sites); notify_one may wake one that "
                                "cannot proceed while the one that could stays asleep" % (show(cv), len(conds)))
    # ---- writes must be followed by notifications
    kinds = {f["n"]: SCALAR.get(f["t"]) for f in rec["fields"]}
    if waits and all(kinds.get(x) for w in waits for x in w.fields):
        finite_notify(R, CL, rule_notify, waits, notifies, {k: v for k, v in kinds.items() if v}, FF)
        return waits
    oblig = 0
    for cv in sorted(wmutex, key=repr):
        ws = [w for w in waits if w.cv == cv]
        fields = set().union(*[w.fields for w in ws])
        wm = {m[2] for w, own in wmutex[cv] for m in own if m[0] == "fld"}
        for f, G in CL.gs:
            if is_ctor(G):
                continue
            wr = writes_in(G, rec, fields, CL)
            if not wr:
                continue
            note_ids = {e.id for f2, G2, e, c in notifies if G2 is G and c == cv}
            wait_ids = {w.e.id for w in waits if w.G is G and w.cv == cv}
            stop = lambda e, s=note_ids: e.id in s
            F = FF(G)
            for e, field, direction in wr:
                oblig += 1
                R.count("state changes checked for a notification")
                # atomics: the change must not slip between a waiter's test and its wait
                if (rec["key"], field) in atom:
                    held = {m[2] for m in CL.L(G).held(e.id) if m[0] == "fld"}
                    if not held & wm:
                        L = CL.L(G)
                        nts = [x for x in note_ids]
                        r = reachable(G, e.id, stop=lambda ev: bool({m[2] for m in L.held(ev.id) if m[0] == "fld"} & wm))
                        if any(x in r and not ({m[2] for m in L.held(x) if m[0] == "fld"} & wm) for x in nts) or not nts:
                            R.violation(rule_notify, e.frame.fn.qual, "unlocked change of %s" % field, e.where(),
                                        "'%s' is changed and the waiters of '%s' are notified without the mutex: a waiter "
                                        "between its test and its wait misses the wake-up" % (field, show(cv)))
                if all(harmless(w, field, direction) for w in ws):
                    continue
                IN = F.run_from(e.id, stop)
                tg = [x for x in [G.exit] + sorted(wait_ids) if x in IN and x not in note_ids]
                bad = None
                for t in tg:
                    S = IN[t]
                    for w in ws:
                        if not still_blocked(w, F, S, G, field, direction, rec):
                            bad = (t, w)
                            break
                    if bad:
                        break
                if bad:
                    t, w = bad
                    R.violation(rule_notify, e.frame.fn.qual, "no notify on %s after change of %s" % (show(cv), field),
                                e.where(),
                                "'%s' changes here and a path to %s (entry %s) does not notify '%s', on which %s may be "
                                "waiting for that change" % (field, "the next wait at %s" % G.ev[t].where() if t != G.exit
                                                             else "the end of the operation", G.root.fn.qual, show(cv),
                                                             w.G.root.fn.qual))
    return waits


SCALAR = {"bool": "bool", "int": "int", "unsigned int": "int", "long": "int", "unsigned long": "int", "short": "int",
          "unsigned short": "int"}


def finite_notify(R, CL, rule, waits, notifies, fields, FF):
    """the state the waiters depend on is a handful of flags and counters: decide 'still blocked' on its finite abstraction"""
    fields = {k: v for k, v in fields.items()}
    writers = {}
    for f, G in CL.gs:
        if not is_ctor(G):
            for e, fl, d in writes_in(G, CL.rec, set(fields), CL):
                writers.setdefault(fl, set()).add(f.short)
    seen = set()
    for w in waits:
        used = {k: v for k, v in fields.items()}
        same = {x.e.id for x in waits if x.G is w.G and x.cv == w.cv}
        B = blocked_states(w, FF(w.G), used, same)
        fix = stable_flags(w, FF(w.G), used, writers)
        names = sorted(used)
        B = {s for s in B if all(s[names.index(f)] == v for f, v in fix.items())}
        R.count("blocked waiter states", len(B))
        for f, G in CL.gs:
            if is_ctor(G) or is_dtor(G) or not writes_in(G, CL.rec, set(used), CL):
                continue
            note = {e.id for f2, G2, e, c in notifies if G2 is G and c == w.cv}
            R.count("waiter/operation pairs decided")
            bad, n = missed_wakeups(G, FF(G), used, frozenset(B), note)
            R.count("operation outcomes checked", n)
            for src, t in bad:
                e = G.ev[src] if src is not None else G.ev[t]
                key = (e.id, id(G), w.cv, w.G.root.fn.key)
                if key in seen:
                    continue
                seen.add(key)
                R.violation(rule, e.frame.fn.qual, "%s may stay asleep on %s" % (w.G.root.fn.short, show(w.cv)), e.where(),
                            "this change can make a thread runnable that waits in %s on '%s' (%s), but a path to %s does not "
                            "notify it" % (w.G.root.fn.qual, show(w.cv), w.e.where(),
                                           "the next wait at %s" % G.ev[t].where() if t != G.exit else "the end of %s" %
                                           G.root.fn.qual))


def writes_in(G, rec, fields, CL):
    """(event, field, direction) for each modification of one of the fields; direction: '+1','-1','up','down',
    ('set', v), None"""
    out = []
    atom = {f["n"] for f in rec["fields"] if is_atomic_type(f["t"])}
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n = e.node
        fr = e.frame
        k = n["k"]
        tgt = None
        d = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            tgt = n["c"][0]
            v = G.term(fr, n["c"][1])
            if n["op"] == "=":
                d = ("set", v)
            elif n["op"] == "+=" and v == ("int", 1):
                d = "+1"
            elif n["op"] == "-=" and v == ("int", 1):
                d = "-1"
            elif n["op"] == "+=" and v[0] == "int":
                d = "up"
        elif k == "UnaryOperator" and n["op"] in ("++", "--"):
            tgt = n["c"][0]
            d = "+1" if n["op"] == "++" else "-1"
        elif k == "CXXOperatorCallExpr" and n["op"] in ("=", "+=", "-=", "++", "--"):
            tgt = n["c"][1]
            if n["op"] == "=" and len(n["c"]) > 2:
                d = ("set", G.term(fr, n["c"][2]))
            if n["op"] in ("++", "--"):
                t = fr.fn.nodes[tgt].get("t", "")
                if "iterator" in t:
                    continue
                d = "+1" if n["op"] == "++" else "-1"
        elif k == "CXXMemberCallExpr":
            me = fr.fn.nodes[n["c"][0]]
            if me["k"] == "MemberExpr" and not me.get("cm") and not me.get("repo"):
                nm = me["n"]
                if nm in ("insert", "emplace", "emplace_back", "emplace_front", "push_back", "push_front", "push"):
                    d = "up"
                elif nm in ("erase", "clear", "pop_front", "pop_back", "pop"):
                    d = "down"
                elif nm in ("store", "exchange", "fetch_add", "fetch_sub", "swap", "resize", "assign"):
                    d = ("set", G.term(fr, n["c"][1])) if nm == "store" and len(n["c"]) > 1 else None
                else:
                    continue
                tgt = me["c"][0]
                if me.get("arrow"):
                    continue
        if tgt is None:
            continue
        rs = roots(G, fr, tgt, set(CL.tracked) | {(rec["key"], a) for a in atom})
        for b, r, fl in rs:
            if fl in fields:
                out.append((e, fl, d))
    return out


def lit_effect(t, pol, field, direction):
    """effect of the change on the literal: 'keep' it cannot make it false; 'cross' a unit step that makes it false only
    when the boundary is reached (returns (n, k)); None unknown; 'no' not mentioned"""
    fl = lambda x: any(y[0] == "fld" and y[2] == field for y in subterms(x))
    if not fl(t):
        return "no"
    while t[0] == "un" and t[1] == "!":
        t, pol = t[2], not pol
    if t[0] == "fld" and t[2] == field:
        if isinstance(direction, tuple) and direction[1][0] == "int":
            return "keep" if bool(direction[1][1]) == pol else None
        return None
    if t[0] == "bin" and t[1] in ("<", ">", "<=", ">=", "==", "!="):
        op, a, b = t[1], t[2], t[3]
        if not pol:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        if fl(b) and not fl(a):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if fl(a) and not fl(b):
            is_n = a[0] == "fld" and a[2] == field or a[0] == "size" and a[1][0] == "fld" and a[1][2] == field
            if not is_n:
                return None
            if direction in ("+1", "up"):
                if op in (">", ">="):
                    return "keep"
                if op == "!=" and b == ("int", 0):
                    return "keep"  # wrap-around aside
            if direction in ("-1", "down"):
                if op in ("<", "<="):
                    return "keep"
                if op == "==" and b == ("int", 0) and a[0] == "size":
                    return "keep"
            if direction == "-1":
                if op == ">":
                    return ("cross", a, b)
                if op == ">=" and b[0] == "int":
                    return ("cross", a, ("int", b[1] - 1))
                if op == "!=":
                    return ("cross", a, b)
            return None
        # n > (flag ? 1 : 0) and the flag changes
        if b[0] == "cond" and b[1][0] == "fld" and b[1][2] == field and b[2][0] == "int" and b[3][0] == "int" and not fl(a):
            if isinstance(direction, tuple) and direction[1][0] == "int" and op in (">", ">=", "!="):
                nv, ov = (b[2][1], b[3][1]) if direction[1][1] else (b[3][1], b[2][1])
                if op in (">", ">=") and nv <= ov:
                    return "keep"
    return None


def harmless(w, field, direction):
    """the change can never unblock this waiter"""
    if field not in w.fields:
        return True
    if w.disj is None:
        return False
    for d in w.disj:
        for t, p in d:
            if lit_effect(t, p, field, direction) not in ("no", "keep"):
                return False
    return True


def still_blocked(w, F, S, G, field, direction, rec):
    """with facts S at the release point (no notification so far), the waiter w cannot have become runnable"""
    if field not in w.fields:
        return True
    if w.disj is None:
        return False
    if not hasattr(w, "FW"):
        w.FW = Facts(w.G, sync=True).IN.get(w.e.id) or frozenset()
    FW = w.FW

    def known(t, p):
        while t[0] == "un" and t[1] == "!":
            t, p = t[2], not p
        if (("T" if p else "F"), t) in S:
            return True
        S2 = F.assume(S, t, not p)
        return S2 is None
    # (i) one disjunct is still true as a whole
    for d in w.disj:
        if d and all(known(t, p) for t, p in d):
            return True
    # (ii) every literal the change could falsify is a unit decrement that did not reach the boundary
    for d in w.disj:
        for t, p in d:
            ef = lit_effect(t, p, field, direction)
            if ef in ("no", "keep"):
                continue
            if isinstance(ef, tuple) and ef[0] == "cross":
                a, k = ef[1], ef[2]
                ks = [k]
                if k[0] == "cond":
                    ks += [x for x in (k[2], k[3])]
                if any(distinct(F, S, a, x) for x in ks[:1]):
                    continue
                # resolve the flag from what is known here or at the wait
                if k[0] == "cond":
                    if ("T", k[1]) in S and distinct(F, S, a, k[2]):
                        continue
                    if ("F", k[1]) in S and distinct(F, S, a, k[3]):
                        continue
                    if distinct(F, S, a, k[2]) and distinct(F, S, a, k[3]):
                        continue
                else:
                    # the boundary here may be spelled by a flag whose value the waiter fixes
                    ok = False
                    for f in S:
                        if f[0] == "ne":
                            for x, y, c in ((f[1], f[2], f[3]), (f[2], f[1], -f[3])):
                                if x == a and y[0] == "cond" and c == 0:
                                    if ("T", y[1]) in FW and y[2] == k:
                                        ok = True
                                    if ("F", y[1]) in FW and y[3] == k:
                                        ok = True
                    if ok:
                        continue
            return False
    return True


def distinct(F, S, a, b):
    f = f_ne(a, b)
    if f in S:
        return True
    return F.entails_le(S, a, b, -1) or F.entails_le(S, b, a, -1)


# --------------------------------------------------------------------------------------------- structs shared openly
def callers_of(prog):
    if not hasattr(prog, "_callers"):
        m = {}
        for f in prog.fns.values():
            for n in f.nodes:
                fk = n.get("fk")
                if fk and n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
                                     "CXXTemporaryObjectExpr") and fk != f.key:
                    m.setdefault(fk, set()).add(f.key)
        prog._callers = m
    return prog._callers


def open_struct_locking(R, prog, rec, rule, depth=6):
    """Every access to a public field of a record that carries its own mutex, anywhere in the program, is made with that
    object's mutex held. A function that does not take the lock itself is judged through all of its callers."""
    mutexes = set(mutex_fields(rec))
    tracked = {k: t for k, t in tracked_fields(rec).items()}
    R.need(mutexes, "%s has no mutex field" % rec["name"])
    users = {}
    for f in prog.fns.values():
        if not f.blocks or f.d.get("implicit"):
            continue
        if any(n["k"] == "MemberExpr" and n.get("mk") == "field" and (n["rec"], n["n"]) in tracked for n in f.nodes):
            users[f.key] = f
    R.count("functions that touch the guarded fields", len(users))
    callers = callers_of(prog)
    memo = {}

    def analyse(key):
        if key not in memo:
            f = prog.fns[key]
            G = Graph(prog, f, depth=depth, volatile=True)
            bad, n = [], 0
            acc = accesses(prog, [(f, G)], set(tracked))
            for a in acc:
                n += 1
                if local_object(G, a.base):
                    continue
                if G.root.fn.kind in ("ctor", "dtor") and a.base == ("this",) and G.root.fn.rec == rec["key"]:
                    continue
                if not (own_mutexes(a) & mutexes):
                    bad.append(a)
            memo[key] = (bad, n, G)
        return memo[key]

    def judge(key, site, chain):
        """accesses at `site` (fn key, node) unprotected with `key` as outermost function"""
        bad, n, G = analyse(key)
        hits = [a for a in bad if (a.G.ev[a.ev].frame.fn.key, a.G.ev[a.ev].nid) == site]
        if not hits:
            return None
        cs = [c for c in callers.get(key, ()) if c not in chain and c in prog.fns and prog.fns[c].blocks]
        if not cs or any(prog.fns[c].name.startswith("verif_driver") for c in cs) or len(chain) > 5:
            return hits[0]
        for c in sorted(cs):
            h = judge(c, site, chain + [c])
            if h is not None:
                return h
        return None

    for key, f in sorted(users.items()):
        bad, n, G = analyse(key)
        R.count("field accesses analysed", n)
        done = set()
        for a in bad:
            ev = a.G.ev[a.ev]
            site = (ev.frame.fn.key, ev.nid)
            if site in done:
                continue
            done.add(site)
            h = judge(key, site, [key])
            if h is not None:
                fn = ev.frame.fn
                R.violation(rule, fn.qual, "%s of %s without %s" % ("write" if a.kind != "read" else "read", a.field,
                            "/".join(sorted(mutexes))), ev.where(),
                            "'%s' of %s is %s without holding that object's '%s' (entry %s)" %
                            (a.field, show(a.base), "modified" if a.kind != "read" else "read",
                             "/".join(sorted(mutexes)), h.G.root.fn.qual))
    # nothing hands out the guarded container itself
    for key, f in sorted(users.items()):
        ret = f.d.get("ret", "")
        if not (ret.endswith("&") or ret.endswith("*") or "iterator" in ret):
            continue
        G = analyse(key)[2]
        for i, n in enumerate(f.nodes):
            if n["k"] == "ReturnStmt" and n["c"] and n["c"][0] >= 0:
                rs = proots(G, G.root, n["c"][0], set(tracked)) if ret.endswith("*") else roots(G, G.root, n["c"][0], set(tracked))
                for b, r, fl in rs:
                    if b[0] != "var" and not callers.get(key):
                        R.violation(rule, f.qual, "returns reference to %s" % fl, f.where(i),
                                    "returns a reference, pointer or iterator into '%s', which is protected by a mutex" % fl)


# --------------------------------------------------------------------------------------------- lock order
def private_obj(m):
    """mutex of an object this thread alone can reach: a local or a temporary"""
    return m[0] == "fld" and m[1][0] in ("var", "tmpobj")


def mutex_label(prog, m):
    """class-level name of a mutex term"""
    if m[0] == "fld":
        rs = [r for r in prog.recs.values() if any(f["n"] == m[2] and is_mutex_type(f["t"]) for f in r["fields"])]
        if len(rs) == 1:
            return "%s::%s" % (strip_tmpl(rs[0]["name"]), m[2])
        return "?::" + m[2]
    if m[0] == "glob":
        return m[1]
    if m[0] == "var":
        return "local " + m[3]
    return show(m)


def label_in(prog, m, G, rec_hint=None):
    l = mutex_label(prog, m)
    if l.startswith("?::") and m[0] == "fld":
        b = m[1]
        if b == ("this",) and G.root.fn.rec:
            r = prog.recs.get(G.root.fn.rec)
            # the field may belong to a base class
            for rk, f in prog.all_fields(G.root.fn.rec):
                if f["n"] == m[2] and is_mutex_type(f["t"]):
                    return "%s::%s" % (strip_tmpl(rk), m[2])
        if b[0] in ("call", "m"):
            nm = strip_tmpl(b[1])
            if "::" in nm:
                return "%s::%s" % (nm.rsplit("::", 1)[0], m[2])
        if rec_hint:
            return "%s::%s" % (strip_tmpl(rec_hint), m[2])
    return l


def lock_events(prog):
    """functions that lexically acquire a mutex"""
    out = []
    for f in prog.fns.values():
        if not f.blocks:
            continue
        for n in f.nodes:
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n["t"].replace("const ", "").startswith(GUARD_TYPES):
                out.append(f)
                break
            if n["k"] == "CXXMemberCallExpr" and n["c"]:
                me = f.nodes[n["c"][0]]
                if me["k"] == "MemberExpr" and me["n"] in ("lock", "lock_shared") and "mutex" in me.get("rec", ""):
                    out.append(f)
                    break
    return out


def field_rec(G, fr, nid):
    """record declaring the mutex field named by the argument expression"""
    for _ in range(6):
        if nid is None or nid < 0:
            return None
        n = fr.fn.nodes[nid]
        if n["k"] == "MemberExpr" and n.get("mk") == "field":
            return n.get("rec")
        if n["k"] == "DeclRefExpr":
            r = G._lookup(fr, n["d"]) if n.get("dk") in ("local", "param") else None
            if r and r[0] == "bind":
                fr, nid = r[1]
                continue
            if r and r[0] == "decl" and r[2].get("init") is not None:
                fr, nid = r[1], r[2]["init"]
                continue
            return None
        if n["c"]:
            nid = n["c"][-1] if n["k"] == "CallExpr" else n["c"][0]
        else:
            return None
    return None


def lock_order(R, prog, rule, only=None, depth=8):
    """Acquisition graph over all mutexes: no mutex is acquired while it is held, two objects' mutexes of the same kind are
    only taken together by std::lock on provably different objects, and the class-level order has no cycle."""
    edges = {}
    nacq = 0
    recs = {}
    recursive = set()
    for r in prog.recs.values():
        for f in r["fields"]:
            if is_mutex_type(f["t"]) and "recursive" in f["t"]:
                recursive.add("%s::%s" % (strip_tmpl(r["name"]), f["n"]))
    for f in sorted(lock_events(prog), key=lambda f: f.key):
        if f.file.startswith(VERIF_DIR):
            continue
        G = Graph(prog, f, depth=depth, volatile=True)
        L = Locks(G)
        F = None
        hint = {}

        def lab(m):
            return label_in(prog, m, G, hint.get(m))
        for e in G.ev:
            if e.id not in G.live or e.kind != "stmt":
                continue
            S = L.IN.get(e.id)
            if S is None:
                continue
            out = L.transfer(e, S)
            new = [(k, m) for k, m, h in out if h and (k, m, h) not in S]
            n = e.node
            for a in n["c"]:
                if a >= 0 and new:
                    t = G.term(e.frame, a)
                    r = field_rec(G, e.frame, a)
                    if r:
                        hint[t] = r
            if not new:
                continue
            if n["k"] in ("DeclStmt", "ReturnStmt") or n.get("cc") in ("move", "copy"):
                continue
            if any(a >= 0 and "adopt_lock_t" in e.frame.fn.nodes[a].get("t", "") for a in n["c"]):
                continue  # takes over a mutex that is held already
            nacq += 1
            held = {m for k, m, h in S if h}
            for k, m in new:
                lm = lab(m)
                if only and lm not in only:
                    continue
                if m in held and lm not in recursive and any(h and mm == m and kk != k for kk, mm, h in S):
                    R.violation(rule, e.frame.fn.qual, "re-acquires %s" % lm, e.where(),
                                "'%s' is acquired here although the thread already holds it (entry %s): it blocks for ever"
                                % (show(m), f.qual))
                for h in held:
                    if h == m:
                        continue
                    lh = lab(h)
                    if lh == lm and (private_obj(m) or private_obj(h)):
                        continue
                    if lh == lm:
                        R.violation(rule, e.frame.fn.qual, "two %s in sequence" % lm, e.where(),
                                    "'%s' is acquired while '%s' of another object of the same kind is held; a second thread "
                                    "doing the same with the objects exchanged blocks both" % (show(m), show(h)))
                    edges.setdefault((lh, lm), (e.frame.fn.qual, e.where(), f.qual))
            if len(new) > 1:
                # taken together: they must be different objects
                F = F or Facts(G)
                SF = F.at(e.id)
                for i in range(len(new)):
                    for j in range(i + 1, len(new)):
                        a, b = new[i][1], new[j][1]
                        if lab(a) != lab(b):
                            continue
                        if a == b:
                            R.violation(rule, e.frame.fn.qual, "locks %s twice" % lab(a), e.where(), "the same mutex '%s' is locked twice" % show(a))
                            continue
                        if a[0] == "fld" and b[0] == "fld" and SF is not None:
                            pa, pb = addr(a[1]), addr(b[1])
                            if private_obj(a) or private_obj(b) or (G.root.fn.kind == "ctor" and ("this",) in (a[1], b[1])):
                                continue
                            if f_ne(pa, pb) in SF:
                                continue
                        R.violation(rule, e.frame.fn.qual, "locks two %s that may be one" % lab(a), e.where(),
                                    "'%s' and '%s' are locked together without a test that they belong to different objects; "
                                    "for one and the same object this blocks for ever" % (show(a), show(b)))
    R.count("lock acquisitions analysed", nacq)
    R.count("ordered lock pairs", len(edges))
    # cycles between different kinds
    adj = {}
    for (a, b), w in edges.items():
        if a != b:
            adj.setdefault(a, []).append(b)
    for (a, b), w in sorted(edges.items()):
        if a == b or (only and not (a in only or b in only)):
            continue
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += adj.get(x, [])
        if a in seen:
            R.violation(rule, w[0], "%s before %s" % (a, b), w[1],
                        "'%s' is acquired while '%s' is held (entry %s), and elsewhere in the opposite order" % (b, a, w[2]))
    for (a, b), w in sorted(edges.items())[:6]:
        R.sample("%s taken while %s is held (%s)" % (b, a, w[1]))
    return nacq


def waits_under_foreign_lock(R, prog, rule, depth=8):
    """A thread that waits on a condition variable holds no other mutex than the one the wait releases."""
    nw = 0
    waiting = {f.key for f in prog.fns.values() if f.blocks and
               any(n["k"] == "CXXMemberCallExpr" and is_cv_type(n.get("rec", "")) for n in f.nodes)}
    callers, todo, reach = callers_of(prog), list(waiting), set(waiting)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c)
                todo.append(c)
    acquiring = {f.key for f in lock_events(prog)}
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if not f.blocks or f.file.startswith(VERIF_DIR):
            continue
        if f.key not in waiting and not (f.key in reach and f.key in acquiring):
            continue
        G = Graph(prog, f, depth=depth, volatile=True)
        L = Locks(G)
        for e, cv in cv_events(G, WAITS):
            nw += 1
            held = L.held(e.id)
            n = e.node
            key = L.guard_key(e.frame, n["c"][1]) if len(n["c"]) > 1 else None
            S = L.IN.get(e.id) or ()
            own = {m for k, m, h in S if k == key}
            for m in held - own:
                R.violation(rule, e.frame.fn.qual, "waits holding %s" % mutex_label(prog, m), e.where(),
                            "waits on '%s' while '%s' stays locked: whoever needs that mutex to make progress blocks"
                            % (show(cv), show(m)))
    R.count("waits analysed", nw)
