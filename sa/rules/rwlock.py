"""Readers-writer lock: exclusion, wake-ups, scoped holders."""
import os
from ..ir import AnalysisError, extract, package_sources, short, strip_tmpl, VERIF, REPO
from ..graph import *
from ..graph import deref, addr
from ..facts import Facts, Z
from ..locks import class_entries
from .locking import *

BASE = "aslam::ReaderWriterMutex"


def load(R):
    src = [s for s in package_sources("aslam_cv_common") if "reader" in s]
    if not src:
        src = package_sources("aslam_cv_common")
    prog = extract(src)
    rec = prog.record(BASE)
    R.need(rec, "class " + BASE)
    return prog, rec


def dynamic_classes(prog, rec):
    """(name, entries) for the class and each class derived from it: the methods an object of that class runs"""
    out = []
    base = class_entries(prog, rec["key"])
    out.append((rec["name"], base))
    for d in sorted(prog.derived(rec["key"])):
        own = class_entries(prog, d)
        names = {f.short for f in own if f.kind == "method"}
        out.append((strip_tmpl(d), own + [f for f in base if f.kind == "method" and f.short not in names]))
    return out


class Proto:
    def __init__(self, R, prog, rec, name, entries):
        self.name = name
        self.CL = ClassLocks(prog, rec, entries=entries)
        self.rec = rec
        ints = [f["n"] for f in rec["fields"] if f["t"] in ("unsigned int", "int", "unsigned long", "long", "unsigned short")]
        bools = [f["n"] for f in rec["fields"] if f["t"] == "bool"]
        g = lambda nm: [G for f, G in self.CL.gs if f.short == nm]
        self.g = g
        for nm in ("acquireReadLock", "releaseReadLock", "acquireWriteLock", "releaseWriteLock", "upgradeToWriteLock", "isInUse"):
            R.need(g(nm), "%s::%s" % (name, nm))

        def written(nm, fields, pred):
            return {fl for G in g(nm) for e, fl, d in writes_in(G, rec, set(fields), self.CL) if pred(d)}
        N = written("releaseReadLock", ints, lambda d: d == "-1") or written("acquireReadLock", ints, lambda d: d == "+1")
        W = written("releaseWriteLock", bools, lambda d: True)
        U = written("upgradeToWriteLock", bools, lambda d: d == ("set", ("int", 1))) - W
        R.need(len(W) == 1, "the flag that marks an active writer")
        R.need(N, "the counter of active readers")
        R.need(len(U) == 1, "the flag that marks a pending upgrade")
        # the active-reader counter is what release gives back and upgrade hands over
        N2 = N & written("upgradeToWriteLock", ints, lambda d: d == "-1")
        self.N = sorted(N2 or N)[0]
        self.W, self.U = sorted(W)[0], sorted(U)[0]
        self.others = [i for i in ints if i != self.N]
        self.tN, self.tW, self.tU = [("fld", ("this",), x) for x in (self.N, self.W, self.U)]
        self.P = sorted(written("acquireWriteLock", self.others, lambda d: d == "+1"))
        self.ints, self.bools = ints, bools
        self.protected = None

    def w(self, G, field, d=None):
        return [e for e, fl, dd in writes_in(G, self.rec, {field}, self.CL) if d is None or dd == d]

    def facts(self, G):
        if not hasattr(G, "_rw"):
            G._rw = PFacts(G, self)
        return G._rw


class PFacts(Facts):
    """Across a wait, an upper bound on the number of readers is kept while this thread is registered as a pending writer,
    provided no method admits a reader while a writer is pending."""

    def __init__(self, G, P):
        self.P = P
        self.marks = {}
        if P.protected:
            for e, fl, d in writes_in(G, P.rec, set(P.P), P.CL):
                self.marks[e.id] = d
        super().__init__(G, sync=True)

    def step(self, e, S):
        mark = ("T", ("own", "pending"))
        keep = frozenset()
        if self.acquires(e) and mark in S:
            keep = frozenset(f for f in S if f[0] == "le" and f[1] == self.P.tN)
        S = super().step(e, S) | keep
        d = self.marks.get(e.id)
        if d == "+1":
            S = S | {mark}
        elif d is not None:
            S = S - {mark}
        return S


def net(G, incs, decs):
    """possible net changes at the exit of the graph"""
    i, d = {e.id for e in incs}, {e.id for e in decs}

    def tr(e, S):
        k = (1 if e.id in i else 0) - (1 if e.id in d else 0)
        return frozenset(max(-4, min(4, x + k)) for x in S) if k else S
    IN = forward(G, frozenset([0]), tr, lambda A, B: A | B)
    return IN.get(G.exit, frozenset()), IN


def no_readers(P, F, S):
    if F.entails_le(S, P.tN, ("int", 0)):
        return True
    for f in S:
        if f[0] == "le" and f[1] == P.tN and f[2][0] == "cond" and f[3] == 0 and f[2][1] == P.tU:
            c = f[2]
            if ("F", P.tU) in S and c[3] == ("int", 0):
                return True
    return False


def p_exclusion(R):
    prog, rec = load(R)
    R.rule("guarded", "All state of the lock is accessed only under its internal mutex.")
    R.rule("reader-grant", "The reader count is raised only where 'no active writer' holds in the same critical section.")
    R.rule("writer-grant", "The active-writer flag is raised only where 'no other active writer' and 'no active reader' hold; "
           "a bound on the reader count survives a wait only while a pending writer provably keeps readers out.")
    R.rule("balance", "Every method changes the reader count and flags by exactly its share on every path.")
    R.rule("in-use", "isInUse answers false only when every counter is zero and every flag is clear.")
    R.rule("scoped", "A scoped lock acquires in its constructor, releases exactly once unless moved from, and moving empties the source.")
    for name, entries in dynamic_classes(prog, rec):
        P = Proto(R, prog, rec, name, entries)
        guarded_state(R, P.CL, "guarded", "lock field")
        # does a pending writer keep readers out?
        prot = bool(P.P)
        for f, G in P.CL.gs:
            F0 = Facts(G, sync=True)
            for e in P.w(G, P.N, "+1"):
                S = F0.at(e.id) or frozenset()
                R.count("reader grants analysed")
                if ("F", P.tW) not in S:
                    R.violation("reader-grant", e.frame.fn.qual, "reader admitted with a writer active", e.where(),
                                "[%s] a reader is admitted although '%s' is not known to be false in this critical section"
                                % (name, P.W))
                if not all(F0.entails_le(S, ("fld", ("this",), p), ("int", 0)) for p in P.P):
                    prot = False
        P.protected = prot
        for f, G in P.CL.gs:
            F = P.facts(G)
            if is_ctor(G) or is_dtor(G):
                continue
            for e in P.w(G, P.W, ("set", ("int", 1))):
                R.count("writer grants analysed")
                S = F.at(e.id) or frozenset()
                handed = [x for x in P.w(G, P.N, "-1")]
                if not handed and ("F", P.tW) not in S:
                    R.violation("writer-grant", e.frame.fn.qual, "second writer admitted", e.where(),
                                "[%s] a writer is admitted although '%s' is not known to be false in this critical section"
                                % (name, P.W))
                # at the end of the critical section
                IN = F.run_from(e.id)
                S2 = IN.get(G.exit)
                for x in IN:
                    ev = G.ev[x]
                    if is_wait_ev(ev) and x != e.id:
                        R.violation("writer-grant", e.frame.fn.qual, "waits after the grant", ev.where(),
                                    "[%s] waits again after the active-writer flag was raised" % name)
                if S2 is not None and not no_readers(P, F, S2):
                    R.violation("writer-grant", e.frame.fn.qual, "writer admitted with readers active", e.where(),
                                "[%s] a writer is admitted although '%s' is not known to be zero in this critical section"
                                % (name, P.N))
                if S2 is not None and not (("F", P.tU) in S2):
                    R.violation("writer-grant", e.frame.fn.qual, "writer admitted during an upgrade", e.where(),
                                "[%s] a writer is admitted although an upgrade may be pending ('%s' not known to be false): "
                                "the upgrading reader still holds the lock" % (name, P.U))
            for e in P.w(G, P.U, ("set", ("int", 1))):
                S = F.at(e.id) or frozenset()
                R.count("upgrade claims analysed")
                if ("F", P.tU) not in S:
                    R.violation("writer-grant", e.frame.fn.qual, "two upgrades at once", e.where(),
                                "[%s] an upgrade is claimed although another may be pending: both wait for the other's read "
                                "lock" % name)
            # net effects
            nN, _ = net(G, P.w(G, P.N, "+1"), P.w(G, P.N, "-1"))
            exp = {"acquireReadLock": 1, "releaseReadLock": -1, "upgradeToWriteLock": -1}.get(f.short, 0)
            R.count("methods balanced")
            if nN and nN != frozenset([exp]):
                R.violation("balance", f.qual, "reader count changes by %s" % sorted(nN), f.where(),
                            "[%s] %s changes the number of active readers by %s on some path, expected %+d" %
                            (name, f.short, "/".join("%+d" % x for x in sorted(nN)), exp))
            for e, fl, d in writes_in(G, rec, {P.N}, P.CL):
                if d not in ("+1", "-1"):
                    R.violation("balance", f.qual, "reader count overwritten", e.where(), "[%s] the reader count is overwritten" % name)
            S = F.at(G.exit)
            if f.short == "acquireWriteLock" and S is not None and ("T", P.tW) not in S:
                R.violation("balance", f.qual, "returns without becoming the writer", f.where(),
                            "[%s] acquireWriteLock can return without raising '%s'" % (name, P.W))
            if f.short == "releaseWriteLock" and S is not None and ("F", P.tW) not in S:
                R.violation("balance", f.qual, "writer not released", f.where(),
                            "[%s] releaseWriteLock can return without clearing '%s'" % (name, P.W))
            if f.short not in ("acquireWriteLock", "releaseWriteLock", "upgradeToWriteLock"):
                for e in P.w(G, P.W):
                    R.violation("balance", f.qual, "writer flag changed in %s" % f.short, e.where(),
                                "[%s] %s changes the active-writer flag" % (name, f.short))
            if f.short != "upgradeToWriteLock":
                for e in P.w(G, P.U):
                    R.violation("balance", f.qual, "upgrade flag changed in %s" % f.short, e.where(),
                                "[%s] %s changes the pending-upgrade flag" % (name, f.short))
            if f.short == "upgradeToWriteLock":
                upgrade_results(R, P, G, F, name)
            if f.short == "isInUse":
                in_use(R, P, G, F, name)
    scoped(R, prog, rec)
    R.atleast("reader grants analysed", 2)
    R.atleast("writer grants analysed", 3)
    R.atleast("scoped lock methods analysed", 6)


def is_wait_ev(ev):
    return ev.kind == "stmt" and ev.node["k"] == "CXXMemberCallExpr" and short(ev.node.get("fn", "")) in WAITS and \
        is_cv_type(ev.node.get("rec", ""))


def returns(G):
    """(return event, term) of the entry function"""
    out = []
    for e in G.ev:
        if e.id in G.live and e.kind == "stmt" and e.frame is G.root and e.node["k"] == "ReturnStmt" and e.node["c"]:
            out.append((e, G.term(G.root, e.node["c"][0])))
    return out


def upgrade_results(R, P, G, F, name):
    for e, t in returns(G):
        S = F.at(e.id) or frozenset()
        for val in (True, False):
            S2 = F.assume(S, t, val) if t[0] != "int" else (S if bool(t[1]) == val else None)
            if S2 is None:
                continue
            R.count("upgrade results analysed")
            if val and ("T", P.tW) not in S2:
                R.violation("balance", e.frame.fn.qual, "upgrade reports success without the write lock", e.where(),
                            "[%s] upgradeToWriteLock reports success although '%s' is not set" % (name, P.W))
            if not val:
                r = reachable(G, e.id, back=True)
                if any(x.id in r for x in P.w(G, P.W, ("set", ("int", 1)))):
                    if ("F", P.tW) not in S2:
                        R.violation("balance", e.frame.fn.qual, "upgrade reports failure with the write lock", e.where(),
                                    "[%s] upgradeToWriteLock reports failure although '%s' may be set" % (name, P.W))


def in_use(R, P, G, F, name):
    for e, t in returns(G):
        S = F.at(e.id) or frozenset()
        S2 = F.assume(S, t, False) if t[0] != "int" else (S if not t[1] else None)
        if S2 is None:
            continue
        R.count("in-use answers analysed")
        for i in [P.N] + P.P:
            if not F.entails_le(S2, ("fld", ("this",), i), ("int", 0)):
                R.violation("in-use", e.frame.fn.qual, "false although %s may be positive" % i, e.where(),
                            "isInUse() answers false although '%s' may be positive" % i)
        for b in P.bools:
            if ("F", ("fld", ("this",), b)) not in S2:
                R.violation("in-use", e.frame.fn.qual, "false although %s may be set" % b, e.where(),
                            "isInUse() answers false although '%s' may be set" % b)


def scoped(R, prog, rec):
    pairs = (("aslam::ScopedReadLock", "acquireReadLock", "releaseReadLock"),
             ("aslam::ScopedWriteLock", "acquireWriteLock", "releaseWriteLock"))
    for cls, acq, rel in pairs:
        r = prog.record(cls)
        R.need(r, "class " + cls)
        ptr = [f for f in r["fields"] if f["t"].endswith("*")]
        R.need(len(ptr) == 1, "the mutex pointer of " + cls)
        tp = ("fld", ("this",), ptr[0]["n"])
        for f in prog.methods_of(r["key"]):
            if f.d.get("implicit") or not f.blocks or f.kind not in ("ctor", "dtor", "method"):
                continue
            G = Graph(prog, f)
            F = Facts(G)
            calls = lambda nm: [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and
                                short(e.node.get("fn", "")) == nm]
            R.count("scoped lock methods analysed")
            move = f.kind == "ctor" and f.params and cls in f.params[0]["t"]
            A, B = calls(acq), calls(rel)
            wrong = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and
                     short(e.node.get("fn", "")) in {"acquireReadLock", "releaseReadLock", "acquireWriteLock",
                                                     "releaseWriteLock"} - {acq, rel}]
            for e in wrong:
                R.violation("scoped", f.qual, "calls %s" % short(e.node["fn"]), e.where(), "%s calls %s" % (cls, short(e.node["fn"])))
            n, IN = net(G, A, B)
            if f.kind == "ctor" and not move:
                if n and n != frozenset([1]):
                    R.violation("scoped", f.qual, "constructor acquires %s times" % sorted(n), f.where(),
                                "the constructor of %s does not acquire the lock exactly once on every path" % cls)
                for e in A:
                    o = G.obj_term(e.frame, e.node["c"][0])
                    if not (contains(o, tp) or contains(o, ("param", 0, f.params[0]["n"]))):
                        R.violation("scoped", f.qual, "acquires another mutex", e.where(), "%s acquires a mutex it does not store" % cls)
            elif move:
                if n and n != frozenset([0]):
                    R.violation("scoped", f.qual, "move changes the lock", f.where(), "moving a %s acquires or releases the lock" % cls)
                S = F.at(G.exit) or frozenset()
                src = ("fld", ("deref", ("param", 0, f.params[0]["n"])), ptr[0]["n"])
                src2 = ("fld", ("param", 0, f.params[0]["n"]), ptr[0]["n"])
                if ("F", src) not in S and ("F", src2) not in S:
                    R.violation("scoped", f.qual, "source keeps the mutex", f.where(),
                                "after moving a %s the source still refers to the mutex and releases it a second time" % cls)
                st = [i for e in G.ev if e.kind == "init" and e.d.get("init") == ptr[0]["n"] for i in [e]] + \
                     [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "BinaryOperator" and
                      e.node["op"] == "=" and G.term(e.frame, e.node["c"][0]) == tp]
                if not st:
                    R.violation("scoped", f.qual, "mutex not taken over", f.where(), "moving a %s does not take over the mutex" % cls)
                elif all(e.kind == "init" and G.term(e.frame, e.nid) == ("null",) for e in st):
                    R.violation("scoped", f.qual, "mutex not taken over", f.where(), "moving a %s does not take over the mutex" % cls)
                else:
                    # taken over before the source is emptied
                    for e in st:
                        if e.kind == "stmt" and (("F", src) in (F.at(e.id) or ()) or ("F", src2) in (F.at(e.id) or ())):
                            R.violation("scoped", f.qual, "source emptied too early", e.where(),
                                        "moving a %s empties the source before taking over its mutex" % cls)
            elif f.kind == "dtor":
                S0 = frozenset([("T", tp)])
                rel_ids = {e.id for e in B}
                IN = F.run_from(G.entry, lambda ev: ev.id in rel_ids, S0)
                if G.exit in IN:
                    R.violation("scoped", f.qual, "not released", f.where(), "the destructor of %s can end without releasing the lock" % cls)
                for e in B:
                    if ("T", tp) not in (F.at(e.id) or frozenset()):
                        R.violation("scoped", f.qual, "released through an empty holder", e.where(),
                                    "the destructor of %s releases through a pointer that is null after a move" % cls)
                    IN = F.run_from(e.id, None)
                    if any(x.id in IN and x.id != e.id for x in B):
                        R.violation("scoped", f.qual, "released twice", e.where(), "the destructor of %s releases twice" % cls)
        # no copying
        for m in r["methods"]:
            if m.get("kind") == "ctor" and m.get("copy") and not m.get("deleted"):
                R.violation("scoped", cls, "copyable", "%s:%s" % (r.get("file", ""), m.get("line", 0)),
                            "%s can be copied: the lock would be released twice" % cls)


def p_progress(R):
    prog, rec = load(R)
    R.rule("wait-loop", "Each wait holds the mutex and every path from it re-tests its condition before leaving.")
    R.rule("notify", "Each change that can make a waiter runnable is followed by a notification of its condition variable; "
           "decided on the finite abstraction of the lock state (flags exact, counters 0/1/2/many): from every state in which a "
           "waiter goes back to sleep, no operation may end without a notification in a state in which it would not.")
    R.rule("pending", "Counters of waiting threads return to their value on every path through the method.")
    for name, entries in dynamic_classes(prog, rec):
        P = Proto(R, prog, rec, name, entries)
        cv_discipline(R, P.CL, "wait-loop", "notify")
        for f, G in P.CL.gs:
            if is_ctor(G) or is_dtor(G):
                continue
            for o in P.others:
                n, _ = net(G, P.w(G, o, "+1"), P.w(G, o, "-1"))
                R.count("pending counters balanced")
                if n and n != frozenset([0]):
                    R.violation("pending", f.qual, "%s changes by %s" % (o, sorted(n)), f.where(),
                                "[%s] %s leaves '%s' changed by %s: waiting threads are blocked for good or let through early" %
                                (name, f.short, o, "/".join("%+d" % x for x in sorted(n))))
            S = P.facts(G).at(G.exit) if f.short == "upgradeToWriteLock" else None
            if S is not None:
                for e in P.w(G, P.U, ("set", ("int", 1))):
                    IN = P.facts(G).run_from(e.id)
                    if G.exit in IN and ("F", P.tU) not in IN[G.exit]:
                        R.violation("pending", f.qual, "upgrade stays pending", f.where(),
                                    "[%s] the upgrade can end without clearing '%s': nobody is ever admitted again" % (name, P.U))
        L = {id(G): P.CL.L(G) for f, G in P.CL.gs}
        for f, G in P.CL.gs:
            h = L[id(G)].held(G.exit)
            if any(m[0] == "fld" for m in h):
                R.violation("pending", f.qual, "internal mutex kept", f.where(), "[%s] %s returns with the internal mutex locked" % (name, f.short))
    R.atleast("wait sites", 7)
    R.atleast("waiter/operation pairs decided", 15)


CHECKS = {"P05": p_exclusion, "P06": p_progress}
