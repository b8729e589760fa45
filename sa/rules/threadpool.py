"""Thread pool: shared state, wake-ups, group exclusivity and order, life cycle."""
import os
from ..ir import AnalysisError, extract, package_sources, short, strip_tmpl, VERIF, REPO
from ..graph import *
from ..graph import deref, addr
from ..facts import Facts, Z, lin, f_le, boolish
from ..locks import Locks, roots
from .locking import *
from . import locking

CLS = "aslam::ThreadPool"


class Pool:
    def __init__(self, R):
        src = [os.path.join(REPO, "aslam_cv_common/src/thread-pool.cc"), os.path.join(VERIF, "drivers/thread_pool.cc")]
        if not os.path.exists(src[0]):
            src = package_sources("aslam_cv_common") + src[1:]
        self.prog = extract(src)
        self.rec = self.prog.record(CLS)
        R.need(self.rec, "class " + CLS)
        # instantiated members of the driver belong to the class; so do lambdas inside them
        self.CL = ClassLocks(self.prog, self.rec)
        self.queue = [f["n"] for f in self.rec["fields"] if "std::function<" in f["t"]]
        R.need(len(self.queue) == 1, "one container of tasks in the thread pool")
        self.queue = self.queue[0]
        self.guards = [f["n"] for f in self.rec["fields"] if "std::function<" not in f["t"] and
                       ("map<" in f["t"] or "set<" in f["t"])]
        self.guard_kind = {f["n"]: ("set" if "set<" in f["t"] else "map") for f in self.rec["fields"]
                           if f["n"] in self.guards}
        R.count("functions analysed", len({f.key for f, G in self.CL.gs} | set().union(*[G.inlined for f, G in self.CL.gs])))
        self.lambda_only = self.inserted_are_callable()
        self.qt = [f["t"] for f in self.rec["fields"] if f["n"] == self.queue][0]

    def graphs(self, name):
        return [(f, G) for f, G in self.CL.gs if f.short == name]

    def q_events(self, G, kind):
        """modifications of the task queue: 'in' or 'out'"""
        out = []
        for e, fl, d in writes_in(G, self.rec, {self.queue}, self.CL):
            if kind == "in" and d == "up" or kind == "out" and d == "down" or kind == "other" and d not in ("up", "down"):
                out.append(e)
        return out

    def inserted_are_callable(self):
        """every element put into the queue carries a lambda (so it is never an empty function)"""
        for f, G in self.CL.gs:
            for e in self.q_events(G, "in"):
                fr, n = e.frame, e.node
                if not self.has_lambda(G, fr, n["c"][1:]):
                    return False
        return True

    def has_lambda(self, G, fr, args, depth=0):
        for a in args:
            if a < 0 or depth > 8:
                continue
            if G.find_lambda(fr, a):
                return True
            n = fr.fn.nodes[a]
            if n["k"] in ("CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr"):
                if self.has_lambda(G, fr, n["c"], depth + 1):
                    return True
            if n["k"] == "DeclRefExpr":
                r = G._lookup(fr, n["d"])
                if r and r[0] == "decl" and r[2].get("init") is not None and \
                        self.has_lambda(G, r[1], [r[2]["init"]], depth + 1):
                    return True
        return False

    def seed(self, F, e, S):
        """a function object copied or moved out of the task queue is not empty"""
        if e.kind != "stmt" or not self.lambda_only:
            return S
        n, fr = e.node, e.frame
        if n["k"] == "CXXOperatorCallExpr" and n["op"] == "=" and "std::function" in n.get("rec", "") and len(n["c"]) > 2:
            if self.from_queue(F.G, fr, n["c"][2]):
                return S | {("T", F.G.term(fr, n["c"][1]))}
        if n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d["t"].startswith("std::function<") and d.get("init") is not None and \
                        self.from_queue(F.G, fr, d["init"]):
                    S = S | {("T", ("var", fr.id, d["d"], d["n"]))}
        return S

    def from_queue(self, G, fr, nid):
        n = fr.fn.nodes[nid]
        while n["k"] in ("CXXConstructExpr",) and len(n["c"]) == 1 or \
                n["k"] == "CallExpr" and n.get("fn") in ("std::move", "std::forward"):
            nid = n["c"][-1]
            n = fr.fn.nodes[nid]
        t = G.term(fr, nid)
        if any(x[0] == "fld" and x[2] == self.queue for x in subterms(t)):
            return True
        return bool(roots(G, fr, nid, {(self.rec["key"], self.queue)}))

    def facts(self, G):
        if not hasattr(G, "_pf"):
            G._pf = Facts(G, sync=True, seed=self.seed)
        return G._pf

    def invocations(self, G):
        """calls of a function object that came out of the queue"""
        out = []
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXOperatorCallExpr" and e.node["op"] == "()" and \
                    e.node.get("rec", "").startswith("std::function"):
                out.append(e)
        return out

    def workers(self, R):
        out = []
        for f, G in self.CL.gs:
            inv = self.invocations(G)
            if inv:
                out.append((f, G, inv))
        R.need(out, "the loop that runs queued tasks")
        return out


def p_state(R):
    P = Pool(R)
    R.rule("guarded", "Eraser-style: every field of the pool that changes after construction is accessed only with one "
           "common mutex of the same object held (must-lockset over the inlined control-flow graph of each entry point, "
           "thread function and escaping lambda).")
    n = guarded_state(R, P.CL, "guarded", "ThreadPool field")
    R.atleast("guarded fields", 3)
    R.atleast("entry points analysed", 8)


def p_wakeup(R):
    P = Pool(R)
    R.rule("wait-loop", "Each wait holds the mutex and every path from it re-tests a condition over shared state before leaving.")
    R.rule("notify", "Each change of state read by a waiter's condition is followed, on every feasible path to the end of the "
           "operation or to the next wait, by a notification of that condition variable (notify_all where waiters differ).")
    cv_discipline(R, P.CL, "wait-loop", "notify", seed=P.seed)
    R.atleast("wait sites", 2)
    R.atleast("state changes checked for a notification", 8)


def unlocks(P, G):
    """events at which the pool's mutex stops being held (unlock, guard destruction) or a wait releases it"""
    L = P.CL.L(G)
    out = []
    for e in G.ev:
        if e.id not in G.live:
            continue
        a, b = L.held(e.id), L.held_out(e.id)
        if {m for m in a if m[0] == "fld"} - b:
            out.append(e)
        elif e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and short(e.node.get("fn", "")) in WAITS and \
                is_cv_type(e.node.get("rec", "")):
            out.append(e)
    return out


def counter_events(G, P, field):
    inc, dec = [], []
    for e, fl, d in writes_in(G, P.rec, {field}, P.CL):
        (inc if d in ("+1", "up") else dec if d in ("-1", "down") else []).append(e)
    return inc, dec


def p_order(R):
    P = Pool(R)
    R.rule("append", "Tasks enter the queue only at its end, and the queue is searched from its front.")
    R.rule("exclusive", "A task is taken only when it is non-exclusive or its group's guard is clear; the guard is set before the "
           "lock is released and cleared, for the same group, after the task returned.")
    R.rule("single", "Between taking a task and running it no second task is taken.")
    if not P.guards:
        R.need(False, "the table of busy exclusivity groups")
    gname = set(P.guards)
    # -- append
    for f, G in P.CL.gs:
        for e in P.q_events(G, "in"):
            nm = short(e.node.get("fn", ""))
            R.count("insertions analysed")
            ok = nm in ("emplace_back", "push_back", "push")
            if nm in ("insert", "emplace") and len(e.node["c"]) > 1:
                t = G.term(e.frame, e.node["c"][1])
                if t[0] == "m" and t[1] in ("end", "cend"):
                    ok = True
            if not ok:
                R.violation("append", e.frame.fn.qual, "%s on the task queue" % nm, e.where(),
                            "a task is put into the queue by '%s', not at its end: tasks of one group may run out of order" % nm)
        for e, fl, d in writes_in(G, P.rec, {P.queue}, P.CL):
            if d not in ("up", "down"):
                R.violation("append", e.frame.fn.qual, "task queue reordered", e.where(),
                            "the task queue is overwritten or reordered as a whole")
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CallExpr" and \
                    strip_tmpl(e.node.get("fn", "")) in ("std::sort", "std::reverse", "std::rotate", "std::swap",
                                                         "std::random_shuffle", "std::shuffle", "std::partition"):
                for a in e.node["c"][1:]:
                    if roots(G, e.frame, a, {(P.rec["key"], P.queue)}):
                        R.violation("append", e.frame.fn.qual, "task queue reordered", e.where(),
                                    "the task queue is reordered")
    R.atleast("insertions analysed", 1)
    # -- workers
    for f, G, inv in P.workers(R):
        F = P.facts(G)
        outs = P.q_events(G, "out")
        R.need(outs, "removal of a task from the queue in the worker")
        unl = {e.id for e in unlocks(P, G)}
        inv_ids = {e.id for e in inv}
        gset, gclr = [], []
        for e in G.ev:
            if e.id not in G.live or e.kind != "stmt":
                continue
            n, fr = e.node, e.frame
            if n["k"] == "BinaryOperator" and n["op"] == "=":
                t = G.term(fr, n["c"][0])
                if mentions(P, G, fr, n["c"][0], gname):
                    v = G.term(fr, n["c"][1])
                    if v == ("int", 1):
                        gset.append((e, guard_group(G, t)))
                    elif v == ("int", 0):
                        gclr.append((e, guard_group(G, t)))
            if n["k"] == "CXXMemberCallExpr":
                me = fr.fn.nodes[n["c"][0]]
                if me["k"] == "MemberExpr" and me["n"] in ("insert", "erase", "emplace"):
                    o = G.obj_term(fr, n["c"][0])
                    if o[0] == "fld" and o[2] in gname and P.guard_kind.get(o[2]) == "set" and len(n["c"]) > 1:
                        (gclr if me["n"] == "erase" else gset).append((e, G.term(fr, n["c"][1])))
        R.count("guard updates analysed", len(gset) + len(gclr))
        set_ids, clr_ids = {e.id for e, _ in gset}, {e.id for e, _ in gclr}
        for e in outs:
            R.count("selections analysed")
            # continuous lock from the choice to the marking
            rel = unl | inv_ids | {G.exit}
            IN = F.run_from(e.id, lambda ev: ev.id in set_ids or ev.id in rel)
            for t in sorted(IN):
                if t == e.id:
                    continue
                if t in unl or t in inv_ids or t == G.exit:
                    if not nonexclusive(P, G, F, IN[t]):
                        R.violation("exclusive", e.frame.fn.qual, "lock released before the group is marked busy",
                                    e.where(),
                                    "a task of an exclusive group is taken here and the lock is released (%s) before the group "
                                    "is marked busy: another worker may run the same group" % G.ev[t].where())
                        break
            # no second selection before running
            r = F.run_from(e.id, lambda ev: ev.id in inv_ids)
            for e2 in outs:
                if e2.id in r and (e2.id != e.id or in_cycle(F, G, e.id, inv_ids)):
                    R.violation("single", e.frame.fn.qual, "second selection before running", e.where(),
                                "after taking a task, another one can be taken (%s) before the first has run" % e2.where())
                    break
        for e in inv:
            R.count("task invocations analysed")
            rel = unl | inv_ids | {G.exit}
            IN = F.run_from(e.id, lambda ev: ev.id in clr_ids or ev.id in rel)
            for t in sorted(IN):
                ev = G.ev[t]
                if t == e.id:
                    continue
                if t in unl or t == G.exit or t in inv_ids:
                    if not nonexclusive(P, G, F, IN[t]) and t not in clr_ids:
                        R.violation("exclusive", e.frame.fn.qual, "group stays marked busy", e.where(),
                                    "after a task of an exclusive group has run, a path (to %s) does not clear the group's "
                                    "mark: its later tasks never run" % ev.where())
                        break
            # cleared only after the task returned
            pre = {x for x in reachable(G, e.id, back=True)}
        # guard cleared before the task runs?
        for s in sorted(set_ids):
            IN = F.run_from(s, lambda ev: ev.id in inv_ids)
            for c in clr_ids:
                if c in IN:
                    R.violation("exclusive", G.ev[c].frame.fn.qual, "mark cleared before the task has run", G.ev[c].where(),
                                "the busy mark of the group is cleared before its task has run")
        # same group marked and cleared as selected
        groups = {g for _, g in gset if g} | {g for _, g in gclr if g}
        if len(groups) > 1:
            e = gclr[0][0]
            R.violation("exclusive", e.frame.fn.qual, "different groups marked and cleared", e.where(),
                        "the busy mark set (%s) and cleared (%s) belong to different groups" %
                        tuple((", ".join(sorted(show(g) for _, g in x if g)) for x in (gset, gclr))))
        selection(R, P, G, F, outs, gname)
    R.atleast("selections analysed", 1)
    R.atleast("guard updates analysed", 2)
    R.atleast("task invocations analysed", 1)
    # guards are never set anywhere else, and never removed while a group may be busy
    wk = {id(G) for f, G, inv in P.workers(R)}
    for f, G in P.CL.gs:
        if id(G) in wk or is_ctor(G) or is_dtor(G):
            continue
        for e, fl, d in writes_in(G, P.rec, gname, P.CL):
            R.count("guard updates analysed")
            n = e.node
            nm = short(n.get("fn", "")) if n["k"] == "CXXMemberCallExpr" else "="
            if P.guard_kind.get(fl) == "map" and nm in ("emplace", "insert"):
                continue  # does not overwrite an existing entry
            if nm == "=" and overwrites_absent(P, G, e, gname):
                continue
            R.violation("exclusive", e.frame.fn.qual, "group mark changed outside the worker", e.where(),
                        "the table of busy groups is changed here (%s) although a worker may be running a task of the group" % nm)


def overwrites_absent(P, G, e, gname):
    """assignment guarded by a test that the group has no entry yet"""
    F = P.facts(G)
    S = F.at(e.id) or frozenset()
    for f in S:
        if f[0] == "le":
            for x in (f[1], f[2]):
                for y in subterms(x):
                    if y[0] == "m" and y[1] in ("count", "find", "end") and y[2][0] == "fld" and y[2][2] in gname:
                        return True
    return False


def in_cycle(F, G, eid, inv_ids):
    """can the event be reached again from itself on a feasible path without running the task?"""
    IN = F.run_from(eid, lambda ev: ev.id in inv_ids)
    for p, c in G.ev[eid].pred:
        if p in IN and p not in inv_ids:
            S = F.step(G.ev[p], IN[p])
            if c is None or F.edge(S, c) is not None:
                return True
    return False


def mentions(P, G, fr, nid, names):
    t = G.term(fr, nid)
    if any(x[0] == "fld" and x[2] in names for x in subterms(t)):
        return True
    return bool(roots(G, fr, nid, {(P.rec["key"], g) for g in names}))


def guard_group(G, t):
    """the key of the guard entry written: idx(guards, key) or find(guards, key)->second"""
    for x in subterms(t):
        if x[0] == "idx" and len(x) == 3:
            return x[2]
        if x[0] == "m" and x[1] in ("find", "at") and len(x) > 3:
            return x[3]
    return None


NONEX = "kGroupdIdNonExclusiveTask"


def is_nonex(t):
    return t == ("int", 2 ** 64 - 1) or t == ("int", -1) or (t[0] == "glob" and "NonExclusive" in t[1])


def nonexclusive(P, G, F, S):
    """some group id is known to be the non-exclusive one"""
    for f in S:
        if f[0] == "le" and f[1] != Z and f[2] != Z:
            pass
        if f[0] == "le":
            x, y, c = f[1], f[2], f[3]
            if y == Z and ("le", Z, x, -c) in S and (c == 2 ** 64 - 1 or c == -1):
                return True
            if (y[0] == "glob" and "NonExclusive" in y[1] or x[0] == "glob" and "NonExclusive" in x[1]) and c == 0 and \
                    ("le", y, x, 0) in S:
                return True
    return False


def selection(R, P, G, F, outs, gname):
    """a task whose group is exclusive and busy is never selected; the search runs forward and the element removed is
    the one examined"""
    from ..boolflow import BoolFlow
    for e in outs:
        B = BoolFlow(G, F)
        states = B.at(e.id)
        if states is None:
            R.note("%s: selection not analysed (too many branch combinations)" % e.where())
            continue
        R.count("branch combinations at selections", len(states))
        bad = None
        for s in states:
            excl = None
            busy = None
            for t, v in s:
                if t[0] == "bin" and t[1] == "==" and (is_nonex(t[2]) or is_nonex(t[3])):
                    if excl is None or v is False:
                        excl = not v
                if P.guard_lit(t, gname):
                    if t[0] == "bin":
                        v = not v  # find(group) == end()
                    busy = v if busy is None else (busy or v)
            if excl is False or busy is False:
                continue
            bad = s
            break
        if bad is not None:
            R.violation("exclusive", e.frame.fn.qual, "busy group not excluded from selection", e.where(),
                        "a task is taken here on a path where neither 'the task is non-exclusive' nor 'its group is not "
                        "busy' was established (known there: %s)" % ("; ".join("%s%s" % ("" if v else "not ", show(t))
                                                                               for t, v in sorted(bad, key=repr)) or "nothing"))
        # direction of the search
        n = e.node
        for i, m in enumerate(e.frame.fn.nodes):
            if m["k"] == "CXXMemberCallExpr" and short(m.get("fn", "")) in ("rbegin", "rend", "crbegin", "crend", "back",
                                                                            "pop_back"):
                o = G.obj_term(e.frame, m["c"][0])
                if o[0] == "fld" and o[2] == P.queue:
                    R.violation("append", e.frame.fn.qual, "queue searched from its end", e.frame.fn.where(i),
                                "the worker takes tasks from the end of the queue (%s): tasks of one group run out of order"
                                % short(m.get("fn", "")))
        removed(R, P, G, F, e)


def removed(R, P, G, F, e):
    """the removed element is the examined one"""
    n, fr = e.node, e.frame
    nm = short(n.get("fn", ""))
    if nm in ("pop_front", "pop"):
        return
    if nm != "erase" or len(n["c"]) < 2:
        return
    t = G.term(fr, n["c"][1])
    # erase(begin() + i) with a counter: i must advance in step with the search
    if t[0] == "bin" and t[1] == "+" and t[2][0] == "m" and t[2][1] in ("begin", "cbegin") and t[3][0] == "var":
        var = t[3]
        loop = loop_events(G, e.id)
        if not loop:
            # left by break: the loop is the one around the element variable; use the events that reach the erase and
            # are reached from the counter's step
            pass
        incs = [x for x in G.live if G.ev[x].kind == "stmt" and G.ev[x].frame.fn is fr.fn and
                G.ev[x].node["k"] == "UnaryOperator" and G.ev[x].node["op"] in ("++", "--") and
                G.term(G.ev[x].frame, G.ev[x].node["c"][0]) == var]
        steps = [x for x in G.live if G.ev[x].kind == "stmt" and G.ev[x].frame.fn is fr.fn and
                 G.ev[x].node["k"] == "CXXOperatorCallExpr" and G.ev[x].node["op"] == "++" and
                 e.id in reachable(G, x) and
                 roots(G, G.ev[x].frame, G.ev[x].node["c"][1], {(P.rec["key"], P.queue)})]
        if any(G.ev[x].node["op"] == "--" for x in incs):
            R.violation("append", fr.fn.qual, "counter runs backwards", e.where(),
                        "the position of the removed task runs backwards through the queue")
        if steps:
            sset, iset = set(steps), set(incs)
            R.count("search positions analysed")
            # every step of the search passes exactly one step of the counter
            for s in steps:
                r = reachable(G, s, stop=lambda ev: ev.id in iset)
                back = [x for x in r if x in sset and same_iteration(G, s, x, fr)]
                if back:
                    R.violation("append", fr.fn.qual, "position out of step with the search", e.where(),
                                "the search can advance to the next task without advancing the position by which the task "
                                "is removed: a different task than the one examined leaves the queue")
            for i in incs:
                r = reachable(G, i, stop=lambda ev: ev.id in sset or is_decl_of(G, ev, var))
                if any(x in r for x in incs) or e.id in r:
                    R.violation("append", fr.fn.qual, "position out of step with the search", e.where(),
                                "the position by which the task is removed advances without the search: a different task "
                                "than the one examined leaves the queue")
    return


def is_decl_of(G, ev, var):
    return ev.kind == "stmt" and ev.node["k"] == "DeclStmt" and any(d["d"] == var[2] for d in ev.node["decls"])


def same_iteration(G, s, x, fr):
    """x follows s within one run of the search loop (the range is not re-initialised in between)"""
    def stop(ev):
        return ev.kind == "stmt" and ev.node["k"] == "DeclStmt" and any(d["n"].startswith("__begin") or "iterator" in d["t"]
                                                                        for d in ev.node["decls"])
    return x in reachable(G, s, stop=stop)


def guard_lit(self, t, gname):
    """a test of the busy mark of one group: guards[key], guards.at(key), find(key)->second, count(key),
    find(key) == end()"""
    isg = lambda x: x[0] == "fld" and x[2] in gname
    if t[0] == "bin":
        return t[1] == "==" and any(x[0] == "m" and x[1] == "find" and isg(x[2]) for x in t[2:4])
    if t[0] == "fld" and t[2] == "second":
        t = t[1]
    if t[0] in ("deref",):
        t = t[1]
    if t[0] == "idx" and len(t) == 3 and isg(t[1]):
        return True
    return t[0] == "m" and t[1] in ("at", "count", "contains", "find") and isg(t[2])


Pool.guard_lit = guard_lit


def p_life(R):
    P = Pool(R)
    R.rule("accept", "A task is queued only in the critical section that saw the pool not stopped; the future of the queued task "
           "is returned.")
    R.rule("drain", "A worker ends only when, in one critical section, the pool is stopped and the queue is empty.")
    R.rule("busy", "The count of busy workers is raised before the lock under which a task was taken is released, and lowered "
           "exactly once after the task returned, before the next wait.")
    R.rule("unlocked-run", "Tasks run without the queue lock.")
    R.rule("join", "The destructor stops the pool and joins every worker.")
    R.rule("idle", "waitForEmptyQueue returns only when no worker is busy and the queue is empty.")
    CL = P.CL
    rec = P.rec
    stop_g = P.graphs("stop")
    R.need(stop_g, "ThreadPool::stop")
    # the stop flag: the boolean written by stop()
    flags = set()
    for f in rec["fields"]:
        if "bool" in f["t"]:
            for sf, G in stop_g:
                if writes_in(G, rec, {f["n"]}, CL):
                    flags.add(f["n"])
    R.need(flags, "the stop flag")
    flag = sorted(flags)[0]
    T_stop = ("fld", ("this",), flag)
    for sf, G in stop_g:
        w = [e for e, fl, d in writes_in(G, rec, {flag}, CL) if d == ("set", ("int", 1))]
        r = reachable(G, G.entry, stop=lambda ev: ev.id in {x.id for x in w})
        if G.exit in r:
            R.violation("accept", sf.qual, "stop does not set the flag", sf.where(), "stop() can return without stopping the pool")
    # busy counter
    na = P.graphs("numActiveThreads")
    R.need(na, "ThreadPool::numActiveThreads")
    cnt = None
    for f in rec["fields"]:
        if f["t"] in ("unsigned int", "int", "unsigned long", "long", "std::size_t", "size_t"):
            for nf, G in na:
                if any(a.field == f["n"] for a in CL.acc if a.G is G):
                    cnt = f["n"]
    R.need(cnt, "the counter of active threads")
    T_cnt = ("fld", ("this",), cnt)
    T_size = ("size", ("fld", ("this",), P.queue))
    # ---- accept
    for f, G in CL.gs:
        F = P.facts(G)
        for e in P.q_events(G, "in"):
            R.count("insertions analysed")
            S = F.at(e.id) or frozenset()
            if ("F", T_stop) not in S:
                R.violation("accept", e.frame.fn.qual, "insertion without seeing the pool running", e.where(),
                            "a task is queued although '%s' was not found false in the same critical section: after stop() the "
                            "workers may have ended and the task never runs" % flag)
    # returned future belongs to the queued task: every path to a return after insertion returns the task's future
    for f, G in P.graphs("enqueueOrdered"):
        F = P.facts(G)
        ins = {e.id for e in P.q_events(G, "in")}
        R.need(ins, "insertion in enqueueOrdered")
        r = F.run_from(G.entry, lambda ev: ev.id in ins)
        for x in G.live:
            ev = G.ev[x]
            if ev.kind == "stmt" and ev.node["k"] == "ReturnStmt" and ev.frame is G.root and x in r:
                S = r[x]
                R.count("returns analysed")
                if ("T", T_stop) not in S:
                    R.violation("accept", f.qual, "returns without queueing", ev.where(),
                                "the operation can return without queueing the task although the pool is not stopped")
        twice = [e for e in ins if any(o in F.run_from(e) for o in ins if o != e) or in_cycle(F, G, e, set())]
        if twice:
            R.violation("accept", f.qual, "task queued twice", G.ev[twice[0]].where(), "the task can be queued more than once")
    # ---- workers
    for f, G, inv in P.workers(R):
        F = P.facts(G)
        L = CL.L(G)
        inv_ids = {e.id for e in inv}
        unl = {e.id for e in unlocks(P, G)}
        inc, dec = counter_events(G, P, cnt)
        inc_ids, dec_ids = {e.id for e in inc}, {e.id for e in dec}
        outs = P.q_events(G, "out")
        # drain
        S = F.at(G.exit)
        if S is not None:
            R.count("worker exits analysed")
            if not F.entails_true(S, T_stop):
                R.violation("drain", f.qual, "worker ends while the pool runs", f.where(),
                            "a worker can end although the pool has not been stopped")
            if not F.entails_le(S, T_size, ("int", 0)):
                R.violation("drain", f.qual, "worker ends with tasks queued", f.where(),
                            "a worker can end although tasks are still queued: accepted tasks would never run")
        for e in inv:
            R.count("task invocations analysed")
            if any(m[0] == "fld" for m in L.held(e.id)):
                R.violation("unlocked-run", e.frame.fn.qual, "task run under the queue lock", e.where(),
                            "the task runs while the queue's mutex is held: tasks are serialised and a task that enqueues "
                            "another one deadlocks")
            rel = unl | inv_ids | {G.exit}
            IN = F.run_from(e.id, lambda ev: ev.id in dec_ids or ev.id in rel)
            bad = [t for t in IN if t != e.id and (t in unl or t == G.exit or t in inv_ids or is_wait(G.ev[t])) and t not in dec_ids]
            if bad:
                R.violation("busy", e.frame.fn.qual, "busy count not lowered", e.where(),
                            "after the task has run a path (to %s) does not lower '%s': waitForEmptyQueue never returns" %
                            (G.ev[bad[0]].where(), cnt))
        for e in outs:
            R.count("selections analysed")
            rel = unl | inv_ids | {G.exit}
            IN = F.run_from(e.id, lambda ev: ev.id in inc_ids or ev.id in rel)
            bad = [t for t in IN if t != e.id and (t in unl or t == G.exit or t in inv_ids)]
            if bad:
                R.violation("busy", e.frame.fn.qual, "task taken without raising the busy count", e.where(),
                            "a task leaves the queue and the lock is released (%s) before '%s' is raised: waitForEmptyQueue can "
                            "return while the task still runs" % (G.ev[bad[0]].where(), cnt))
            IN = F.run_from(e.id, lambda ev: ev.id in inv_ids)
            bad = [t for t in IN if t != e.id and (t == G.exit or is_wait(G.ev[t]))]
            if bad:
                R.violation("drain", e.frame.fn.qual, "task dropped", e.where(),
                            "a task leaves the queue and is not run on a path to %s" % G.ev[bad[0]].where())
        for a, b, w in ((inc, dec_ids, "raised"), (dec, inc_ids, "lowered")):
            ids = {x.id for x in a}
            for e in a:
                IN = F.run_from(e.id, lambda ev: ev.id in b)
                if any(x in IN and x != e.id for x in ids) or in_cycle(F, G, e.id, b):
                    R.violation("busy", e.frame.fn.qual, "busy count %s twice" % w, e.where(),
                                "'%s' can be %s twice for one task" % (cnt, w))
                if a is dec:
                    back = reachable(G, e.id, back=True, stop=lambda ev: ev.id in inc_ids)
                    if G.entry in back:
                        R.violation("busy", e.frame.fn.qual, "busy count lowered without being raised", e.where(),
                                    "'%s' can be lowered without having been raised" % cnt)
                else:
                    IN = F.run_from(e.id, lambda ev: ev.id in inv_ids)
                    if any(x in IN for x in dec_ids):
                        R.violation("busy", e.frame.fn.qual, "busy count lowered before the task has run", e.where(),
                                    "'%s' is lowered before the task has run" % cnt)
        # the removed task is the one that runs: covered by the removal rule of the ordering property
    R.atleast("worker exits analysed", 1)
    R.atleast("selections analysed", 1)
    R.atleast("insertions analysed", 1)
    # ---- idle
    for f, G in P.graphs("waitForEmptyQueue"):
        F = P.facts(G)
        S = F.at(G.exit)
        R.count("idle waits analysed")
        if S is not None:
            for t, what in ((T_cnt, "tasks are still running"), (T_size, "tasks are still queued")):
                if not F.entails_le(S, t, ("int", 0)):
                    R.violation("idle", f.qual, "returns although %s" % what, f.where(),
                                "waitForEmptyQueue() can return although %s" % what)
    R.atleast("idle waits analysed", 1)
    # ---- join
    dt = [(f, G) for f, G in CL.gs if is_dtor(G)]
    R.need(dt, "ThreadPool destructor")
    thr = [f["n"] for f in rec["fields"] if "std::thread" in f["t"]]
    R.need(thr, "the pool's threads")
    for f, G in dt:
        F = P.facts(G)
        joins = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and
                 short(e.node.get("fn", "")) == "join" and "std::thread" in e.node.get("rec", "")]
        det = [e for e in G.ev if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr" and
               short(e.node.get("fn", "")) == "detach"]
        R.count("joins analysed", len(joins))
        w = {e.id for e, fl, d in writes_in(G, rec, {flag}, CL) if d == ("set", ("int", 1))}
        for e in det:
            R.violation("join", f.qual, "worker detached", e.where(), "a worker is detached instead of joined")
        if not joins:
            R.violation("join", f.qual, "workers not joined", f.where(), "the destructor does not join the workers")
        for e in joins:
            r = reachable(G, G.entry, stop=lambda ev: ev.id in w)
            if e.id in r:
                R.violation("join", f.qual, "join before stop", e.where(),
                            "the destructor can join a worker before the pool has been stopped: it never returns")
            if any(m[0] == "fld" for m in CL.L(G).held(e.id)):
                R.violation("join", f.qual, "join under the lock", e.where(),
                            "the destructor joins while holding the mutex the workers need to end")
            full_iteration(R, G, F, e, thr)


def is_wait(ev):
    return ev.kind == "stmt" and ev.node["k"] == "CXXMemberCallExpr" and short(ev.node.get("fn", "")) in WAITS and \
        is_cv_type(ev.node.get("rec", ""))


def full_iteration(R, G, F, e, thr):
    """the join is in a loop over all workers: a range over the container, or an index from 0 to size()"""
    me = e.frame.fn.nodes[e.node["c"][0]]
    o = G.obj_term(e.frame, e.node["c"][0])
    t = o
    if t[0] == "idx" and t[1][0] == "fld" and t[1][2] in thr:
        var = t[2]
        # initial value 0, step 1, bound size()
        if var[0] == "var":
            d = None
            for fr in [G.root] + G.frames:
                if fr.id == var[1]:
                    d = fr.fn.decls.get(var[2])
            if d and d[0].get("init") is not None:
                iv = G.term([fr for fr in [G.root] + G.frames if fr.id == var[1]][0], d[0]["init"])
                size = ("size", t[1])
                if iv == ("int", 0):
                    # leaving the loop means the index reached size()
                    S = F.at(G.exit) or frozenset()
                    loop = loop_events(G, e.id)
                    ok = False
                    for x in loop:
                        for y, c in G.ev[x].succ:
                            if y not in loop and c is not None and c[0] == "if":
                                S2 = F.edge(F.step(G.ev[x], F.IN[x]), c)
                                if S2 is None or F.entails_le(S2, size, var):
                                    ok = True
                                else:
                                    R.violation("join", e.frame.fn.qual, "some workers not joined", e.where(),
                                                "the loop that joins the workers can end before all have been joined")
                elif iv[0] == "int" and iv[1] > 0:
                    R.violation("join", e.frame.fn.qual, "some workers not joined", e.where(),
                                "the loop that joins the workers does not start with the first one")


CHECKS = {"P01": p_state, "P02": p_wakeup, "P03": p_order, "P04": p_life}
