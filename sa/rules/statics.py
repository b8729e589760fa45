"""State shared by all threads of a process: singletons, static variables, classes that carry their own mutex."""
from ..ir import short, strip_tmpl, VERIF, AnalysisError
from ..graph import *
from ..graph import deref, addr, is_mutex_type
from ..locks import Locks, is_sync_type, is_atomic_type, class_entries
from .. import programs
from .locking import ClassLocks, guarded_state, tracked_fields, mutex_fields, const_type, callers_of

OWN = {"aslam::ThreadPool", "aslam::channels::ChannelGroup", "aslam::ReaderWriterMutex", "aslam::ReaderFirstReaderWriterMutex",
       "aslam::VisualFrame"}
ALL = ("thread_pool.cc", "channels.cc", "cameras.cc", "common_headers.cc")


def unsynchronised(t):
    """a mutable object of this type needs a lock"""
    return not (is_sync_type(t) or is_atomic_type(t) or const_type(t) or t.startswith(("google::", "std::once_flag")))


def outside_callers(prog, rec):
    """functions of other classes that call the non-public methods of `rec` or touch its fields"""
    priv = {f.key for f in prog.methods_of(rec["key"]) if f.access != "public"}
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.rec == rec["key"] or not f.blocks or f.file.startswith(VERIF):
            continue
        if any(n.get("fk") in priv and n["k"] in ("CallExpr", "CXXMemberCallExpr") or
               n["k"] == "MemberExpr" and n.get("mk") == "field" and n.get("rec") == rec["key"] for n in f.nodes):
            out.append(f)
    return out


def classes_with_mutex(prog):
    for k, r in sorted(prog.recs.items()):
        if r["file"].startswith(VERIF) or strip_tmpl(k) in OWN or r["name"] in OWN:
            continue
        if mutex_fields(r):
            yield r


def P12(R):
    R.rule("guarded", "Every mutable field of a class that carries a mutex is accessed by every function only while that "
           "object's mutex is held (construction and destruction excepted); public functions hand out no reference to it.")
    R.rule("static", "A static or global variable is constant, atomic, never changed after its initialisation, or every access "
           "to it holds one common static mutex.")
    R.rule("singleton", "An object with static storage has only constant, atomic or guarded state.")
    R.rule("atomic", "A value taken from an atomic shared counter is the result of the one atomic operation that changed it.")
    prog = programs.whole(*ALL)
    seen = []
    for rec in classes_with_mutex(prog):
        seen.append(strip_tmpl(rec["key"]))
        ents = class_entries(prog, rec["key"]) + outside_callers(prog, rec)
        CL = ClassLocks(prog, rec, entries=ents)
        guarded_state(R, CL, "guarded", short(strip_tmpl(rec["key"])) + " field")
        R.count("classes with a mutex")
    for n in ("statistics::Statistics", "timing::Timing", "aslam::ThreadSafeIdProvider", "aslam::VisualNPipeline"):
        R.need(n in seen, n)
    statics(R, prog)
    atomics(R, prog)
    R.atleast("field accesses analysed", 100)
    R.atleast("static variables", 5)


def static_vars(prog):
    """(term, type, owner function or None, name, where) of mutable variables with static storage"""
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.file.startswith(VERIF):
            continue
        for n in f.nodes:
            if n["k"] == "DeclStmt":
                for d in n["decls"]:
                    if d.get("static") and not d.get("tls"):
                        yield ("local", f, d["d"], d["n"], d["t"])
    for q, g in sorted(prog.globals.items()):
        if not g["file"].startswith(VERIF) and not q.startswith("fL") and not g.get("tls"):
            yield ("global", None, q, short(q), g["t"])


def uses(prog, v):
    """(function, nid) of the uses of a variable with static storage"""
    kind, f, d, name, t = v
    if kind == "local":
        fam = [f] + [g for g in prog.fns.values() if g.kind == "lambda" and g.file == f.file]
        for g in fam:
            for i, n in enumerate(g.nodes):
                if n["k"] == "DeclRefExpr" and n.get("d") == d and n.get("n") == name and n.get("dk") == "static":
                    yield g, i
    else:
        for g in prog.fns.values():
            if g.file.startswith(VERIF):
                continue
            for i, n in enumerate(g.nodes):
                if n["k"] == "DeclRefExpr" and n.get("dk") == "global" and n.get("q") == d or \
                        n["k"] == "MemberExpr" and n.get("mk") == "staticfield" and "%s::%s" % (n.get("rec"), n["n"]) == d:
                    yield g, i


def statics(R, prog):
    names = set()
    for v in static_vars(prog):
        kind, f, d, name, t = v
        key = (f.qual if f else "", name, t)
        if key in names:
            continue
        names.add(key)
        if t.startswith("google::SiteFlag"):
            continue
        R.count("static variables")
        if not unsynchronised(t):
            continue
        rec = prog.record(t.replace("const ", ""))
        if rec is not None and not rec["file"].startswith(VERIF) and rec["fields"]:
            state = [x for x in rec["fields"] if unsynchronised(x["t"]) and not x.get("const")]
            changed = [x for x in state if changed_after_construction(prog, rec, x["n"])]
            if changed and not mutex_fields(rec):
                R.violation("singleton", f.qual if f else d, "%s of type %s" % (name, t), f.where(0) if f else t,
                            "the static object '%s' has state (%s) that several threads may change without a lock" %
                            (name, ", ".join(x["n"] for x in changed)))
            continue
        us = list(uses(prog, v))
        wr = [(g, i) for g, i in us if changed_at(g, i)]
        if not wr:
            continue
        common = None
        acc = []
        for g in sorted({g for g, i in us}, key=lambda g: g.key):
            top = sorted({h.key: h for h in tops(prog, g)}.values(), key=lambda h: h.key)
            for h in top:
                G = Graph(prog, h, depth=6, volatile=True)
                L = Locks(G)
                ids = {i for g2, i in us if g2 is g}
                for e in G.ev:
                    if e.id in G.live and e.kind == "stmt" and e.frame.fn is g and e.nid in ids:
                        held = {m for m in L.held(e.id) if is_static_mutex(m)}
                        acc.append((e, g, held))
                        common = held if common is None else common & held
        if acc and not common:
            worst = min(acc, key=lambda a: (len(a[2]), a[0].id))
            R.violation("static", worst[1].qual, "static %s of type %s" % (name, t), worst[0].where(),
                        "the static variable '%s' is changed and used by every thread that gets here, without a common lock"
                        % name)
        R.count("guarded static variables")


def changed_at(f, i):
    """the use changes the object or a part of it"""
    if f.write_kind(i) != "read":
        return True
    n = f.nodes[i]
    array = "[" in n.get("t", "")
    for p in f.parents.get(i, []):
        pn = f.nodes[p]
        if pn["k"] == "MemberExpr" and pn.get("mk") == "field" and not pn.get("arrow") and changed_at(f, p):
            return True
        if array and pn["k"] == "ArraySubscriptExpr" and changed_at(f, p):
            return True
        if array and pn["k"] in ("CallExpr", "CXXMemberCallExpr") and "p" in pn.get("pm", "")[pn["c"].index(i) - 1:pn["c"].index(i)]:
            return True
    return False


def tops(prog, g):
    return [g]


def is_static_mutex(m):
    return m[0] == "var" and str(m[1]).startswith("static ") or m[0] == "glob"


def changed_after_construction(prog, rec, field):
    for f in prog.fns.values():
        if f.kind in ("ctor", "dtor") and f.rec == rec["key"]:
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "MemberExpr" and n.get("mk") == "field" and n["rec"] == rec["key"] and n["n"] == field and \
                    f.write_kind(i) != "read":
                return True
    return False


def atomics(R, prog):
    """in one function a shared atomic is either changed or read, not changed and then read again"""
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if not f.blocks or f.file.startswith(VERIF):
            continue
        per = {}
        for i, n in enumerate(f.nodes):
            t = n.get("t", "")
            if n["k"] == "DeclRefExpr" and n.get("dk") in ("static", "global") and is_atomic_type(t) and not const_type(t):
                per.setdefault(n["n"], []).append(i)
        for name, us in per.items():
            R.count("atomic counters")
            w = [i for i in us if f.write_kind(i) != "read"]
            # distinct operations on the counter in one call
            ops = {op_of(f, i) for i in us}
            if w and len(ops) > 1:
                R.violation("atomic", f.qual, "operations on " + name, f.where(w[0]),
                            "'%s' is changed and read in separate steps, another thread may come in between" % name)


def op_of(f, i):
    """the operation applied to the atomic at this use"""
    cur = i
    for _ in range(6):
        ps = f.parents.get(cur, [])
        if not ps:
            return cur
        p = ps[0]
        if f.nodes[p]["k"] in CASTS or f.nodes[p]["k"] == "MemberExpr":
            cur = p
            continue
        return p
    return cur


CHECKS = {"P12": P12}
