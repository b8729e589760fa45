"""Dereferences of values that may be null or past the end, and the facts that guard them."""
from .graph import *
from .graph import deref, addr
from .facts import Facts
from .ir import short, strip_tmpl

FIND = {"find", "lower_bound", "upper_bound"}
STD_FIND = {"std::find", "std::find_if", "std::find_if_not", "std::lower_bound", "std::upper_bound", "std::adjacent_find",
            "std::max_element", "std::min_element", "std::search"}


def pointer_like(t):
    t = t.replace("const ", "").strip()
    return t.endswith("*") or t.startswith(("std::shared_ptr<", "std::unique_ptr<", "cv::Ptr<", "std::__shared_ptr_access<",
                                            "std::__shared_ptr<"))


def iterator_like(t):
    return "iterator" in t or "_Node_iterator" in t


NONNULL_CALLS = ("std::make_shared", "std::make_unique", "std::allocate_shared", "aligned_shared", "aligned_unique")


def derefs(G, frame=None):
    """(event, nid of the pointer expression, how) for every dereference in the inlined graph"""
    out = []
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        if frame is not None and e.frame is not frame:
            continue
        n = e.node
        k, c = n["k"], n["c"]
        if k == "UnaryOperator" and n["op"] == "*":
            out.append((e, c[0], "*"))
        elif k == "MemberExpr" and n.get("arrow") and c:
            b = e.frame.fn.nodes[c[0]]
            if b["k"] == "CXXThisExpr":
                continue
            if b["k"] == "CXXOperatorCallExpr" and b.get("op") == "->":
                continue  # the overloaded arrow is its own event
            if n.get("static"):
                continue
            out.append((e, c[0], "->"))
        elif k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and len(c) == 2:
            out.append((e, c[1], n["op"]))
        elif k == "ArraySubscriptExpr":
            b = e.frame.fn.nodes[c[0]]
            if "*" in b.get("t", ""):
                out.append((e, c[0], "[]"))
    return out


def record_of_pointer(t):
    t = t.replace("const ", "").strip()
    for p in ("std::shared_ptr<", "std::unique_ptr<", "cv::Ptr<"):
        if t.startswith(p):
            return t[len(p):-1].strip()
    return t.rstrip("*& ").strip()


def upcast(G, src_t, dst_t):
    a, b = record_of_pointer(src_t), record_of_pointer(dst_t)
    return a == b or a in G.prog.derived(b)


def callee_of(G, fr, nid):
    m = getattr(G, "_callee_of", None)
    if m is None:
        m = {(f.parent.id, f.call): f for f in G.frames if f.parent is not None and f.call is not None}
        G._callee_of = m
    return m.get((fr.id, nid))


class Expr:
    """what a pointer expression is: a variable with several definitions, or a value"""
    def __init__(self, kind, frame, nid, decl=None):
        self.kind, self.frame, self.nid, self.decl = kind, frame, nid, decl


def resolve(G, fr, nid, depth=0):
    """follows casts, parameter bindings and single-definition locals"""
    while depth < 20:
        depth += 1
        n = fr.fn.nodes[nid]
        k, c = n["k"], n["c"]
        if (k in CASTS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and
                (iterator_like(n["t"]) or pointer_like(n["t"]))) and len(c) == 1:
            nid = c[0]
            continue
        if k == "CallExpr" and strip_tmpl(n.get("fn", "")) in WRAP_FNS and not n["fn"].endswith("CheckNotNull"):
            nid = c[-1]
            continue
        if k == "CXXMemberCallExpr":
            me = fr.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and me["n"] == "get" and not me.get("repo") and "_ptr" in me.get("rec", ""):
                nid = me["c"][0]
                continue
        if k == "DeclRefExpr" and n.get("dk") in ("local", "param", "binding", "static"):
            r = G._lookup(fr, n["d"])
            if r and r[0] == "bind":
                owner = r[2]
                wr = [kk for kk, i in owner.fn.writes.get(n["d"], []) if kk in ("write", "addr", "capture")]
                if wr:
                    return Expr("value", fr, nid)
                fr, nid = r[1]
                continue
            if r and r[0] == "decl":
                f2, dd = r[1], r[2]
                t = dd["t"]
                if dd.get("static") or not (pointer_like(t) or iterator_like(t)):
                    return Expr("value", fr, nid)
                hard = [kk for kk, i in f2.fn.writes.get(n["d"], []) if kk in ("write", "addr", "refarg", "refbind",
                                                                                "capture", "mut")]
                if not hard and dd.get("init") is not None and not dd.get("impl"):
                    m = f2.fn.nodes[dd["init"]]
                    if m["k"] == "CXXConstructExpr" and not m["c"]:
                        return Expr("var", f2, nid, dd)
                    fr, nid = f2, dd["init"]
                    continue
                return Expr("var", f2, nid, dd)
        return Expr("value", fr, nid)
    return Expr("value", fr, nid)


def direct_source(G, fr, nid, depth=0):
    """kind of nullable value the (resolved) expression computes, or None"""
    if nid is None or nid < 0 or depth > 6:
        return None
    x = resolve(G, fr, nid)
    if x.kind == "var":
        return None
    fr, nid = x.frame, x.nid
    n = fr.fn.nodes[nid]
    k, c = n["k"], n["c"]
    if k == "CXXDynamicCastExpr":
        if upcast(G, fr.fn.nodes[c[0]].get("t", ""), n["tw"]):
            return None
        return ("cast", "dynamic_cast to %s" % short_type(n["tw"]))
    if k == "CallExpr":
        nm = strip_tmpl(n.get("fn", ""))
        if short(nm) == "dynamic_pointer_cast":
            if upcast(G, fr.fn.nodes[c[1]].get("t", ""), n.get("t", "")):
                return None
            return ("cast", "dynamic cast to %s" % short_type(n.get("t", "")))
        if nm in STD_FIND:
            return ("find", nm)
    if k == "CXXMemberCallExpr":
        me = fr.fn.nodes[c[0]]
        if me["k"] == "MemberExpr" and not me.get("repo"):
            if me["n"] in FIND and not me.get("rec", "").startswith("std::basic_string"):
                return ("find", me["n"] + "()")
            if me["n"] == "lock" and "weak_ptr" in me.get("rec", ""):
                return ("weak", "weak_ptr::lock()")
    if k in ("CallExpr", "CXXMemberCallExpr"):
        f2 = callee_of(G, fr, nid)
        if f2 is not None and (pointer_like(f2.fn.d.get("ret", "")) or iterator_like(f2.fn.d.get("ret", ""))):
            for i, m in enumerate(f2.fn.nodes):
                if m["k"] == "ReturnStmt" and m["c"] and m["c"][0] >= 0:
                    s = direct_source(G, f2, m["c"][0], depth + 1)
                    if s:
                        return (s[0], "%s, which may return the result of %s" % (f2.fn.short, s[1]))
    if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
        return ("null", "nullptr")
    if k == "CXXConstructExpr" and not c and pointer_like(n["t"]):
        return ("null", "an empty pointer")
    if k == "CXXConstructExpr" and len(c) == 1 and fr.fn.nodes[c[0]]["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
        return ("null", "nullptr")
    if k == "ConditionalOperator" and len(c) == 3:
        return direct_source(G, fr, c[1], depth + 1) or direct_source(G, fr, c[2], depth + 1)
    return None


def short_type(t):
    t = record_of_pointer(t)
    return short(t) if "<" not in t else strip_tmpl(t).split("::")[-1]


def var_defs(G, frame, decl):
    """(event, source kind or None) of every definition of a local in the given frame"""
    d = decl["d"]
    out = []
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n = e.node
        k, c = n["k"], n["c"]
        if k == "DeclStmt" and e.frame is frame:
            for x in n["decls"]:
                if x["d"] == d:
                    if x.get("init") is None:
                        out.append((e, ("null", "an uninitialised pointer") if x["t"].endswith("*") else None))
                    else:
                        out.append((e, direct_source(G, frame, x["init"])))
            continue
        tgt = None
        rhs = None
        if k == "BinaryOperator" and n["op"] == "=":
            tgt, rhs = c[0], c[1]
        elif k == "CXXOperatorCallExpr" and n.get("op") == "=" and len(c) > 2:
            tgt, rhs = c[1], c[2]
        elif k in ("UnaryOperator", "CXXOperatorCallExpr") and n.get("op") in ("++", "--", "+=", "-="):
            tgt = c[0] if k == "UnaryOperator" else c[1]
            if n["op"] in ("++", "+=") and iterator_like(decl["t"]) and not decl.get("impl"):
                rhs = "step"
        elif k == "CXXMemberCallExpr":
            me = e.frame.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and me["n"] in ("reset", "swap") and me["c"] and not me.get("arrow"):
                tgt = me["c"][0]
                if me["n"] == "reset" and len(c) == 1:
                    rhs = "null"
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
            pass
        if tgt is not None:
            m = e.frame.fn.nodes[tgt]
            if m["k"] == "DeclRefExpr" and m.get("d") == d and (e.frame is frame or e.frame.outer is frame):
                if rhs == "null":
                    out.append((e, ("null", "reset()")))
                elif rhs == "step":
                    out.append((e, ("step", "advancing the iterator")))
                else:
                    out.append((e, direct_source(G, e.frame, rhs) if rhs is not None else None))
    # passed by reference or address: a definition of unknown value
    for kk, i in frame.fn.writes.get(d, []):
        if kk in ("addr", "refarg", "refbind"):
            for e in G.ev:
                if e.id in G.live and e.frame is frame and e.nid == i:
                    out.append((e, None))
    return out


def guarded(F, S, t):
    """t is known to be non-null / not past the end"""
    if F.entails_true(S, t):
        return True
    if t[0] in ("call",) and short(t[1]) in [short(x) for x in NONNULL_CALLS]:
        return True
    if t[0] == "call" and t[1] in ("std::min_element", "std::max_element") and len(t) > 3 and t[2][0] == t[3][0] == "m" and \
            t[2][1] in ("begin", "cbegin") and t[3][1] in ("end", "cend") and t[2][2] == t[3][2]:
        if F.entails_le(S, ("int", 1), ("size", t[2][2])):
            return True
    # first element of a container that is not empty
    for f in S:
        if f[0] == "le" and f[3] == 0 and f[1] == t and f[2][0] == "m" and f[2][1] in ("begin", "cbegin") and \
                ("le", f[2], t, 0) in S:
            if F.entails_le(S, ("int", 1), ("size", f[2][2])):
                return True
    return False
