"""Operations on associative and sequence containers, in canonical form."""
from .graph import *
from .graph import deref, addr


def map_ops(G, pred):
    """(event, op, container, key, value) for every lookup, insertion and removal on a container c with pred(c).
    op: find count at index insert assign erase clear"""
    out = []
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        n = e.node
        fr = e.frame
        c = n["c"]
        if n["k"] == "CXXMemberCallExpr":
            me = fr.fn.nodes[c[0]]
            if me["k"] != "MemberExpr" or me.get("repo"):
                continue
            obj = G.obj_term(fr, c[0])
            if not pred(obj):
                continue
            nm = me["n"]
            a = [G.term(fr, x) for x in c[1:] if x >= 0]
            if nm in ("find", "count", "at", "contains", "equal_range"):
                out.append((e, "find" if nm in ("find", "equal_range") else nm, obj, a[0], None))
            elif nm in ("emplace", "try_emplace"):
                if len(a) == 2:
                    out.append((e, "insert", obj, a[0], a[1]))
                else:
                    k, v = pair_of(a[0]) if len(a) == 1 else (None, None)
                    out.append((e, "insert", obj, k, v))
            elif nm in ("insert", "emplace_hint"):
                if len(a) == 1:
                    k, v = pair_of(a[0])
                    out.append((e, "insert", obj, k, v))
                elif nm == "insert" and len(a) == 2 and a[0][0] == "m":
                    out.append((e, "insert_range", obj, a[0], a[1]))
                elif len(a) >= 2:
                    k, v = pair_of(a[-1]) if len(a) == 2 else (a[1], a[2])
                    out.append((e, "insert", obj, k, v))
            elif nm == "insert_or_assign":
                out.append((e, "assign", obj, a[0], a[1] if len(a) > 1 else None))
            elif nm == "erase":
                out.append((e, "erase", obj, a[0] if a else None, None))
            elif nm in ("clear", "swap"):
                out.append((e, nm, obj, None, None))
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and "_map" in fr.fn.nodes[c[1]].get("t", ""):
            obj = G.term(fr, c[1])
            if pred(obj):
                out.append((e, "index", obj, G.term(fr, c[2]), None))
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(c) > 2:
            l = fr.fn.nodes[c[1]]
            if l["k"] == "CXXOperatorCallExpr" and l.get("op") == "[]" and "_map" in fr.fn.nodes[l["c"][1]].get("t", ""):
                obj = G.term(fr, l["c"][1])
                if pred(obj):
                    out.append((e, "assign", obj, G.term(fr, l["c"][2]), G.term(fr, c[2])))
            else:
                obj = G.term(fr, c[1])
                if pred(obj):
                    out.append((e, "copy", obj, None, G.term(fr, c[2])))
    return out


def pair_of(t):
    if t[0] == "call" and t[1].endswith("make_pair") and len(t) >= 4:
        return t[2], t[3]
    if t[0] in ("ctor", "list"):
        xs = [x for x in t[(2 if t[0] == "ctor" else 1):] if x and isinstance(x[0], str)]
        if len(xs) == 2:
            return xs[0], xs[1]
        if len(xs) == 1:
            return pair_of(xs[0])
    return None, None
