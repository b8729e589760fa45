"""Lookups, casts and pointer arguments are tested before they are used."""
import os
from ..ir import short, strip_tmpl, VERIF
from ..graph import *
from ..graph import deref, addr
from ..facts import Facts
from ..nullable import *
from ..nullable import callee_of
from .. import programs
from .locking import callers_of


def analysed_functions(prog, pred=None):
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.blocks and not f.d.get("implicit") and not f.file.startswith(VERIF) and (pred is None or pred(f)):
            yield f


def has_lookup(f):
    for n in f.nodes:
        k = n["k"]
        if k == "CXXDynamicCastExpr":
            return True
        if k == "CallExpr":
            nm = strip_tmpl(n.get("fn", ""))
            if short(nm) == "dynamic_pointer_cast" or nm in STD_FIND:
                return True
        if k == "MemberExpr" and not n.get("repo") and n.get("mk") == "method" and n["n"] in ("find", "lower_bound",
                                                                                            "upper_bound", "lock"):
            return True
        if k == "DeclStmt" and any(pointer_like(d["t"]) for d in n["decls"]):
            return True
        if k in ("CallExpr", "CXXMemberCallExpr") and (pointer_like(n.get("t", "")) or iterator_like(n.get("t", ""))):
            return True
    return False


def lookups_tested(R, prog, rule, pred=None, depth=3, skip=()):
    """every value that can be 'not found', 'wrong type' or null is dereferenced only where it is known to be good"""
    nf = 0
    for f in analysed_functions(prog, pred):
        if not has_lookup(f):
            continue
        if f.qual in skip:
            R.note("not judged (relies on an invariant): " + f.qual)
            continue
        nf += 1
        G = Graph(prog, f, depth=depth)
        F = None
        for e, nid, how in derefs(G):
            x = resolve(G, e.frame, nid)
            if x.frame is not G.root:
                continue
            if x.kind == "value":
                src = direct_source(G, x.frame, x.nid)
                if not src:
                    continue
                F = F or Facts(G)
                S = F.at(e.id)
                if S is None:
                    continue
                R.count("dereferences of lookup results decided")
                t = G.term(x.frame, x.nid)
                if not guarded(F, S, t):
                    report(R, rule, f, G, e, x, src, how)
            else:
                ds = var_defs(G, x.frame, x.decl)
                if not any(s for _, s in ds):
                    continue
                F = F or Facts(G)
                ids = {d.id for d, _ in ds}
                t = ("var", x.frame.id, x.decl["d"], x.decl["n"])
                for d, src in ds:
                    if not src:
                        continue
                    R.count("dereferences of lookup results decided")
                    S0 = F.IN.get(d.id)
                    if S0 is None:
                        continue
                    IN = F.run_from(d.id, stop=lambda ev: ev.id in ids)
                    S = IN.get(e.id)
                    if S is None or e.id == d.id:
                        continue
                    ts = (t, G.term(x.frame, x.nid))
                    if src[0] == "step" and any(f[0] == "ne" and f[3] == 0 and (f[1] in ts or f[2] in ts) for f in S):
                        continue  # compared with an end
                    if not any(guarded(F, S, y) for y in ts):
                        report(R, rule, f, G, e, x, src, how)
                        break
    R.count("functions with lookups", nf)


def report(R, rule, f, G, e, x, src, how):
    R.violation(rule, e.frame.fn.qual, "%s of %s (%s)" % (how, describe(x), src[0]), e.where(),
                "'%s' comes from %s and is dereferenced on a path where it has not been tested%s" %
                (describe(x), src[1], "" if e.frame is G.root else " (called from %s)" % f.qual))


def describe(x):
    n = x.frame.fn.nodes[x.nid]
    if x.kind == "var":
        return x.decl["n"]
    if n["k"] == "DeclRefExpr":
        return n["n"]
    t = x.frame.G.term(x.frame, x.nid)
    if t[0] == "dyncast":
        return "the cast %s" % show(t[2])[:60]
    return show(t)[:80]


# ---------------------------------------------------------------------------------------------- pointer arguments
def raw_pointer(t):
    t = t.replace("const ", "").replace("*const", "*").strip()
    return t.endswith("*") and not t.startswith(("void", "char *", "FILE")) and "(" not in t


_API = []


def in_api(f):
    if not _API:
        _API.append(set(open(os.path.join(VERIF, "sa", "api.txt")).read().split("\n")))
    return strip_tmpl(f.qual) in _API[0]


def is_internal(f):
    return locally_internal(f) or not in_api(f)


def locally_internal(f):
    """helper that only its own class or file can call"""
    return f.access in ("private", "protected") and not f.d.get("virtual") or f.kind == "lambda" or f.d.get("static") and not f.rec \
        or f.d.get("dfile", "").endswith((".cc", ".cpp")) and not f.rec \
        or "(anonymous" in f.name or "::internal::" in f.name or "::detail::" in f.name


def takes_pointer(fn, frame):
    return any("*" in p["t"] or "_ptr<" in p["t"] or "&" in p["t"] and "_ptr" in p["t"] for p in fn.params) or fn.kind == "lambda"


def pointer_args(R, prog, rule, pred=None, depth=3, shared=True):
    """A public function that dereferences a pointer argument has tested it on that path (directly or in what it calls)."""
    callers = callers_of(prog)
    memo = {}

    def unchecked(key):
        """parameter index -> (event, G) of an unguarded dereference, for the function as outermost"""
        if key not in memo:
            memo[key] = {}
            f = prog.fns[key]
            ps = [i for i, p in enumerate(f.params) if raw_pointer(p["t"]) or shared and p["t"].replace("const ", "").startswith(
                ("std::shared_ptr<", "std::unique_ptr<"))]
            if not ps or not f.blocks:
                return memo[key]
            G = Graph(prog, f, depth=depth, inline=takes_pointer)
            F = None
            out = {}
            for e, nid, how in derefs(G):
                t = G.term(e.frame, nid)
                if t[0] != "param" or t[1] not in ps or t[1] in out:
                    continue
                F = F or Facts(G)
                S = F.at(e.id)
                if S is None:
                    continue
                R.count("dereferences of pointer arguments decided")
                if not F.entails_true(S, t):
                    # (fact may be on the variable when the parameter is reassigned)
                    out[t[1]] = (e, G, F, S)
            memo[key] = out
        return memo[key]

    nf = 0
    for f in analysed_functions(prog, pred):
        if not any(raw_pointer(p["t"]) or shared and "_ptr<" in p["t"] for p in f.params):
            continue
        if is_internal(f):
            continue  # judged through its callers
        nf += 1
        R.count("pointer parameters", sum(1 for p in f.params if raw_pointer(p["t"]) or "_ptr<" in p["t"]))
        u = unchecked(f.key)
        for i, (e, G, F, S) in sorted(u.items()):
            if e.frame is not G.root and not is_internal(e.frame.fn):
                continue  # reported for the public function that dereferences it
            R.violation(rule, f.qual, "parameter %s" % f.params[i]["n"], e.where(),
                        "the pointer argument '%s' of %s is dereferenced without a test that it is not null%s" %
                        (f.params[i]["n"], f.qual, "" if e.frame is G.root else " (in %s)" % e.frame.fn.qual))
    R.count("functions with pointer parameters", nf)
