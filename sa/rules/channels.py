"""Channel groups: locking, lookup discipline, key agreement, comparison and cloning."""
import re
from ..ir import short, strip_tmpl, VERIF
from ..graph import *
from ..graph import deref, addr
from ..facts import Facts
from ..conj import *
from ..containers import map_ops
from .. import programs
from .locking import open_struct_locking, lock_order
from .nulls import lookups_tested

GROUP = "aslam::channels::ChannelGroup"
API = re.compile(r"^(get|serialize|deserialize|add|has|remove)_(\w+?)_(Data|Channel)$")


def P07(R):
    prog = programs.whole("channels.cc")
    rec = prog.record(GROUP)
    R.need(rec, GROUP)
    R.rule("group-lock", "every access to a channel group's map is made with that group's own mutex held")
    R.rule("group-lock-order", "no operation takes a group's mutex twice, and two groups' mutexes are only taken together "
           "without an order (std::lock)")
    open_struct_locking(R, prog, rec, "group-lock")
    lock_order(R, prog, "group-lock-order", only={GROUP + "::m_channels_"})
    R.atleast("functions that touch the guarded fields", 20)
    R.atleast("field accesses analysed", 60)


def is_group_map(t):
    return t[0] == "fld" and t[2] == "channels_"


def key_name(prog, t):
    """the string a key term denotes, or the parameter it is"""
    if t is None:
        return None
    if t[0] == "str":
        return t[1]
    if t[0] == "glob":
        g = prog.globals.get(t[1])
        return g.get("str") if g and g.get("str") is not None else "glob " + t[1]
    if t[0] == "ctor" and len(t) > 2 and t[1].startswith("std::basic_string"):
        return key_name(prog, t[2])
    if t[0] == "param":
        return "argument %d" % t[1]
    return None


def chan_type(t):
    m = re.search(r"Channel<.*>", t)
    return re.sub(r"\s+", "", m.group(0)).rstrip("*") if m else None


def strip_ptr(t):
    t = re.sub(r"^(const )?std::shared_ptr<(.*)>$", r"\2", t.strip())
    return t.replace("const ", "").rstrip("*& ").strip()


def api_functions(prog):
    for f in prog.fns.values():
        if not f.blocks or not f.qual.startswith("aslam::channels::"):
            continue
        m = API.match(f.short)
        if m:
            yield f, m.group(1), m.group(2)
        elif f.short in ("getChannelData", "hasChannel", "addChannel") and not f.rec:
            yield f, {"g": "get", "h": "has", "a": "add"}[f.short[0]], None


def lookup_terms(prog, G):
    """find()/count() results on the group's map: list of (event, term)"""
    return [(e, op, c, k, G.term(e.frame, e.nid)) for e, op, c, k, v in map_ops(G, is_group_map)
            if op in ("find", "count", "contains")]


def present(F, S, look, key):
    """True/False/None: the key is in the map, as far as S knows"""
    res = None
    for e, op, c, k, t in look:
        if k != key:
            continue
        if op == "find" or op == "contains":
            if F.entails_true(S, t):
                return True
            if ("F", t) in S or F.truth(S, t) is False:
                return False
        elif op == "count":
            if F.entails_le(S, ("int", 1), t):
                return True
            if F.entails_le(S, t, ("int", 0)) or ("F", t) in S:
                return False
    return res


def P08(R):
    prog = programs.packages(["aslam_cv_common"], "channels.cc")
    R.rule("channel-key", "all accessors of one channel use the same key, distinct from every other channel's, and the same "
           "value type")
    R.rule("channel-tested", "a channel is dereferenced only after the lookup and the type cast were tested")
    R.rule("channel-add", "adding a channel inserts it exactly under its key, only where the key was tested to be absent, and "
           "returns the inserted value")
    R.rule("channel-has", "has() answers true exactly when the lookup of its key succeeds")
    R.rule("channel-get", "the accessor returns the value of the channel found under its key")
    R.rule("channel-remove", "remove() erases exactly its key and fails loudly if it was absent")
    R.rule("group-equal", "isChannelGroupEqual() returns true only for the same object, or for equal sizes after every channel "
           "was found in the other group and compared equal")
    R.rule("group-clone", "cloneChannelGroup() inserts, for every channel, a clone of it under the same key")
    R.rule("channel-value", "comparing, copying and cloning a channel uses both values / the whole value")
    keys, types = {}, {}
    for f, op, name in sorted(api_functions(prog), key=lambda x: (x[0].file, x[0].line, x[0].key)):
        one_accessor(R, prog, f, op, name, keys, types)
    for name, ks in sorted(keys.items()):
        R.count("declared channels")
        if len({k for k, _ in ks}) != 1:
            ref = max(sorted({k for k, _ in ks}), key=lambda k: sum(1 for x, _ in ks if x == k))
            for k, f in ks:
                if k != ref:
                    R.violation("channel-key", f.qual, "key of %s" % name, f.where(),
                                "%s looks up the key '%s' while the other accessors of %s use '%s'" % (f.short, k, name, ref))
        ts = types.get(name, [])
        if len({t for t, _ in ts}) > 1:
            R.violation("channel-key", ts[0][1].qual, "type of %s" % name, ts[0][1].where(),
                        "the accessors of channel %s use different value types: %s" % (name, sorted({t for t, _ in ts})))
    inv = {}
    for name, ks in keys.items():
        if name.startswith("verif_"):
            continue
        inv.setdefault(ks[0][0], []).append((name, ks[0][1]))
    for k, ns in sorted(inv.items(), key=lambda x: str(x[0])):
        if len(ns) > 1:
            R.violation("channel-key", ns[0][1].qual, "key %s shared" % k, ns[0][1].where(),
                        "the channels %s share the key '%s'" % (sorted(n for n, _ in ns), k))
    R.atleast("declared channels", 10)
    R.atleast("channel accessors", 60)
    lookups_tested(R, prog, "channel-tested", pred=lambda f: f.qual.startswith("aslam::channels::") and
                   "channel" in f.file.rsplit("/", 1)[-1])
    group_equal(R, prog)
    group_clone(R, prog)
    values(R, prog)


def one_accessor(R, prog, f, op, name, keys, types):
    R.count("channel accessors")
    G = Graph(prog, f, depth=6)
    F = Facts(G)
    ops = map_ops(G, is_group_map)
    look = lookup_terms(prog, G)
    used = set()
    for e, o, c, k, v in ops:
        kn = key_name(prog, k)
        if o in ("find", "count", "at", "index", "insert", "assign", "erase", "contains"):
            used.add((k, kn))
    kn = {x for _, x in used}
    if len(kn) > 1 or None in kn:
        R.violation("channel-key", f.qual, "several keys", f.where(), "%s uses the keys %s" % (f.short, sorted(map(str, kn))))
        return
    if not kn:
        R.violation("channel-key", f.qual, "no lookup", f.where(), "%s does not look up any channel" % f.short)
        return
    key = next(iter(used))[0]
    if name is not None:
        keys.setdefault(name, []).append((next(iter(kn)), f))
    tkey = name if name is not None else "%s" % f.name[f.name.find("<"):]
    # value types
    for e in G.ev:
        if e.id not in G.live or e.kind != "stmt":
            continue
        t = None
        n = e.node
        if n["k"] == "CallExpr" and short(strip_tmpl(n.get("fn", ""))) == "dynamic_pointer_cast":
            t = strip_ptr(n["t"])
        elif n["k"] == "CXXDynamicCastExpr":
            t = strip_ptr(n["tw"])
        elif n["k"] == "CXXNewExpr":
            t = n["at"]
        elif n["k"] == "CallExpr" and short(strip_tmpl(n.get("fn", ""))) in ("make_shared", "allocate_shared", "aligned_shared"):
            t = strip_ptr(n["t"])
        if t and "Channel<" in t:
            types.setdefault(tkey, []).append((t, f))
    ins = [(e, o, k, v) for e, o, c, k, v in ops if o in ("insert", "assign")]
    rm = [(e, o, k, v) for e, o, c, k, v in ops if o in ("erase", "clear", "swap", "copy")]
    idx = [x for x in ops if x[1] == "index"]
    # operator[] outside an assignment creates a null channel
    for e, o, c, k, v in idx:
        assigned = any(i[1] == "assign" and i[2] == k for i in ins)
        if not assigned or op != "add":
            if op in ("get", "serialize", "deserialize", "has", "remove"):
                R.violation("channel-tested", f.qual, "operator[]", e.where(),
                            "%s uses operator[] on the channel map, which inserts a null channel for an absent key" % f.short)
    if op in ("get", "serialize", "deserialize", "has") and (ins or rm):
        e = (ins + rm)[0][0]
        R.violation("channel-" + ("has" if op == "has" else "get"), f.qual, "modifies the group", e.where(),
                    "%s changes the channel group" % f.short)
    if op == "add":
        R.count("channel insertions decided")
        if rm:
            R.violation("channel-add", f.qual, "removes", rm[0][0].where(), "%s removes channels from the group" % f.short)
        if not ins:
            R.violation("channel-add", f.qual, "no insertion", f.where(), "%s does not insert a channel" % f.short)
            return
        for e, o, k, v in ins:
            S = F.at(e.id)
            if S is None:
                continue
            if present(F, S, look, k) is not False and not insert_checked(F, G, e, o):
                R.violation("channel-add", f.qual, "insertion", e.where(),
                            "%s inserts the channel without having tested that the key is absent: an existing channel is "
                            "replaced or the new one is dropped" % f.short)
        stop = {e.id for e, *_ in ins}
        if must_pass(G, G.entry, [G.exit], lambda ev: ev.id in stop) is not None:
            R.violation("channel-add", f.qual, "path without insertion", f.where(),
                        "%s can return without inserting the channel" % f.short)
        vals = {v for e, o, k, v in ins}
        for r in returns(G):
            t = G.term(r.frame, r.node["c"][0])
            ok = t[0] == "fld" and t[2] == "value_" and (deref_of(t[1]) in vals or deref_of(t[1]) in
                                                         {("idx", c, k) for e, o, c, k, v in ops if o == "assign"})
            if not ok and t[0] == "fld" and t[2] == "value_":
                S = F.at(r.id) or frozenset()
                p = deref_of(t[1])
                ok = p is not None and any(v is not None and F.entails_le(S, p, v) and F.entails_le(S, v, p) for v in vals)
            if not ok:
                R.violation("channel-add", f.qual, "returned value", r.where(),
                            "%s returns something other than the value of the inserted channel" % f.short)
    elif op == "has":
        R.count("has() results decided")
        for r in returns(G):
            S = F.at(r.id)
            if S is None:
                continue
            t = F.cond_term(r.frame, r.node["c"][0])
            for val in (True, False):
                tv = F.truth(S, t)
                if tv is not None and tv != val:
                    continue
                S2 = F.assume(S, t, val)
                if S2 is None:
                    continue
                p = present(F, S2, look, key)
                if p is not val:
                    R.violation("channel-has", f.qual, "returns %s" % str(val).lower(), r.where(),
                                "%s can return %s although the lookup of its key %s" %
                                (f.short, str(val).lower(), "did not succeed" if val else "may have succeeded"))
    elif op == "get":
        R.count("get() results decided")
        for r in returns(G):
            ok = True
            for x in result_terms(G, r):
                o = x[0] == "fld" and x[2] == "value_"
                p = deref_of(x[1]) if o else None
                if p is not None and p[0] in ("var",):
                    S = F.at(r.id) or frozenset()
                    for f_ in S:
                        if f_[0] == "le" and f_[1] == p and f_[3] == 0 and f_[2][0] == "dyncast":
                            p = f_[2]
                ok = ok and o and p is not None and p[0] == "dyncast" and found_under(p[2], key)
            if not ok:
                R.violation("channel-get", f.qual, "returned value", r.where(),
                            "%s returns something other than the value of the channel found under its key" % f.short)
    elif op == "remove":
        R.count("remove() results decided")
        er = [x for x in rm if x[1] == "erase"]
        bad = [x for x in rm if x[1] != "erase"] + ins
        if bad:
            R.violation("channel-remove", f.qual, bad[0][1], bad[0][0].where(), "%s changes other channels" % f.short)
        if not er:
            R.violation("channel-remove", f.qual, "no erase", f.where(), "%s does not remove the channel" % f.short)
            return
        ids = {e.id for e, *_ in er}
        if must_pass(G, G.entry, [G.exit], lambda ev: ev.id in ids) is not None:
            R.violation("channel-remove", f.qual, "path without erase", f.where(),
                        "%s can return without removing the channel" % f.short)
        S = F.at(G.exit)
        ok = S is None
        for e, o, k, v in er:
            t = G.term(e.frame, e.nid)
            if S is not None and (F.entails_le(S, ("int", 1), t) or present(F, F.at(e.id) or frozenset(), look, key) is True):
                ok = True
        if not ok:
            R.violation("channel-remove", f.qual, "absence ignored", f.where(),
                        "%s does not fail when the channel does not exist" % f.short)


def insert_checked(F, G, e, o):
    """`CHECK(map.emplace(..).second)`"""
    if o != "insert":
        return False
    t = ("fld", G.term(e.frame, e.nid), "second")
    S = F.at(G.exit)
    return S is not None and F.entails_true(S, t)


def deref_of(t):
    if t[0] == "deref":
        return t[1]
    return None


def found_under(t, key):
    """t is the `second` of the element found under key"""
    if t[0] == "idx" and is_group_map(t[1]) and t[2] == key:
        return True
    if t[0] == "fld" and t[2] == "second" and t[1][0] == "deref":
        p = t[1][1]
        return p[0] == "m" and p[1] == "find" and is_group_map(p[2]) and p[3] == key
    return False


# ---------------------------------------------------------------------------------------------- group comparison
def group_equal(R, prog):
    fs = [f for f in prog.find("aslam::channels::isChannelGroupEqual") if f.blocks and len(f.params) == 2]
    R.need(len(fs) == 1, "isChannelGroupEqual(left, right)")
    f = fs[0]
    G = Graph(prog, f, depth=6)
    F = Facts(G)
    m = [("fld", ("param", i, f.params[i]["n"]), "channels_") for i in (0, 1)]
    same = [addr(("param", i, f.params[i]["n"])) for i in (0, 1)]

    def identical(S):
        return F.entails_le(S, same[0], same[1]) and F.entails_le(S, same[1], same[0])

    def name(x):
        return "the left group" if x == m[0] else "the right group"
    rets = returns(G)
    R.need(rets, "a return value of isChannelGroupEqual")
    # which loops
    loops = [l for l in loops_over(G, lambda c: c in m)]
    trues = [r for r in rets if F.at(r.id) is not None and may_return(F, F.at(r.id), r, True) and not identical(F.at(r.id))]
    falses = [r for r in rets if F.at(r.id) is not None and may_return(F, F.at(r.id), r, False)]
    if not falses or not [r for r in rets if F.at(r.id) is not None and may_return(F, F.at(r.id), r, True)]:
        R.violation("group-equal", f.qual, "constant answer", f.where(), "isChannelGroupEqual() always gives the same answer")
        return
    if not loops:
        if trues:
            R.violation("group-equal", f.qual, "no loop", trues[0].where(),
                        "isChannelGroupEqual() can return true without having looked at all channels")
        return
    # sizes
    IN = after(F, G.entry, [("ne",) + tuple(sorted((("size", m[0]), ("size", m[1])), key=repr)) + (0,)])
    for r in rets:
        if r.id in IN and may_return(F, IN[r.id], r, True) and not identical(IN[r.id]):
            both = {l.container for l in loops} == set(m)
            if not both:
                R.violation("group-equal", f.qual, "sizes", r.where(),
                            "isChannelGroupEqual() can return true for groups with a different number of channels")
    exh_ev = {x for l in loops for x in l.done_ev}
    exh_cond = {x for l in loops for x in l.done_cond}
    IN = feasible(F, G.entry, stop_ev=exh_ev, stop_cond=exh_cond)
    for r in trues:
        if r.id in IN and may_return(F, IN[r.id], r, True) and not identical(IN[r.id]):
            R.violation("group-equal", f.qual, "true before the last channel", r.where(),
                        "isChannelGroupEqual() can return true before all channels were compared")
    for lp in loops:
        cont = lp.container
        other = m[1] if cont == m[0] else m[0]
        finds, cmps = [], []
        for e, op, c, k, t in lookup_terms(prog, G):
            if c == other and k is not None and k[0] == "fld" and k[2] == "first" and elem_of(k[1]) == cont:
                finds.append((e, t, op))
        for e, op, c, k, v in map_ops(G, is_group_map):
            if op == "at" and c == other and k[0] == "fld" and k[2] == "first" and elem_of(k[1]) == cont:
                finds.append((e, None, "at"))
        for e in G.ev:
            if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXMemberCallExpr":
                t = G.term(e.frame, e.nid)
                if t[0] == "m" and t[1] == "compare" and len(t) > 3:
                    sides = {side(t[2], cont, other), side(t[3], cont, other)}
                    if sides == {"own", "other"}:
                        cmps.append((e, t))
        R.count("loops over all channels")
        fi = {e.id for e, t, o in finds}
        ci = {e.id for e, t in cmps}
        for b in lp.body:
            for ids, what in ((fi, "looked up in the other group"), (ci, "compared")):
                IN = feasible(F, b, stop_ev=ids)
                skip = lp.heads & set(IN) or [r for r in rets if r.id in IN and may_return(F, IN[r.id], r, True)]
                if skip:
                    R.violation("group-equal", f.qual, "not " + what, G.ev[b].where(),
                                "isChannelGroupEqual() can skip a channel that was not %s" % what)
        for e, t, op in finds:
            if t is None:
                continue
            neg = [x for e2, t2, o2 in finds if t2 is not None and (e2 is e or sees(G, e, e2))
                   for x in ([("F", t2)] if o2 != "count" else [("le", t2, ("zero",), 0), ("F", t2)])]
            for r in true_after(F, e.id, neg):
                R.violation("group-equal", f.qual, "missing channel", e.where(),
                            "isChannelGroupEqual() can return true although a channel is missing in %s" % name(other))
        for e, t in cmps:
            for r in true_after(F, e.id, [("F", t)]):
                R.violation("group-equal", f.qual, "different channel", e.where(),
                            "isChannelGroupEqual() can return true although two channels differ")
            for r in true_after_always(F, G, e, t):
                R.violation("group-equal", f.qual, "equal channels", e.where(),
                            "isChannelGroupEqual() returns false although the compared channels are equal")


def true_after_always(F, G, e, t):
    """nothing but `false` can follow a successful comparison"""
    IN = after(F, e.id, [("T", t)])
    rs = [r for r in returns(G) if r.id in IN]
    if rs and not any(may_return(F, IN[r.id], r, True) for r in rs):
        return rs[:1]
    return []


def sees(G, e, e2):
    """the lookup e2 was made before e in the same iteration (its result is that of the same map)"""
    return e2.id < e.id


def elem_of(t):
    """container that t is an element of (range-for element or dereferenced iterator)"""
    if t[0] == "elem":
        return t[1]
    if t[0] == "deref" and t[1][0] == "iter":
        return t[1][1]
    return None


def side(t, cont, other):
    for x in subterms(t):
        if elem_of(x) == cont and not any(y[0] == "m" and y[1] in ("find",) for y in subterms(t)):
            return "own"
    for x in subterms(t):
        if x[0] == "m" and x[1] in ("find",) and x[2] == other:
            return "other"
        if x[0] == "idx" and x[1] == other:
            return "other"
    return None


# ---------------------------------------------------------------------------------------------- clone
def group_clone(R, prog):
    fs = [f for f in prog.find("aslam::channels::cloneChannelGroup") if f.blocks]
    R.need(len(fs) == 1, "cloneChannelGroup")
    f = fs[0]
    G = Graph(prog, f, depth=3)
    F = Facts(G)
    src = ("fld", ("param", 0, f.params[0]["n"]), "channels_")
    loops = loops_over(G, lambda c: c == src)
    dst = [x for x in map_ops(G, lambda c: is_group_map(c) and c != src)]
    for e, op, c, k, v in dst:
        if op == "copy" and e.frame is G.root:
            R.violation("group-clone", f.qual, "copied map", e.where(),
                        "cloneChannelGroup() copies the map: the clone shares the channels with the original")
    ins = [x for x in dst if x[1] in ("insert", "assign")]
    if not loops or not ins:
        R.violation("group-clone", f.qual, "no loop", f.where(), "cloneChannelGroup() does not insert a clone of every channel")
        return
    good = set()
    for e, op, c, k, v in ins:
        R.count("clone insertions decided")
        okk = k is not None and k[0] == "fld" and k[2] == "first" and elem_of(k[1]) == src
        okv = v is not None and all(is_clone(G, x, src) for x in alternatives(v))
        if not okk:
            R.violation("group-clone", f.qual, "key", e.where(), "cloneChannelGroup() inserts under a different key")
        if not okv:
            R.violation("group-clone", f.qual, "shared channel", e.where(),
                        "cloneChannelGroup() inserts a channel that is not a clone: both groups share its value")
        if okk and okv:
            good.add(e.id)
    for lp in loops:
        for b in lp.body:
            IN = feasible(F, b, stop_ev=good)
            if good and (lp.heads & set(IN) or G.exit in IN):
                R.violation("group-clone", f.qual, "skipped channel", G.ev[b].where(),
                            "cloneChannelGroup() can leave out a channel")
    if G.exit in feasible(F, G.entry, stop_ev={x for l in loops for x in l.done_ev},
                          stop_cond={x for l in loops for x in l.done_cond}):
        R.violation("group-clone", f.qual, "incomplete loop", f.where(),
                    "cloneChannelGroup() can return before all channels were cloned")
    # result
    dsts = {x[2][1] for x in ins}
    for r in returns(G):
        t = G.term(r.frame, r.node["c"][0])
        if t not in dsts:
            R.violation("group-clone", f.qual, "result", r.where(), "cloneChannelGroup() returns a different group")


def alternatives(v):
    """the values a conditional expression may have, without smart-pointer wrappers"""
    if v[0] == "cond":
        return [y for x in v[2:] for y in alternatives(x)]
    if v[0] == "ctor" and "_ptr<" in v[1] and len(v) > 2:
        return alternatives(v[2])
    if v[0] == "call" and v[1] in ("std::move", "std::forward") and len(v) > 2:
        return alternatives(v[2])
    return [v]


def is_clone(G, x, src):
    """x->clone() of the element's channel"""
    if x[0] == "m" and x[1] == "clone" and x[2][0] == "deref" and x[2][1][0] == "fld" and elem_of(x[2][1][1]) == src:
        return True
    if x[0] == "var":
        vals = var_values(G, x)
        return bool(vals) and all(y[0] != "var" and is_clone(G, y, src) for v in vals for y in alternatives(v))
    return False


def var_values(G, v):
    """the terms a local smart pointer is given (initialisation, reset(), assignment)"""
    out = []
    for fr in [G.root] + G.frames:
        if fr.id == v[1] and v[2] in fr.fn.decls:
            d = fr.fn.decls[v[2]][0]
            if d.get("init") is not None:
                t = G.term(fr, d["init"])
                if t[0] != "ctor" or len(t) > 2:
                    out.append(t)
            for k, i in fr.fn.writes.get(v[2], []):
                for p in fr.fn.parents.get(i, []):
                    n = fr.fn.nodes[p]
                    if n["k"] == "MemberExpr" and n["n"] == "reset":
                        for q in fr.fn.parents.get(p, []):
                            out += [G.term(fr, a) for a in fr.fn.nodes[q]["c"][1:]]
                    if n["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and n.get("op") == "=" and n["c"][-2] == i:
                        out.append(G.term(fr, n["c"][-1]))
    return out


# ---------------------------------------------------------------------------------------------- single channel values
def values(R, prog):
    n = 0
    for key, r in sorted(prog.recs.items()):
        if strip_tmpl(r["name"]) != "aslam::channels::Channel" or not any(f["n"] == "value_" for f in r["fields"]):
            continue
        for f in prog.methods_of(key):
            if not f.blocks:
                continue
            nm = f.short
            if nm in ("operator==", "equal_to", "compare") and f.params:
                n += 1
                G = Graph(prog, f, depth=6)
                seen = set()
                for e in G.ev:
                    if e.id in G.live and e.kind == "stmt" and e.nid is not None:
                        for x in subterms(G.term(e.frame, e.nid)):
                            if x[0] == "fld" and x[2] == "value_":
                                seen.add("own" if x[1] == ("this",) else "other")
                if seen != {"own", "other"}:
                    R.violation("channel-value", f.qual, "operands", f.where(),
                                "%s does not compare both channels' values" % f.qual)
                F = Facts(G)
                vals = set()
                for x in returns(G):
                    S = F.at(x.id)
                    if S is not None:
                        vals |= {v for v in (True, False) if may_return(F, S, x, v)}
                if returns(G) and vals != {True, False}:
                    R.violation("channel-value", f.qual, "constant", f.where(), "%s always gives the same answer" % f.qual)
            elif f.kind == "ctor" and len(f.params) == 1 and not f.d.get("defaulted") and \
                    strip_tmpl(f.params[0]["t"]).replace("const ", "").rstrip("& ").endswith("Channel"):
                n += 1
                G = Graph(prog, f, depth=4)
                src = ("fld", ("param", 0, f.params[0]["n"]), "value_")
                ids = set()
                for e in G.ev:
                    if e.id in G.live and e.kind in ("stmt", "init") and e.frame is G.root:
                        if e.kind == "init" and e.d.get("init") == "value_" and e.nid is not None and e.nid >= 0 and \
                                any(x == src for x in subterms(G.term(e.frame, e.nid))):
                            ids.add(e.id)
                        if e.kind == "stmt" and e.node["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and \
                                e.node.get("op") == "=":
                            c = e.node["c"][-2:]
                            if G.term(e.frame, c[0]) == ("fld", ("this",), "value_") and \
                                    any(x == src for x in subterms(G.term(e.frame, c[1]))):
                                ids.add(e.id)
                if must_pass(G, G.entry, [G.exit], lambda ev: ev.id in ids) is not None:
                    R.violation("channel-value", f.qual, "copy", f.where(), "copying a channel does not copy its value")
    R.count("channel value functions", n)
    R.atleast("channel value functions", 6)
    for f in prog.fns.values():
        if f.short == "clone" and "Cloneable<" in f.name and f.blocks:
            G = Graph(prog, f, depth=1)
            for r in returns(G):
                ok = False
                for e in G.ev:
                    if e.id in G.live and e.kind == "stmt" and e.node["k"] == "CXXNewExpr":
                        ok = any(x == ("this",) or x == ("deref", ("addr", ("this",))) for c in e.node["c"] if c >= 0
                                 for x in subterms(G.term(e.frame, c)))
                R.count("clone functions")
                if not ok:
                    R.violation("channel-value", f.qual, "clone", r.where(), "clone() does not copy *this")


CHECKS = {"P07": P07, "P08": P08}
