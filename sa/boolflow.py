"""Branch-combination analysis: at each event the set of truth assignments (to the comparisons and flags tested on the
way) under which it is reached. A disjunctive dataflow with a bounded number of assignments; assignments to boolean
variables are evaluated under the current assignment and split when undetermined."""
from .graph import *

LIMIT = 400


def norm(t, v):
    while True:
        if t[0] == "un" and t[1] == "!":
            t, v = t[2], not v
            continue
        if t[0] == "bin" and t[1] == "!=":
            t, v = ("bin", "==", t[2], t[3]), not v
            continue
        if t[0] == "bin" and t[1] in (">=",):
            t, v = ("bin", "<", t[2], t[3]), not v
            continue
        if t[0] == "bin" and t[1] in (">",):
            t = ("bin", "<", t[3], t[2])
            continue
        if t[0] == "bin" and t[1] == "<=":
            t, v = ("bin", "<", t[3], t[2]), not v
            continue
        if t[0] == "bin" and t[1] == "==" and t[3] in (("int", 0), ("int", 1)) and isbool(t[2]):
            v = v if t[3][1] else not v
            t = t[2]
            continue
        if t[0] == "bin" and t[1] == "==" and t[2][0] in ("int", "null", "glob") and t[3][0] not in ("int", "null", "glob"):
            t = ("bin", "==", t[3], t[2])
            continue
        return t, v


def isbool(t):
    return t[0] == "bin" and t[1] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or t[0] == "un" and t[1] == "!"


def evaluate(t, s):
    """truth of t under assignment s (dict), or None"""
    if t[0] == "int":
        return bool(t[1])
    t2, v = norm(t, True)
    if t2 in s:
        return s[t2] == v
    if t2[0] == "bin" and t2[1] in ("&&", "||"):
        a, b = evaluate(t2[2], s), evaluate(t2[3], s)
        if t2[1] == "&&":
            r = False if a is False or b is False else True if a and b else None
        else:
            r = True if a or b else False if a is False and b is False else None
        return None if r is None else r == v
    return None


def assume(t, pol, s):
    """assignments extending s under which t has truth pol (list of dicts)"""
    t, pol = norm(t, pol)
    if t[0] == "int":
        return [s] if bool(t[1]) == pol else []
    if t[0] == "bin" and t[1] in ("&&", "||"):
        conj = (t[1] == "&&") == pol
        if conj:
            out = []
            for x in assume(t[2], pol, s):
                out += assume(t[3], pol, x)
            return out
        out = list(assume(t[2], pol, s))
        for x in assume(t[2], not pol, s):
            out += assume(t[3], pol, x)
        return out
    if t in s:
        return [s] if s[t] == pol else []
    s = dict(s)
    s[t] = pol
    # x == a and x == b exclude each other for distinct constants
    return [s]


class BoolFlow:
    def __init__(self, G, F, interesting=None):
        self.G, self.F = G, F
        self.over = False
        self.interesting = interesting
        init = frozenset([frozenset()])
        self.IN = forward(G, init, self.transfer, self.join, self.edge)

    def join(self, A, B):
        C = A | B
        if len(C) > 1:
            C = self.reduce(C)
        if len(C) > LIMIT:
            self.over = True
            # keep only what is common
            common = frozenset.intersection(*C)
            return frozenset([common])
        return C

    @staticmethod
    def reduce(C):
        # drop assignments implied by a weaker one
        out = []
        for s in sorted(C, key=len):
            if not any(o <= s for o in out):
                out.append(s)
        return frozenset(out)

    def edge(self, A, c):
        if c[0] == "if":
            t = self.F.cond_term(c[1], c[2])
            pol = c[3]
        elif c[0] == "ret":
            r = c[1].fn.simple_return()
            t = self.G.term(c[1], r) if r is not None else ("ret", c[1].id)
            pol = c[2]
        else:
            return A
        out = set()
        for s in A:
            for x in assume(t, pol, dict(s)):
                out.add(frozenset(x.items()))
        return frozenset(out) if out else None

    def kill(self, A, loc):
        fname = loc[2] if loc[0] == "fld" else None

        def hit(t):
            for x in subterms(t):
                if x == loc or fname and x[0] == "fld" and x[2] == fname:
                    return True
            return False
        return frozenset(frozenset((t, v) for t, v in s if not hit(t)) for s in A)

    def assign(self, A, loc, val):
        out = set()
        for s in A:
            d = dict(s)
            v = evaluate(val, d)
            if v is None:
                for pol in (True, False):
                    for x in assume(val, pol, d):
                        x = {t: b for t, b in x.items() if not contains(t, loc)}
                        x[loc] = pol
                        out.add(frozenset(x.items()))
            else:
                d = {t: b for t, b in d.items() if not contains(t, loc)}
                d[loc] = v
                out.add(frozenset(d.items()))
        return frozenset(out)

    def transfer(self, e, A):
        if e.kind != "stmt":
            return A
        n, fr, G = e.node, e.frame, self.G
        k, c = n["k"], n["c"]
        if k == "DeclStmt":
            for d in n["decls"]:
                loc = ("var", fr.id, d["d"], d["n"])
                A = self.kill(A, loc)
                if d["t"].replace("const ", "") == "bool" and d.get("init") is not None and not d.get("ref"):
                    v = self.F.ret_subst(G.term(fr, d["init"]), fr, d["init"])
                    if not contains(v, loc):
                        A = self.assign(A, loc, v)
            return A
        if k == "BinaryOperator" and n["op"] == "=":
            loc = G.term(fr, c[0])
            if fr.fn.nodes[c[0]].get("t", "") == "bool" and loc[0] == "var":
                v = self.F.ret_subst(G.term(fr, c[1]), fr, c[1])
                if not contains(v, loc):
                    return self.assign(self.kill(A, loc), loc, v)
            return self.kill(A, loc)
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and n["op"] in ("++", "--"):
            return self.kill(A, G.term(fr, c[0]))
        if k == "CXXOperatorCallExpr" and n["op"] in ("=", "++", "--", "+=", "-="):
            return self.kill(A, G.term(fr, c[1]))
        if k == "ReturnStmt" and fr.parent is not None and c and c[0] >= 0 and fr.fn.d.get("ret") == "bool":
            return self.assign(A, ("ret", fr.id), self.F.ret_subst(G.term(fr, c[0]), fr, c[0]))
        if k == "CXXMemberCallExpr":
            me = fr.fn.nodes[c[0]]
            if me["k"] == "MemberExpr" and not me.get("cm") and not me.get("static") and not me.get("repo") and \
                    me["n"] not in self.F.nokill:
                return self.kill(A, G.obj_term(fr, c[0]))
        return A

    def at(self, evid):
        if self.over:
            return None
        return self.IN.get(evid)
