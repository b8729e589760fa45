"""Abstract interpretation of small functions over cells and orders: the initial content of a scalar is an opaque value named
by where it is stored; what is known of two opaque values is only their order (less, equal, greater), integers that come from
constants are exact. All paths and all orders are covered; a step limit bounds loops whose trip count is not constant."""
import re
from .ir import short, strip_tmpl

UNK = ("?",)
ABORT = object()
THROW = ("throw",)     # "value" of a call that raised


class Limit(Exception):
    pass


class Opaque(Exception):
    """something the domain cannot express"""


class Path:
    """one abstract execution"""
    def __init__(self):
        self.mem = {}      # cell -> value
        self.rel = {}      # (value, value) -> 'lt' / 'eq' / 'gt'   or (value,) -> bool
        self.trace = []    # effects: calls without a body
        self.odd = []      # constructs that were not understood

    def copy(self):
        p = Path()
        p.mem, p.rel, p.trace, p.odd = dict(self.mem), dict(self.rel), list(self.trace), list(self.odd)
        return p


def key(v):
    return repr(v)


CAST_EXPRS = ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr")


class Interp:
    """values: int; ('w', cell) initial content; ('ref', cell) an lvalue / object; ('ptr', cell); ('op', o, a, b); UNK
    cells: (root, step, step ...); a union of the same bytes is addressed by its largest scalars"""
    cases = False      # remember which case of a switch was taken
    rethrow = False    # throw expressions end in a handler or leave the function, instead of ending the path

    def __init__(self, prog, limit=60000, words=("u64",)):
        self.prog, self.steps, self.limit, self.words = prog, 0, limit, words
        self.frames = 0

    # -------------------------------------------------------------------------------------------- entry
    def run(self, fn, this=("this",), args=None, mem=None):
        """[(path, return value)] for every way through fn; args: cells or values, default: param i; mem: content to start with"""
        p = Path()
        p.mem.update(mem or {})
        env = {}
        for i, q in enumerate(fn.params):
            v = args[i] if args else None
            if v is None:
                t = q["t"]
                if t.rstrip().endswith("*"):
                    v = ("ptr", (("param", i),))
                else:
                    v = ("ref", (("param", i),))
            env[q["d"]] = v
        return list(self.call(fn, p, env, ("ref", (this,))))

    def call(self, fn, p, env, this, outer=None):
        """env: decl -> ('ref', cell) | ('ptr', cell) | value. yields (path, value)"""
        self.frames += 1
        if self.frames > 4000:
            raise Limit()
        fid = self.frames
        init = {d: v for d, v in env.items()}
        yield from self.block(fn, fn.entry, 0, p, init, {}, this, fid, outer)

    def block(self, fn, bid, pos, p, env, cache, this, fid, outer):
        work = [(bid, pos, p, env, cache)]
        thrown = []
        while work or thrown:
            if thrown:
                yield thrown.pop(), THROW
                continue
            bid, pos, p, env, cache = work.pop()
            b = fn.bmap[bid]
            dead = False
            forked = False
            i = pos
            ret = None
            while i < len(b["el"]):
                el = b["el"][i]
                self.steps += 1
                if self.steps > self.limit:
                    raise Limit()
                if isinstance(el, dict):
                    if "tdtor" in el and "LogMessageFatal" in el["tdtor"]:
                        dead = True
                        break
                    if "tdtor" not in el and "dtor" not in el:
                        # member initialiser
                        e = el.get("e")
                        if (el.get("base") or el.get("delegating")) and e is not None and e >= 0 and \
                                fn.nodes[e]["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                            for q, v, c2 in list(self.ev(fn, e, p, env, cache, this, fid, outer)):
                                work.append((bid, i + 1, q, env, c2))
                            forked = True
                            break
                        if el.get("init") and e is not None and e >= 0:
                            outs = list(self.ev(fn, e, p, env, cache, this, fid, outer))
                            for q, v, c2 in outs:
                                q = q.copy()
                                cell = this[1] + (el["init"],)
                                self.drop(q, cell)
                                self.store(q, cell, v if isinstance(v, tuple) and v and v[0] == "ref" and
                                           v[1] not in q.mem else self.rval(q, v))
                                work.append((bid, i + 1, q, env, c2))
                            forked = True
                            break
                    i += 1
                    continue
                n = fn.nodes[el]
                if n["k"] == "CXXThrowExpr" and self.rethrow:
                    self.raised(fn, el, p, env, cache, work, thrown)
                    forked = True
                    break
                if n.get("noret") or n["k"] == "CXXThrowExpr" or \
                        n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "LogMessageFatal" in n["t"]:
                    dead = True
                    break
                if n["k"] == "ReturnStmt":
                    if n["c"] and n["c"][0] >= 0:
                        for q, v, c2 in self.ev(fn, n["c"][0], p, env, cache, this, fid, outer):
                            yield q, v
                    else:
                        yield p, None
                    forked = True
                    break
                if self.throws(n):
                    # the call may raise before it had any effect
                    self.raised(fn, el, p.copy(), env, cache, work, thrown)
                outs = list(self.ev(fn, el, p, env, cache, this, fid, outer, force=True))
                if any(v == THROW for q, v, c2 in outs):
                    for q, v, c2 in outs:
                        if v == THROW:
                            self.raised(fn, el, q, env, c2, work, thrown)
                        else:
                            work.append((bid, i + 1, q, dict(env), c2))
                    forked = True
                    break
                if len(outs) == 1:
                    p, v, cache = outs[0]
                    i += 1
                    continue
                for q, v, c2 in outs:
                    work.append((bid, i + 1, q, dict(env), c2))
                forked = True
                break
            if dead or forked:
                continue
            if bid == fn.exit:
                yield p, None
                continue
            term = b.get("term")
            succ = b["succ"]
            live = [s for s in succ if s is not None]
            if b.get("noret") or not live:
                continue
            if term and term["k"] == "SwitchStmt":
                for q, v, c2 in self.ev(fn, term["cond"], p, env, cache, this, fid, outer):
                    v = self.rval(q, v)
                    hit = None
                    for s in live:
                        lab = fn.bmap[s].get("label") or {}
                        if lab.get("k") == "case" and str(lab.get("v")) == str(v):
                            hit = s
                    if hit is not None:
                        work.append((hit, 0, q, dict(env), dict(c2)))
                    elif isinstance(v, int):
                        for s in live:
                            if (fn.bmap[s].get("label") or {}).get("k") != "case":
                                work.append((s, 0, q.copy(), dict(env), dict(c2)))
                    else:
                        for s in live:
                            lab = fn.bmap[s].get("label") or {}
                            q2 = q.copy()
                            if self.cases and lab.get("k") == "case" and str(lab.get("v", "x")).lstrip("-").isdigit():
                                eq = [r for r, o in self.order(q2, v, int(lab["v"])) if o == "eq"]
                                if not eq:
                                    continue
                                q2 = eq[0]
                            work.append((s, 0, q2, dict(env), dict(c2)))
                continue
            if len(succ) == 2 and term and "cond" in term and not term.get("tmpdtor"):
                for q, v, c2 in self.ev(fn, term["cond"], p, env, cache, this, fid, outer):
                    for q2, t in self.truth(q, v):
                        c3 = dict(c2)
                        c3[term["cond"]] = 1 if t else 0
                        s = succ[0 if t else 1]
                        if s is not None:
                            work.append((s, 0, q2, dict(env), c3))
                continue
            for s in live[:1] if len(live) == 1 else live:
                work.append((s, 0, p if len(live) == 1 else p.copy(), env if len(live) == 1 else dict(env), cache))

    def throws(self, n):
        """the call n, which is not entered, may raise an exception"""
        return False

    def catches(self, t):
        """a handler for type t takes what the calls named by throws() raise"""
        return False

    def raised(self, fn, nid, p, env, cache, work, thrown):
        for t in reversed(fn.d.get("tries", [])):
            if nid in t["in"]:
                for h in t["handlers"]:
                    if self.catches(h["t"]):
                        for b in fn.blocks:
                            if (b.get("label") or {}).get("n") == h.get("n") and b["label"].get("k") == "catch":
                                work.append((b["id"], 0, p, dict(env), dict(cache)))
                                return
        thrown.append(p)

    # -------------------------------------------------------------------------------------------- values
    def rval(self, p, v):
        if isinstance(v, tuple) and v and v[0] == "ref":
            c = v[1]
            if c in p.mem:
                return p.mem[c]
            return self.word(p, c)
        return v

    def load(self, p, c):
        return p.mem.get(c, ("w", c))

    def truth(self, p, v):
        """[(path, bool)]"""
        v = self.rval(p, v)
        if isinstance(v, int):
            return [(p, v != 0)]
        if isinstance(v, tuple) and v[0] == "ptr":
            return [(p, True)]
        if isinstance(v, tuple) and v[0] == "not":
            return [(q, not t) for q, t in self.truth(p, v[1])]
        if isinstance(v, tuple) and v[0] == "w":
            return [(q, r != "eq") for q, r in self.order(p, v, 0)]
        k = (v,)
        if k in p.rel:
            return [(p, p.rel[k])]
        a, b = p.copy(), p.copy()
        a.rel[k], b.rel[k] = True, False
        a.odd.append(v)
        b.odd.append(v)
        return [(a, True), (b, False)]

    def order(self, p, a, b):
        """[(path, 'lt'|'eq'|'gt')]"""
        a, b = self.rval(p, a), self.rval(p, b)
        if isinstance(a, int) and isinstance(b, int):
            return [(p, "lt" if a < b else "gt" if a > b else "eq")]
        if a == b and a != UNK:
            return [(p, "eq")]
        if isinstance(a, tuple) and a[0] == "mem" and b == 0:
            return self.memorder(p, a)
        if isinstance(b, tuple) and b[0] == "mem" and a == 0:
            return [(q, FLIP[r]) for q, r in self.memorder(p, b)]
        if isinstance(a, tuple) and a[0] == "bool" or isinstance(b, tuple) and b[0] == "bool":
            pass
        swap = key(a) > key(b)
        x, y = (b, a) if swap else (a, b)
        k = (x, y)
        if k in p.rel:
            r = p.rel[k]
            return [(p, FLIP[r] if swap else r)]
        out = []
        opts = ("lt", "eq", "gt")
        if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0:
            w = y if isinstance(x, int) else x
            if isinstance(w, tuple) and w[0] == "w":
                opts = ("eq", "lt") if isinstance(x, int) else ("eq", "gt")
        for r in opts:
            q = p.copy()
            q.rel[k] = r
            if any(isinstance(z, tuple) and z[0] not in ("w",) for z in (x, y)):
                q.odd.append(("cmp", x, y))
            out.append((q, FLIP[r] if swap else r))
        return out

    def memorder(self, p, m):
        _, A, B = m
        todo = [(p, 0)]
        out = []
        while todo:
            q, i = todo.pop()
            if i == len(A):
                out.append((q, "eq"))
                continue
            for q2, r in self.order(q, A[i], B[i]):
                if r == "eq":
                    todo.append((q2, i + 1))
                else:
                    swap = key(A) > key(B)
                    k = ("bytes", B, A) if swap else ("bytes", A, B)
                    if k in q2.rel:
                        out.append((q2, FLIP[q2.rel[k]] if swap else q2.rel[k]))
                    else:
                        for s in ("lt", "gt"):
                            q3 = q2.copy()
                            q3.rel[k] = s
                            out.append((q3, FLIP[s] if swap else s))
        return out

    def compare(self, p, op, a, b):
        out = []
        for q, r in self.order(p, a, b):
            t = {"==": r == "eq", "!=": r != "eq", "<": r == "lt", ">": r == "gt", "<=": r != "gt", ">=": r != "lt"}[op]
            out.append((q, 1 if t else 0))
        return out

    # -------------------------------------------------------------------------------------------- expressions
    def ev(self, fn, nid, p, env, cache, this, fid, outer, force=False):
        """[(path, value, cache)]"""
        if nid in cache and not force:
            return [(p, cache[nid], cache)]
        outs = self._ev(fn, nid, p, env, cache, this, fid, outer)
        res = []
        single = len(outs) == 1
        for q, v in outs:
            c2 = cache if single else dict(cache)
            c2[nid] = v
            res.append((q, v, c2))
        return res

    def many(self, fn, nids, p, env, cache, this, fid, outer):
        """[(path, [values])]"""
        todo = [(p, [], cache)]
        for i in nids:
            nxt = []
            for q, vs, c in todo:
                if i is None or i < 0:
                    nxt.append((q, vs + [UNK], c))
                    continue
                for q2, v, c2 in self.ev(fn, i, q, env, c, this, fid, outer):
                    nxt.append((q2, vs + [v], c2))
            todo = nxt
        return [(q, vs) for q, vs, c in todo]

    def var(self, fid, d):
        return (("var", fid, d),)

    def _ev(self, fn, nid, p, env, cache, this, fid, outer):
        n = fn.nodes[nid]
        k, c = n["k"], n["c"]
        A = (fn, c, p, env, cache, this, fid, outer)
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            v = n.get("v")
            try:
                return [(p, int(v) if not isinstance(v, bool) else int(v))]
            except (TypeError, ValueError):
                return [(p, {"true": 1, "false": 0}.get(str(v), UNK))]
        if "cv" in n and k not in ("CallExpr", "CXXMemberCallExpr"):
            return [(p, int(n["cv"]))]
        if k == "CXXThisExpr":
            return [(p, ("ptr", this[1]) if isinstance(this, tuple) and len(this) > 1 else UNK)]
        if k == "CXXNullPtrLiteralExpr":
            return [(p, 0)]
        if k == "DeclRefExpr":
            d = n.get("d")
            if n.get("dk") in ("local", "param"):
                e = env
                if d in e:
                    return [(p, e[d])]
                if outer is not None and d in outer:
                    return [(p, outer[d])]
                return [(p, ("ref", self.var(fid, d)))]
            if n.get("dk") == "enum" and "cv" in n:
                return [(p, int(n["cv"]))]
            if n.get("dk") == "func":
                return [(p, ("fn", n.get("fk") or n.get("fn")))]
            kind = "glob" if "const" in n.get("t", "").split("<")[0].replace("*const", "") or n.get("dk") != "static" else "static"
            return [(p, ("ref", ((kind, n.get("q") or n["n"]),)))]
        if k == "MemberExpr":
            if n.get("mk") == "method":
                return [(p, v) for p, v in self.base(A, n)]
            out = []
            for q, v in self.base(A, n):
                if n["n"] in ("str_", "_str") and not (isinstance(v, tuple) and v[0] == "ref"):
                    out.append((q, v))
                elif isinstance(v, tuple) and v[0] == "ref":
                    cell = v[1]
                    u = self.view(n)
                    if u == "word" or not n["n"]:
                        out.append((q, ("ref", cell)))
                    elif u == "byte":
                        out.append((q, ("bytes", cell)))
                    else:
                        out.append((q, ("ref", cell + (n["n"],))))
                elif isinstance(v, tuple) and v[0] == "obj":
                    out.append((q, v[1].get(n["n"], UNK)))
                else:
                    out.append((q, UNK))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for q, (b, i) in self.many(*A):
                out.append((q, self.index(q, b, i)))
            return out
        if k == "UnaryOperator":
            out = []
            for q, (v,) in self.many(*A):
                op = n["op"]
                if op == "&":
                    out.append((q, ("ptr", v[1]) if isinstance(v, tuple) and v[0] == "ref" else UNK))
                elif op == "*":
                    v = self.rval(q, v)
                    out.append((q, ("ref", v[1]) if isinstance(v, tuple) and v[0] == "ptr" else UNK))
                elif op == "!":
                    r = self.rval(q, v)
                    if isinstance(r, int):
                        out.append((q, 0 if r else 1))
                    else:
                        out += [(q2, 0 if t else 1) for q2, t in self.truth(q, r)]
                elif op in ("++", "--"):
                    old = self.rval(q, v)
                    new = old + (1 if op == "++" else -1) if isinstance(old, int) else self.padd(old, 1 if op == "++" else -1)
                    q = q.copy()
                    if isinstance(v, tuple) and v[0] == "ref":
                        q.mem[v[1]] = new
                    out.append((q, old if n.get("post") else v if isinstance(v, tuple) and v[0] == "ref" else new))
                elif op == "-":
                    r = self.rval(q, v)
                    out.append((q, -r if isinstance(r, int) else ("op", "neg", r)))
                elif op == "+":
                    out.append((q, self.rval(q, v)))
                else:
                    out.append((q, ("op", op, self.rval(q, v))))
            return out
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binary(A, n)
        if k == "ConditionalOperator":
            out = []
            for q, v, c2 in self.ev(fn, c[0], p, env, cache, this, fid, outer):
                for q2, t in self.truth(q, v):
                    for q3, w, c3 in self.ev(fn, c[1 if t else 2], q2, env, c2, this, fid, outer):
                        out.append((q3, w))
            return out
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr",
                 "ParenExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
                 "CXXDefaultArgExpr") and len(c) == 1:
            if k in CAST_EXPRS and n.get("t", "").replace("const ", "") == "bool" and \
                    fn.nodes[c[0]].get("t", "").replace("const ", "") != "bool":
                return [(q2, 1 if t else 0) for q, (v,) in self.many(*A) for q2, t in self.truth(q, v)]
            return [(q, v) for q, (v,) in self.many(*A)]
        if k == "DeclStmt":
            todo = [p]
            for d in n["decls"]:
                nxt = []
                for q in todo:
                    if d.get("static"):
                        env[d["d"]] = ("ref", (("static", fn.key, d["n"]),))
                        nxt.append(q)
                        continue
                    if d.get("init") is None:
                        env.pop(d["d"], None)
                        nxt.append(q)
                        continue
                    cell = self.var(fid, d["d"])
                    for q2, v, c2 in self.ev(fn, d["init"], q, env, cache, this, fid, outer):
                        if d.get("ref"):
                            env[d["d"]] = v
                        else:
                            if v != ("ref", cell):
                                q2 = q2.copy()
                                self.drop(q2, cell)
                                self.store(q2, cell, v)
                            env[d["d"]] = ("ref", cell)
                        nxt.append(q2)
                todo = nxt
            return [(q, None) for q in todo]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.callexpr(A, n, nid)
        if k == "InitListExpr":
            return [(q, ("list", tuple(self.rval(q, v) for v in vs))) for q, vs in self.many(*A)]
        if k == "LambdaExpr":
            return [(p, ("lambda", n.get("lam") or n.get("fk"), fid))]
        return [(p, UNK)]

    def base(self, A, n):
        fn, c, p, env, cache, this, fid, outer = A
        if not c or c[0] < 0:
            return [(p, this)]
        out = []
        for q, v, c2 in self.ev(fn, c[0], p, env, cache, this, fid, outer):
            if n.get("arrow"):
                v = self.rval(q, v)
                v = ("ref", v[1]) if isinstance(v, tuple) and v[0] == "ptr" else \
                    ("ref", v[1] + ("*",)) if isinstance(v, tuple) and v[0] == "w" else UNK
            out.append((q, v))
        return out

    def view(self, n):
        """member of a union of 64-bit words and bytes"""
        r = self.prog.recs.get(n.get("rec"))
        if r is None or not r.get("union"):
            return None
        t = n.get("t", "").replace("const ", "")
        return "word" if t.startswith(("unsigned long", "long", "uint64_t")) else \
            "byte" if t.startswith(("unsigned char", "char", "uint8_t")) else None

    def index(self, q, b, i):
        i = self.rval(q, i)
        if isinstance(b, tuple) and b[0] == "bytes":
            return ("ref", b[1] + ("byte", i)) if isinstance(i, int) else UNK
        if isinstance(b, tuple) and b[0] == "ref" and b[1] in q.mem:
            x = q.mem[b[1]]
            if isinstance(x, tuple) and x[0] == "ptr":
                b = x
        if isinstance(b, tuple) and b[0] in ("ref", "ptr") and not isinstance(i, int) and i != UNK:
            return ("at", b[1], i)
        if isinstance(b, tuple) and b[0] in ("ref", "ptr") and isinstance(i, int):
            cell = b[1]
            if b[0] == "ptr" and cell and isinstance(cell[-1], int):
                return ("ref", cell[:-1] + (cell[-1] + i,))
            return ("ref", cell + (i,))
        return UNK

    def padd(self, v, k):
        if isinstance(v, tuple) and v[0] in ("ptr", "ref") and isinstance(k, int):
            c = v[1]
            if c and isinstance(c[-1], int):
                return ("ptr", c[:-1] + (c[-1] + k,))
            return ("ptr", c + (k,))
        return UNK

    def store(self, p, cell, v):
        if isinstance(v, tuple) and v and v[0] == "ref":
            # copy of an object: its cells
            src = v[1]
            sub = {c: x for c, x in p.mem.items() if c[:len(src)] == src and len(c) > len(src)}
            if src in p.mem:
                p.mem[cell] = p.mem[src]
            elif not sub:
                p.mem[cell] = ("w", src)
            for c, x in sub.items():
                p.mem[cell + c[len(src):]] = x
            if sub and src not in p.mem:
                p.mem[cell] = ("w", src)
            return
        if isinstance(v, tuple) and v and v[0] == "list":
            for i, x in enumerate(v[1]):
                p.mem[cell + (i,)] = x
            return
        p.mem[cell] = v
        if len(cell) > 2 and cell[-2] == "byte" and isinstance(cell[-1], int):
            p.mem[cell[:-2] + (cell[-1] // 8,)] = ("frombytes", cell[:-2])

    @staticmethod
    def drop(p, cell):
        for c in [c for c in p.mem if c[:len(cell)] == cell]:
            del p.mem[c]

    def binary(self, A, n):
        fn, c, p, env, cache, this, fid, outer = A
        op = n["op"]
        if op in ("&&", "||"):
            out = []
            for q, v, c2 in self.ev(fn, c[0], p, env, cache, this, fid, outer):
                for q2, t in self.truth(q, v):
                    if t == (op == "||"):
                        out.append((q2, 1 if t else 0))
                        continue
                    for q3, w, c3 in self.ev(fn, c[1], q2, env, c2, this, fid, outer):
                        for q4, t2 in self.truth(q3, w):
                            out.append((q4, 1 if t2 else 0))
            return out
        out = []
        for q, (a, b) in self.many(*A):
            if op == "=":
                q = q.copy()
                if isinstance(a, tuple) and a[0] == "ref":
                    self.store(q, a[1], b)
                else:
                    q.odd.append(("store", a))
                out.append((q, a))
            elif op in ("==", "!=", "<", ">", "<=", ">="):
                out += self.compare(q, op, a, b)
            elif op == ",":
                out.append((q, b))
            else:
                o = op[:-1] if op.endswith("=") and n["k"] == "CompoundAssignOperator" else op
                x, y = self.rval(q, a), self.rval(q, b)
                if isinstance(x, int) and isinstance(y, int):
                    v = arith(o, x, y)
                elif o in ("+", "-") and isinstance(a, tuple) and (a[0] == "ptr" or isinstance(x, tuple) and x[0] == "ptr"
                                                                   or "[" in fn.nodes[c[0]].get("t", "")):
                    base = x if isinstance(x, tuple) and x[0] == "ptr" else a
                    v = self.padd(base, y if o == "+" else -y if isinstance(y, int) else None)
                elif o in ("&", "|") and fn.nodes[c[0]].get("t", "").replace("const ", "") == "bool":
                    v = None
                    for q2, t in self.truth(q, x):
                        for q3, t2 in self.truth(q2, y):
                            r = (t and t2) if o == "&" else (t or t2)
                            if n["k"] == "CompoundAssignOperator":
                                q3 = q3.copy()
                                q3.mem[a[1]] = 1 if r else 0
                                out.append((q3, a))
                            else:
                                out.append((q3, 1 if r else 0))
                    continue
                else:
                    v = ("op", o, x, y)
                if n["k"] == "CompoundAssignOperator":
                    q = q.copy()
                    if isinstance(a, tuple) and a[0] == "ref":
                        q.mem[a[1]] = v
                    out.append((q, a))
                else:
                    out.append((q, v))
        return out

    # -------------------------------------------------------------------------------------------- calls
    def words_of(self, p, a, n):
        """the n cells from pointer / object a on"""
        a = self.rval(p, a) if isinstance(a, tuple) and a[0] == "ref" and isinstance(p.mem.get(a[1]), tuple) and \
            p.mem[a[1]][0] == "ptr" else a
        if not (isinstance(a, tuple) and a[0] in ("ptr", "ref")):
            return None
        c = a[1]
        if c and isinstance(c[-1], int):
            return [c[:-1] + (c[-1] + i,) for i in range(n)]
        return [c + (i,) for i in range(n)]

    def inherited(self, f, n):
        """the constructor of a base class that `using Base::Base` makes a constructor of this class"""
        own = short(strip_tmpl(n.get("rec") or ""))
        if f is None or not own or f.short == own:
            return f
        tail = "@F@" + f.key.split("@F@")[-1]
        for g in self.prog.fns.values():
            if g.kind == "ctor" and g.blocks and g.short == f.short and g.key.endswith("@S@" + f.short + tail):
                return g
        return f

    def callexpr(self, A, n, nid):
        fn, c, p, env, cache, this, fid, outer = A
        k = n["k"]
        name = n.get("fn", "")
        s = short(name)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "CheckOpString" in n.get("t", "") and c:
            return [(q, self.rval(q, vs[0])) for q, vs in self.many(fn, c[:1], p, env, cache, this, fid, outer)]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            tgt, whole = None, True
            for pp in fn.parents.get(nid, []):
                pn = fn.nodes[pp]
                if pn["k"] == "DeclStmt":
                    for d in pn["decls"]:
                        if d.get("init") == nid and not d.get("ref") and not d.get("static"):
                            tgt = self.var(fid, d["d"])
            for b in fn.blocks:      # base class and delegated constructors construct this object
                for el in b["el"]:
                    if isinstance(el, dict) and el.get("e") == nid and (el.get("base") or el.get("delegating")):
                        tgt, whole = this[1], False
            cell = tgt or (("tmp", fid, nid),)
            f2 = self.inherited(self.prog.fns.get(n.get("fk")), n)
            out = []
            for q, vs in self.many(fn, c, p, env, cache, this, fid, outer):
                if f2 is not None and f2.blocks and not (n.get("cc") in ("copy", "move") and
                                                         (self.prog.recs.get(n.get("rec")) or {}).get("union")):
                    q = q.copy()
                    if whole:
                        self.drop(q, cell)
                    for q2, _ in self.call(f2, q, self.bind(f2, vs), ("ref", cell)):
                        out.append((q2, ("ref", cell)))
                elif n.get("cc") in ("copy", "move") and vs:
                    out.append((q, vs[0]))
                elif not vs:
                    out.append((q, ("ref", cell)))
                else:
                    out.append((q, ("new", n.get("t"), tuple(self.snap(q, v) for v in vs))))
            return out
        fn2 = self.prog.fns.get(n.get("fk"))
        obj = None
        if k == "CXXMemberCallExpr":
            objs = self.base((fn, fn.nodes[c[0]]["c"], p, env, cache, this, fid, outer), fn.nodes[c[0]]) \
                if fn.nodes[c[0]]["k"] == "MemberExpr" else [(p, UNK)]
            args = c[1:]
        elif k == "CXXOperatorCallExpr" and n.get("rec"):
            objs = [(q, v) for q, v, c2 in self.ev(fn, c[1], p, env, cache, this, fid, outer)]
            args = c[2:]
        else:
            objs = [(p, None)]
            args = c[1:]
        out = []
        for q0, obj in objs:
            for q, vs in self.many(fn, args, q0, env, cache, this, fid, outer):
                vs = [("ptr", v[1]) if isinstance(v, tuple) and v[0] == "ref" and a >= 0 and "[" in fn.nodes[a].get("t", "")
                      and fn.nodes[a]["k"] in ("DeclRefExpr", "MemberExpr") else v for a, v in zip(args, vs)]
                out += self.apply(fn, n, fn2, q, obj, vs, env, fid)
        return out

    def snap(self, q, v):
        """a value that is passed on; what a local array holds at this point"""
        if isinstance(v, tuple) and v[0] in ("ref", "ptr") and v[1] and v[1][0][0] in ("var", "tmp"):
            sub = {c[len(v[1]):]: x for c, x in q.mem.items() if c[:len(v[1])] == v[1] and len(c) > len(v[1])}
            if sub and v[1] not in q.mem:
                return ("snap", tuple(sorted(sub.items(), key=repr)))
        return self.rval(q, v)

    def bind(self, f2, vs):
        env = {}
        for i, prm in enumerate(f2.params):
            if i < len(vs):
                env[prm["d"]] = vs[i]
        return env

    def apply(self, fn, n, fn2, q, obj, vs, env, fid):
        name = n.get("fn", "")
        s = short(name)
        un = (self.prog.recs.get(n.get("rec")) or {}).get("union") and n.get("k") == "CXXOperatorCallExpr"
        if fn2 is not None and fn2.blocks and not un and not (n.get("virt") and self.prog.overriders.get(fn2.key)):
            out = []
            e2 = {}
            q = q.copy()
            self.frames += 1
            for i, prm in enumerate(fn2.params):
                if i >= len(vs):
                    continue
                t = prm["t"]
                if prm.get("ref") or "&" in t or not scalar_like(t):
                    e2[prm["d"]] = vs[i]
                else:
                    cell = (("var", "arg%d" % self.frames, prm["d"]),)
                    q.mem[cell] = self.rval(q, vs[i])
                    e2[prm["d"]] = ("ref", cell)
            th = obj if obj is not None else ("ref", (("nothis",),))
            for q2, v in self.call(fn2, q, e2, th, env if fn2.kind == "lambda" else None):
                out.append((q2, v if v is not None else UNK))
            return out
        # library calls
        r = [self.rval(q, v) for v in vs]
        rep = self.repeated(q, name, s, obj, vs, r)
        if rep is not None:
            return rep
        if s == "CheckNotNull" and vs:
            return [(q, vs[-1])]
        if s in ("move", "forward", "addressof", "GetReferenceableValue", "__addressof") and len(vs) == 1:
            v = vs[0]
            if "address" in s:
                return [(q, ("ptr", v[1]) if isinstance(v, tuple) and v[0] == "ref" else UNK)]
            return [(q, v)]
        if s in CHECKS and len(vs) >= 2:
            return [(q2, 0 if t else 1) for q2, t in self.compare(q, CHECKS[s], vs[0], vs[1])]
        if s == "__builtin_expect" and vs:
            return [(q, vs[0])]
        if s in ("memcpy", "memmove", "__builtin_memcpy") and len(vs) == 3:
            return self.memcpy(q, vs[0], vs[1], r[2])
        if s in ("memset",) and len(vs) == 3:
            return self.fill(q, vs[0], r[1], r[2])
        if s in ("memcmp", "__builtin_memcmp") and len(vs) == 3 and isinstance(r[2], int) and r[2] % 8 == 0:
            a, b = self.words_of(q, vs[0], r[2] // 8), self.words_of(q, vs[1], r[2] // 8)
            if a and b:
                return [(q, ("mem", tuple(self.load(q, x) for x in a), tuple(self.load(q, x) for x in b)))]
        if s in ("copy", "copy_n", "equal", "lexicographical_compare", "fill", "fill_n", "mismatch"):
            x = self.ranges(q, s, vs, r)
            if x is not None:
                return x
        if s in ("tie", "make_tuple", "make_pair", "forward_as_tuple"):
            return [(q, ("tuple", tuple(r)))]
        if s in ("operator<", "operator>", "operator==", "operator!=", "operator<=", "operator>="):
            xs = ([self.rval(q, obj)] if obj is not None else []) + r
            if len(xs) == 2:
                if all(isinstance(x, tuple) and x[0] == "tuple" for x in xs):
                    return self.lex(q, s[8:], xs[0][1], xs[1][1])
                return self.compare(q, s[8:], *xs)
        if s in ("begin", "data", "cbegin") and (obj is not None or len(vs) == 1):
            o = obj if obj is not None else vs[0]
            if isinstance(o, tuple) and o[0] == "ref":
                return [(q, ("ptr", o[1]))]
        if s == "operator()" and (name.startswith("std::hash") or "hash<" in name or "hash" in name):
            return [(q, ("op", "hash", r[-1]))]
        if s == "operator=" and obj is not None and vs and isinstance(obj, tuple) and obj[0] == "ref":
            q = q.copy()
            self.drop(q, obj[1])
            self.store(q, obj[1], vs[0])
            return [(q, obj)]
        if s in ("min", "max") and len(r) == 2 and all(isinstance(x, int) for x in r):
            return [(q, min(r) if s == "min" else max(r))]
        q = q.copy()
        o = None
        if obj is not None:
            o = self.rval(q, obj)
        q.trace.append((name, obj, tuple(vs)))
        val = ("call", name, o, tuple(r))
        if n.get("t", "").endswith("*"):
            val = ("ptr", (("ret", name, o, tuple(r)),))
        cm = n.get("cm") or n.get("static")
        if obj is not None and isinstance(obj, tuple) and obj[0] == "ref" and n.get("cm") and not vs:
            return [(q, ("w", obj[1] + (s + "()",)))]
        if s == "operator[]" and obj is not None and len(r) == 1 and isinstance(obj, tuple) and obj[0] == "ref":
            i = r[0]
            return [(q, ("ref", obj[1] + (i,)))]
        if s in ("at", "operator()") and obj is not None and isinstance(obj, tuple) and obj[0] == "ref" and n.get("cm"):
            return [(q, ("w", obj[1] + (s,) + tuple(r)))]
        return [(q, val)]

    def repeated(self, q, name, s, obj, vs, r):
        """repeated fields of a message: the list of field f of message m is the object m.f, its length m.f.#, its elements m.f.i"""
        if not (isinstance(obj, tuple) and obj[0] == "ref"):
            return None
        c = obj[1]
        if "::proto::" in name:
            m = re.match(r"(clear|add|set|mutable)_(\w+)$|(\w+)_size$|(\w+)$", s)
            if m is None or s.startswith("_internal"):
                return None
            op = m.group(1) or ("size" if m.group(3) else "get")
            if op == "get" and (s[0].isupper() or s in ("has", "swap")):
                return None
            f = c + (m.group(2) or m.group(3) or m.group(4),)
            op = {"mutable": "list*", "get": "list&"}.get(op, op) if not r or op not in ("get", "mutable") else \
                "elem" if op == "get" else "elem*"
        elif "RepeatedField" in name:
            f = c
            op = {"Clear": "clear", "Add": "add", "size": "size", "Set": "set", "Get": "elem", "operator[]": "elem&", "at": "elem&",
                  "mutable_data": "data", "data": "data", "begin": "data", "cbegin": "data", "Mutable": "elem*", "Resize": "resize",
                  "RemoveLast": "pop", "Truncate": "truncate", "AddAlreadyReserved": "add", "empty": "empty",
                  "Reserve": "nop"}.get(s)
            if op is None:
                return None
        else:
            return None
        ln = self.word(q, f + ("#",))
        if op == "nop":
            return [(q, UNK)]
        if op == "list*":
            return [(q, ("ptr", f))]
        if op == "list&":
            return [(q, ("ref", f))]
        if op == "data":
            return [(q, ("ptr", f + (0,)))]
        if op == "size":
            return [(q, ln)]
        if op == "empty":
            return self.compare(q, "==", ln, 0)
        if op in ("elem", "elem&", "elem*"):
            if not r or not isinstance(r[0], int):
                return None
            e = f + (r[0],)
            return [(q, ("ptr", e) if op == "elem*" else ("ref", e) if op == "elem&" else self.word(q, e))]
        q = q.copy()
        if op == "clear":
            self.drop(q, f)
            q.mem[f + ("#",)] = 0
            return [(q, UNK)]
        if op == "set":
            if len(r) == 2 and isinstance(r[0], int):
                q.mem[f + (r[0],)] = r[1]
            else:
                q.odd.append((name,) + tuple(r))
            return [(q, UNK)]
        if op == "add":
            if not isinstance(ln, int):
                q.odd.append((name, ln))
                q.mem[f + ("#",)] = ("op", "+", ln, 1)
                return [(q, UNK)]
            q.mem[f + ("#",)] = ln + 1
            q.mem[f + (ln,)] = r[0] if r else 0
            return [(q, ("ptr", f + (ln,)))]
        if op in ("resize", "truncate", "pop"):
            new = ln - 1 if op == "pop" and isinstance(ln, int) else r[0] if r else None
            if not isinstance(new, int) or not isinstance(ln, int):
                q.odd.append((name, ln))
                q.mem[f + ("#",)] = new if isinstance(new, int) else UNK
                return [(q, UNK)]
            for i in range(ln, new):
                q.mem[f + (i,)] = r[1] if len(r) > 1 else 0
            for i in range(new, ln):
                q.mem.pop(f + (i,), None)
            q.mem[f + ("#",)] = new
            return [(q, UNK)]
        return None

    def memcpy(self, q, d, s_, n):
        q = q.copy()
        if not isinstance(n, int) or n % 8:
            q.odd.append(("memcpy", d, s_, n))
            if isinstance(d, tuple) and d[0] in ("ptr", "ref"):
                base = d[1][:-1] if d[1] and isinstance(d[1][-1], int) else d[1]
                for i in range(max(2, (n // 8 + 1) if isinstance(n, int) else 2)):
                    q.mem[base + (i,)] = UNK
            return [(q, d)]
        D, S = self.words_of(q, d, n // 8), self.words_of(q, s_, n // 8)
        if D is None:
            q.odd.append(("memcpy", d, s_, n))
            q.trace.append(("memcpy", d, (s_, n)))
            return [(q, d)]
        vals = [self.word(q, x) for x in S] if S is not None else \
            [("at", self.rval(q, s_), i) for i in range(n // 8)]
        q.trace.append(("memcpy", d, (s_, n)))
        for c, v in zip(D, vals):
            q.mem[c] = v
        return [(q, d)]

    def word(self, q, cell):
        """content of a word cell; an object that was copied as a whole passes its words on"""
        if cell in q.mem:
            return q.mem[cell]
        if len(cell) > 2 and cell[-2] == "byte" and isinstance(cell[-1], int):
            w = q.mem.get(cell[:-2] + (cell[-1] // 8,))
            if w is not None:
                return ("byteof", w, cell[-1] % 8)
        for j in range(len(cell) - 1, 0, -1):
            pre = cell[:j]
            if pre in q.mem:
                x = q.mem[pre]
                if isinstance(x, tuple) and x[0] == "w":
                    return ("w", x[1] + cell[j:])
                return ("at", x, cell[j:])
        return ("w", cell)

    def load(self, p, c):
        return self.word(p, c)

    def fill(self, q, d, v, n):
        q = q.copy()
        if isinstance(n, int) and n % 8 == 0:
            D = self.words_of(q, d, n // 8)
            if D is not None:
                for c in D:
                    q.mem[c] = 0 if v == 0 else ("fill", v)
                return [(q, d)]
        q.odd.append(("memset", d, n))
        return [(q, d)]

    def ranges(self, q, s, vs, r):
        def ptr(x):
            return x if isinstance(x, tuple) and x[0] == "ptr" else ("ptr", x[1]) if isinstance(x, tuple) and x[0] == "ref" else None

        def span(a, b):
            a, b = ptr(a), ptr(b)
            if a is None or b is None:
                return None
            ca, cb = a[1], b[1]
            ca = ca if isinstance(ca[-1], int) else ca + (0,)
            cb = cb if isinstance(cb[-1], int) else cb + (0,)
            if ca[:-1] != cb[:-1]:
                return None
            return [ca[:-1] + (i,) for i in range(ca[-1], cb[-1])]
        if s == "copy" and len(vs) == 3:
            S = span(r[0] if not isinstance(vs[0], tuple) or vs[0][0] != "ref" or vs[0][1] in q.mem else vs[0],
                     r[1] if not isinstance(vs[1], tuple) or vs[1][0] != "ref" or vs[1][1] in q.mem else vs[1])
            d = ptr(vs[2])
            if S is None or d is None:
                return None
            D = self.words_of(q, d, len(S))
        elif s == "copy_n" and len(vs) == 3 and isinstance(r[1], int):
            a, d = ptr(vs[0]), ptr(vs[2])
            if a is None or d is None:
                return None
            S, D = self.words_of(q, a, r[1]), self.words_of(q, d, r[1])
        elif s in ("fill", "fill_n"):
            D = span(vs[0], vs[1]) if s == "fill" else self.words_of(q, ptr(vs[0]), r[1]) if isinstance(r[1], int) and ptr(vs[0]) else None
            if D is None:
                return None
            q = q.copy()
            for c in D:
                q.mem[c] = r[2]
            return [(q, UNK)]
        elif s == "equal" and len(vs) in (3, 4):
            S = span(vs[0], vs[1])
            b = ptr(vs[2])
            if S is None or b is None:
                return None
            B = self.words_of(q, b, len(S))
            return self.lex(q, "==", [self.load(q, x) for x in S], [self.load(q, x) for x in B])
        elif s == "lexicographical_compare" and len(vs) == 4:
            S, B = span(vs[0], vs[1]), span(vs[2], vs[3])
            if S is None or B is None:
                return None
            return self.lex(q, "<", [self.load(q, x) for x in S], [self.load(q, x) for x in B])
        else:
            return None
        q = q.copy()
        vals = [self.load(q, x) for x in S]
        for c, v in zip(D, vals):
            q.mem[c] = v
        return [(q, UNK)]

    def lex(self, q, op, A, B):
        out = []
        todo = [(q, 0)]
        while todo:
            q, i = todo.pop()
            if i >= len(A) or i >= len(B):
                r = "eq" if len(A) == len(B) else "lt" if len(A) < len(B) else "gt"
                out.append((q, r))
                continue
            for q2, r in self.order(q, A[i], B[i]):
                if r == "eq":
                    todo.append((q2, i + 1))
                else:
                    out.append((q2, r))
        return [(q, 1 if {"==": r == "eq", "!=": r != "eq", "<": r == "lt", ">": r == "gt", "<=": r != "gt",
                          ">=": r != "lt"}[op] else 0) for q, r in out]


CHECKS = {"Check_EQImpl": "==", "Check_NEImpl": "!=", "Check_LTImpl": "<", "Check_LEImpl": "<=", "Check_GTImpl": ">",
          "Check_GEImpl": ">="}
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq"}


def scalar_like(t):
    t = t.replace("const ", "").strip()
    return t.endswith("*") or t in ("bool", "int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char",
                                    "unsigned char", "float", "double", "size_t", "uint64_t", "int64_t", "long long",
                                    "unsigned long long")


def arith(o, x, y):
    try:
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: int(x / y) if y else UNK,
                "%": lambda: x % y if y else UNK, "<<": lambda: (x << y) & (2 ** 64 - 1), ">>": lambda: x >> y, "&": lambda: x & y,
                "|": lambda: x | y, "^": lambda: x ^ y}[o]()
    except KeyError:
        return UNK
