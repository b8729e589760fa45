"""Normal forms of closed-form expressions: rational functions over roots, arc tangents, sines and cosines of angles.

A term is a number, ("op", o, a, b), ("op", "neg", a), ("call", f, obj, (args)) or an atom (anything else). Two terms are equal when the
numerator of their difference reduces to zero modulo R^2 = argument (roots) and S^2 + C^2 = 1 (angles). A difference that does not vanish at
chosen values of its symbols is refuted without that normal form; nothing of the program is run."""
import random
import signal
import sys
from fractions import Fraction

for _d in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _d not in sys.path:
        sys.path.append(_d)


class Unknown(Exception):
    pass


class Late(BaseException):
    """a normal form takes too long"""


def within(seconds, f, *a):
    """f(*a), or None when it takes longer"""
    def late(sig, frame):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*a)
    except Late:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Algebra:
    LIMIT = 5

    def __init__(self):
        import sympy
        self.sp = sympy
        self.atoms = {}       # atom -> symbol
        self.roots = []       # (canonical argument, symbol)
        self.atans = []
        self.signs = []
        self.arcs = []
        self.renames = []
        self.angles = {}      # symbol part of the argument -> (denominator, S, C)
        self.memo = {}
        self.known = {}
        self.n = 0

    def sym(self, a):
        if a not in self.atoms:
            self.atoms[a] = self.sp.Symbol("v%d" % len(self.atoms), real=True)
        return self.atoms[a]

    def fresh(self, k):
        self.n += 1
        return self.sp.Symbol("%s%d" % (k, self.n), real=True)

    # ---- terms
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._of(t)
        self.memo[t] = r
        return r

    def _of(self, t):
        sp = self.sp
        if isinstance(t, bool):
            return sp.Integer(int(t))
        if isinstance(t, int):
            return sp.Integer(t)
        if isinstance(t, Fraction):
            return sp.Rational(t.numerator, t.denominator)
        if not isinstance(t, tuple) or not t or t[0] in ("?", "ref", "ptr", "new", "list", "snap"):
            raise Unknown(t)
        if t[0] == "op":
            o = t[1]
            if o == "neg":
                return -self.of(t[2])
            if o in ("+", "-", "*", "/") and len(t) == 4:
                a, b = self.of(t[2]), self.of(t[3])
                if o == "/" and b == 0:
                    raise Unknown(t)
                return a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b
            raise Unknown(t)
        if t[0] == "call":
            f = t[1].split("::")[-1].split("<")[0]
            a = t[3]
            if f in ("sqrt", "tan", "atan", "sin", "cos", "pow", "sqrtf"):
                x = self.of(a[0])
                if f == "sqrt":
                    return self.root(x)
                if f == "atan":
                    return self.atan(x)
                if f == "pow":
                    e = self.of(a[1])
                    if e.is_Integer:
                        return x ** e
                    if (2 * e).is_Integer:
                        return self.root(x) ** (2 * e)
                    raise Unknown(t)
                return self.trig(f, x)
            if f in ("asin", "acos", "atan2"):
                return self.arc(f, [self.of(x) for x in a])
            if f in ("abs", "fabs"):
                return self.sym(("abs", self.of(a[0])))
            raise Unknown(t)
        return self.sym(t)

    def canon(self, x):
        if x not in self.known:
            r = within(self.LIMIT, lambda: self.sp.cancel(self.reduce(self.sp.together(x))))
            self.known[x] = x if r is None else r
        return self.known[x]

    def root(self, x):
        sp = self.sp
        c = self.canon(x)
        for y, s in self.roots:
            if y == c:
                return s
        if c.is_number:
            return self.sp.sqrt(c)
        out, rest = sp.Integer(1), sp.Integer(1)
        num, den = sp.fraction(c)
        for part, up in ((num, True), (den, False)):
            k, fs = sp.factor_list(part)
            if not k.is_number or k < 0:
                fs, k = [(part, 1)], sp.Integer(1)
            rest = rest * k if up else rest / k
            for g, e in fs:
                out = out * g ** (e // 2) if up else out / g ** (e // 2)
                if e % 2:
                    rest = rest * g if up else rest / g
        if out != 1:
            # sqrt(z^2 a) = |z| sqrt(a): the sign of z is a symbol whose square is 1
            sg = self.fresh("g")
            self.signs.append(sg)
            s = out * sg * (sp.Integer(1) if rest == 1 else self.root(rest))
            self.roots.append((c, s))
            return s
        s = self.fresh("r")
        self.roots.append((c, s))
        return s

    def atan(self, x):
        c = self.canon(x)
        for y, s in self.atans:
            if y == c:
                return s
            if y == self.sp.cancel(-c):
                return -s
        if c == 0:
            return c
        s = self.fresh("a")
        self.atans.append((c, s))
        return s

    def arc(self, f, xs):
        """the angle whose sine (cosine, direction) is given"""
        key = (f,) + tuple(self.canon(x) for x in xs)
        for k, s in self.arcs:
            if k == key:
                return s
        s = self.fresh("b")
        self.arcs.append((key, s))
        return s

    def of_arc(self, f, x):
        for (k, *c), s in self.arcs:
            if x != s and x != -s:
                continue
            one = self.sp.Integer(1)
            if k == "asin":
                si, co = c[0], self.root(one - c[0] ** 2)
            elif k == "acos":
                si, co = self.root(one - c[0] ** 2), c[0]
            else:
                r = self.root(c[0] ** 2 + c[1] ** 2)
                si, co = c[0] / r, c[1] / r
            if x == -s:
                si = -si
            return si if f == "sin" else co if f == "cos" else si / co
        return None

    def trig(self, f, x):
        """in terms of sine and cosine of half the angle's symbolic part"""
        sp = self.sp
        x = sp.cancel(self.reduce(x))
        for g in self.signs:
            if x.has(g) and sp.cancel(x / g).has(g) is False:
                r = self.trig(f, sp.cancel(x / g))
                return r if f == "cos" else g * r
        if x == 0:
            return sp.Integer(1 if f == "cos" else 0)
        r = self.of_arc(f, x)
        if r is not None:
            return r
        for y, s in self.atans:
            # tan(atan(y)) = y
            if f == "tan" and x == s:
                return y
        k, rest = x.as_coeff_Mul()
        k = sp.Rational(k)
        d, S, C = self.angles.get(rest, (None, None, None))
        if d is None:
            d = 2 * k.q if k.q == 1 else k.q
            S, C = self.fresh("s"), self.fresh("c")
            self.angles[rest] = (d, S, C)
        m = k * d
        if not m.is_Integer:
            # a finer unit: the coarser sine and cosine are written with it
            if k.q > 16:
                raise Unknown(("angle", x))
            e = m.q
            S2, C2 = self.fresh("s"), self.fresh("c")
            s, c = self.multiple(S2, C2, e)
            self.renames += [(S, s), (C, c)]
            d, S, C = d * e, S2, C2
            self.angles[rest] = (d, S, C)
            m = k * d
        s, c = self.multiple(S, C, int(m))
        return s if f == "sin" else c if f == "cos" else s / c

    def multiple(self, S, C, m):
        """sine and cosine of m times the angle"""
        sp = self.sp
        s, c = sp.Integer(0), sp.Integer(1)
        for _ in range(abs(m)):
            s, c = s * C + c * S, c * C - s * S
        return sp.expand(-s if m < 0 else s), sp.expand(c)

    def named(self, e):
        for a, b in self.renames:
            if e.has(a):
                e = e.subs(a, b)
        return e

    # ---- equality
    def reduce(self, e):
        """numerator and denominator modulo the relations"""
        n, d = self.sp.fraction(self.sp.together(e))
        return self.low(n) / self.low(d)

    def low(self, n):
        sp = self.sp
        n = sp.expand(n)
        for _ in range(4):
            old = n
            n = sp.expand(self.named(n)) if self.renames else n
            for c, s in reversed(self.roots):
                if s.is_Symbol and n.has(s):
                    n = self.fold(n, s, c)
            for g in self.signs:
                if n.has(g):
                    n = self.fold(n, g, sp.Integer(1))
            for d, S, C in self.angles.values():
                if n.has(S):
                    n = self.fold(n, S, 1 - C ** 2)
            if n == old:
                break
        return n

    def fold(self, n, s, sq):
        """replace s^2 by sq"""
        sp = self.sp
        p = sp.Poly(n, s)
        out = sp.Integer(0)
        for (k,), c in p.terms():
            out += c * sq ** (k // 2) * s ** (k % 2)
        num, den = sp.fraction(sp.together(out))
        return sp.expand(num) if den == 1 or den.is_number else sp.expand(num)

    def zero(self, e):
        """first the formula's value at a point of the variety the relations define (not zero: refuted), then its normal form"""
        vals = [self.at_point(e, k) for k in (1, 2)]
        if any(v is False for v in vals):
            return False
        exact = within(self.LIMIT, lambda: self.low(self.sp.fraction(self.sp.together(e))[0]) == 0)
        return exact if exact is not None and None in vals else True

    def positive(self, e):
        """at the chosen points (all symbols positive); None: not known"""
        vs = [self.at_point(e, k, True) for k in (1, 2)]
        return None if None in vs else all(v > 0 for v in vs)

    def at_point(self, e, k, value=False):
        """does e vanish at the k-th chosen point; None: not known"""
        import mpmath
        sp = self.sp
        with mpmath.workdps(60):
            memo, size = {}, {}
            roots = {s: c for c, s in self.roots if s.is_Symbol}
            ren = dict(self.renames)
            sines = {S: 0 for d, S, C in self.angles.values()}
            cosines = {C: S for d, S, C in self.angles.values()}

            def val(x):
                if x in memo:
                    return memo[x]
                big = mpmath.mpf(0)
                if x.is_Symbol:
                    if x in ren:
                        v = val(ren[x])
                    elif x in roots:
                        v = mpmath.sqrt(val(roots[x]))
                    elif x in self.signs:
                        v = mpmath.mpf(1)
                    elif x in cosines:
                        v = mpmath.sqrt(1 - val(cosines[x]) ** 2)
                    else:
                        r = random.Random("%s/%d" % (x.name, k))
                        v = mpmath.mpf(r.randrange(1000, 9000)) / (10007 if x in sines else 5003)
                elif x.is_Rational:
                    v = mpmath.mpf(x.p) / x.q
                elif x.is_Add:
                    t = [val(a) for a in x.args]
                    v = mpmath.fsum(t)
                    big = max(abs(a) for a in t)
                elif x.is_Mul:
                    v = mpmath.mpf(1)
                    for a in x.args:
                        v = v * val(a)
                elif x.is_Pow and x.exp.is_Integer:
                    v = val(x.base) ** int(x.exp)
                elif x.is_Pow and x.exp.is_Rational:
                    v = val(x.base) ** (mpmath.mpf(x.exp.p) / x.exp.q)
                else:
                    raise Unknown(x)
                size[x] = max([abs(v), big] + [size.get(a, 0) for a in x.args])
                memo[x] = v
                return v
            try:
                if value:
                    v = val(e)
                    return v.real if isinstance(v, mpmath.mpc) else v
                return bool(abs(val(e)) <= mpmath.mpf(10) ** -35 * max(1, size[e]))
            except (Unknown, ZeroDivisionError, OverflowError):
                return None

    def equal(self, a, b):
        return self.zero(a - b)

    # ---- derivatives
    def diff(self, e, v):
        sp = self.sp
        e = self.named(e)
        out = sp.diff(e, v)
        for c, s in reversed(self.roots):
            if s.is_Symbol and e.has(s):
                out += sp.diff(e, s) * self.diff(c, v) / (2 * s)
        for c, s in self.atans:
            if e.has(s):
                out += sp.diff(e, s) * self.diff(c, v) / (1 + c ** 2)
        for rest, (d, S, C) in self.angles.items():
            if e.has(S) or e.has(C):
                da = self.diff(rest, v) / d
                out += sp.diff(e, S) * C * da - sp.diff(e, C) * S * da
        return out
