"""Canonical forms: real-arithmetic normal form (polynomials over atoms with
rational exponents), ordered decision trees for conditions, folds for loops.
Floating-point rounding and NaN are ignored here on purpose: two expressions with
the same normal form are the same formula."""
import math
from fractions import Fraction as Fr
from .terms import T, TRUE, FALSE, BOT, const, isconst, subterms, show
from .interp import truth, mk_ite, GCONST, TABLES
from .effects import modfields, lenrep

NUM = (int, float)


def isnum(t):
    return t.op == "const" and isinstance(t.args[0], NUM) and not isinstance(t.args[0], bool)


class Poly:
    """sum of coef * prod(atom^exp); atoms are T, exponents Fractions"""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def c(v):
        return Poly({(): Fr(v).limit_denominator(10**15) if isinstance(v, float) else Fr(v)})

    @staticmethod
    def a(t, e=Fr(1)):
        return Poly({((t, Fr(e)),): Fr(1)})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def scale(self, f):
        return Poly({k: v * f for k, v in self.m.items()})

    def __sub__(self, o):
        return self + o.scale(Fr(-1))

    def mono(self):
        return len(self.m) == 1

    def __mul__(self, o):
        r = Poly()
        acc = {}
        fix = False
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                d = dict(k1)
                for a, e in k2:
                    d[a] = d.get(a, Fr(0)) + e
                    if d[a] == 0:
                        del d[a]
                for a, e in d.items():
                    if a.op == "poly" and (e >= 1):
                        fix = True
                f = 1
                for a in [a for a in d if a.op == "num"]:
                    # roots of primes: exponents between 0 and 1
                    w = d[a].numerator // d[a].denominator
                    if w:
                        f *= a.args[0] ** w
                        d[a] -= w
                        if d[a] == 0:
                            del d[a]
                k = tuple(sorted(d.items(), key=lambda x: x[0].uid))
                acc[k] = acc.get(k, 0) + v1 * v2 * f
        r = Poly(acc)
        if fix:
            r = r.expand()
        return r

    def expand(self):
        """replace poly atoms with exponent >= 1 by their expansion"""
        out = Poly()
        for k, v in self.m.items():
            p = Poly({(): v})
            rest = []
            for a, e in k:
                if a.op == "poly" and e >= 1:
                    n = int(e)
                    P = unpoly(a)
                    for _ in range(n):
                        p = p * P
                    if e - n:
                        rest.append((a, e - n))
                else:
                    rest.append((a, e))
            out = out + p.mulmono(tuple(rest))
        return out

    def mulmono(self, k):
        if not k:
            return self
        return self * Poly({tuple(sorted(k, key=lambda x: x[0].uid)): Fr(1)})

    def key(self):
        return tuple(sorted(((tuple((a, e) for a, e in k), v) for k, v in self.m.items()), key=lambda kv: tuple((a.uid, e) for a, e in kv[0])))

    def lead(self):
        return self.key()[0][1]

    def norm(self):
        """what to divide by for coefficients without a common factor: its size does not depend on the order of terms"""
        vs = [abs(v) for v in self.m.values()]
        n = d = 0
        for v in vs:
            n = math.gcd(n, v.numerator)
        d = math.lcm(*[v.denominator for v in vs])
        return Fr(n, d) * (-1 if self.lead() < 0 else 1)

    def zero(self):
        return not self.m

    def constv(self):
        if not self.m:
            return Fr(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atoms(self):
        return {a for k in self.m for a, e in k}

    def pow(self, e):
        e = Fr(e)
        if e == 0:
            return Poly.c(1)
        if self.mono():
            (k, v), = self.m.items()
            nk = []
            for a, x in k:
                # sqrt of an even power is an absolute value
                if (x * e).denominator > 0 and x.denominator == 1 and x % 2 == 0 and (x * e).denominator == 1 and (x * e) % 2 == 1 and e < 1 and e > 0 and a.op != "poly" and not nonneg(a):
                    nk.append((T("abs", a), x * e))
                else:
                    nk.append((a, x * e))
            if e.denominator == 1:
                c = v ** int(e)
                cp = Poly({(): c})
            elif v < 0:
                # the root of something with a minus sign
                at = T("poly", self.scale(1 / abs(v)).key())
                return numroot(abs(v), e) * Poly({((at, e),): Fr(1)})
            else:
                cp = numroot(v, e)
            return cp.mulmono(tuple(nk)) if nk else cp
        if e.denominator == 1 and e > 0:
            r = Poly.c(1)
            for _ in range(int(e)):
                r = r * self
            return r
        if not self.m:
            return Poly.a(T("pow0"), 1)
        # normalise leading coefficient
        l = self.norm()
        f = l if e.denominator == 1 else abs(l)
        P = self.scale(1 / f)
        # common monomial factor
        at = T("poly", P.key())
        c = Poly.c(f).pow(e) if f != 1 else Poly.c(1)
        r = Poly({((at, e),): Fr(1)})
        return (c * r)

    def term(self):
        """canonical term"""
        if not self.m:
            return const(0)
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if not k:
                return const(int(v) if v.denominator == 1 else float(v))
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return T("P", self.key())


def numroot(v, e):
    """v to the power e for a positive fraction v, by its prime factors"""
    r = Poly.c(1)
    for n, sg in ((v.numerator, 1), (v.denominator, -1)):
        f = 2
        while f * f <= n and f < 2000:
            while n % f == 0:
                r = r * Poly({((T("num", Fr(f)), e * sg),): Fr(1)})
                n //= f
            f += 1
        if n != 1:
            r = r * Poly({((T("num", Fr(n)), e * sg),): Fr(1)})
    return r


def nonneg(a):
    return a.op in ("abs",)


def unpoly(a):
    return Poly({tuple(k): v for k, v in a.args[0]})


def to_poly(t):
    if t.op == "P":
        return Poly({tuple(k): v for k, v in t.args[0]})
    if isnum(t):
        return Poly.c(t.args[0])
    if isconst(t) and isinstance(t.args[0], bool):
        return Poly.c(int(t.args[0]))
    return Poly.a(t)


def clear(p):
    """multiply out denominators; result is zero iff p is"""
    for _ in range(30):
        den = {}
        for k in p.m:
            for a, e in k:
                if e < 0:
                    den[a] = min(den.get(a, 0), e)
        if not den:
            # sqrt atoms: rationalise exponents of monomials only
            return p
        a, e = next(iter(sorted(den.items(), key=lambda x: x[0].uid)))
        n = -e
        # exponent may be fractional: multiply by a^n
        if a.op == "poly":
            q = Poly()
            P = unpoly(a)
            for k, v in p.m.items():
                d = dict(k)
                x = d.pop(a, Fr(0)) + n
                mono = Poly({tuple(sorted(d.items(), key=lambda z: z[0].uid)): v})
                whole = int(x)
                fracp = x - whole
                for _ in range(whole):
                    mono = mono * P
                if fracp:
                    mono = mono.mulmono(((a, fracp),))
                q = q + mono
            p = q
        else:
            p = p * Poly({((a, n),): Fr(1)})
    return p


def filled(b):
    """value of all elements of a vector constructed as n copies"""
    if b.op == "new" and len(b.args) >= 3 and b.args[0] == "std::vector" and isinstance(b.args[2], T):
        n, v = b.args[1], b.args[2]
        if isinstance(n, T) and not (n.op == "call" and n.args[0] in ("begin", "cbegin")) and (isnum(v) or v.op in ("vec", "P", "var")):
            return v
    return None


def rsub(t, m):
    """substitute and rebuild the canonical form"""
    memo = dict(m)
    C = Canon()

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op == "P":
            p = Poly()
            for k, v in x.args[0]:
                q = Poly({(): v})
                for a, e in k:
                    if a.op == "poly":
                        z = go(a)
                        q = q * (unpoly(z) if z.op == "poly" else to_poly(z)).pow(e)
                    else:
                        q = q * to_poly(go(a)).pow(e)
                p = p + q
            r = p.term()
        elif op == "poly":
            p = to_poly(go(T("P", x.args[0])))
            r = T("poly", p.key())
        else:
            na = tuple(go(y) for y in x.args)
            if na == x.args:
                r = x
            elif op == "ite":
                r = C.ite(*na)
            elif op == "neg0":
                r = C.lift2(na[0], const(0), C.lt)
            elif op == "zero":
                r = C.lift2(na[0], const(0), C.eq)
            elif op == "eq":
                r = C.lift2(na[0], na[1], C.eq)
            elif op == "idx":
                r = C.idx(*na)
            elif op == "fld":
                r = C.fld(*na)
            elif op == "agg":
                r = C.agg(*na)
            elif op == "elem" and len(na) == 1:
                r = C.elem(na[0])
            elif op == "call" and na[0] == "size":
                r = C.size(na[1])
            elif op == "call" and na[0] == "has_value":
                r = C.has_value(na[1])
            else:
                r = T(op, *na)
        memo[x] = r
        return r
    return go(t)


FUNS = {"sqrt": Fr(1, 2), "std::sqrt": Fr(1, 2), "sqrtf": Fr(1, 2)}


class Canon:
    def __init__(self, I=None, rename=None, maxleaves=256):
        self.I = I
        self.memo = {}
        self.rename = rename or {}
        self.loopdepth = {}
        self.maxleaves = maxleaves
        self.pos = {}
        self.inprog = set()
        self.open = frozenset()   # loop headers seen as one arbitrary iteration

    def child(self):
        r = Canon(self.I, dict(self.rename), self.maxleaves)
        r.open = self.open
        r.pos = dict(self.pos)
        r.inprog = set(self.inprog)
        return r

    # public ---------------------------------------------------------------
    def __call__(self, t):
        return self.c(t)

    def c(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.c(x) for x in t)
            return t
        if t in self.memo:
            return self.memo[t]
        if t in self.rename:
            r = self.rename[t]
        else:
            r = self.c1(t)
        self.memo[t] = r
        return r

    def c1(self, t):
        op, a = t.op, t.args
        if op in ("const", "enum", "this", "P", "poly", "void"):
            return t
        if op == "gconst":
            return T("named", a[0])
        if op == "glob" and t in GCONST:
            return T("named", a[0])
        if op == "bin":
            o = a[0]
            x, y = self.c(a[1]), self.c(a[2])
            if o in ("+", "-", "*", "/"):
                return self.lift2(x, y, lambda p, q: self.arith(o, p, q))
            if o in ("<", ">", "<=", ">="):
                if o in (">", ">="):
                    x, y = y, x
                if o in ("<", ">"):
                    return self.lift2(x, y, self.lt)
                return self.lift2(x, y, lambda p, q: self.cond_not(self.lt(q, p)))
            if o in ("==", "!="):
                r = self.lift2(x, y, self.eq)
                return r if o == "==" else self.cond_not(r)
            return T("bin", o, x, y)
        if op == "un":
            x = self.c(a[1])
            if a[0] == "!":
                return self.cond_not(x)
            if a[0] == "-":
                return self.lift1(x, lambda p: to_poly(p).scale(Fr(-1)).term())
            return T("un", a[0], x)
        if op == "ite":
            return self.ite(self.c(a[0]), self.c(a[1]), self.c(a[2]))
        if op == "call":
            n = a[0]
            if n.endswith("distribution::operator()") and len(a) >= 3 and a[-1].op == "at":
                # a fresh random number: identified by the place it is drawn
                d = self.c(a[1])
                if n == "std::uniform_real_distribution::operator()" and d.op == "new":
                    x = to_poly(T("xi", a[-1]))
                    if len(d.args) == 1:
                        return x.term()
                    lo = to_poly(d.args[1])
                    hi = to_poly(d.args[2]) if len(d.args) > 2 else Poly.c(1)
                    return (lo + (hi - lo) * x).term()
                if n == "std::exponential_distribution::operator()" and d.op == "new":
                    rate = to_poly(d.args[1]) if len(d.args) > 1 else Poly.c(1)
                    return (Poly.a(T("xe", a[-1])) * rate.pow(-1)).term()
                return T("draw", n, d, a[-1])
            xs = [self.c(x) for x in a[1:]]
            if n == "size" and len(xs) == 1:
                return self.size(xs[0])
            if n == "has_value" and len(xs) == 1:
                return self.has_value(xs[0])
            if len(xs) == 2 and xs[0] in TABLES and n in ("std::map::count", "std::unordered_map::count", "std::map::contains", "std::unordered_map::contains"):
                x = self.among(*xs)
                return x if n.endswith("contains") else self.ite(x, const(1), const(0))
            if n in QUANT and len(xs) == 3 and xs[2].op == "pred" and xs[0].op == "call" and xs[0].args[0] == "begin" and xs[1] is T("call", "end", xs[0].args[1]):
                c, r = xs[0].args[1], xs[2].args[1]
                if n == "std::any_of":
                    return self.exists(c, r)
                if n == "std::all_of":
                    return self.cond_not(self.exists(c, self.cond_not(r)))
                if n == "std::none_of":
                    return self.cond_not(self.exists(c, r))
                if n == "std::find_if":
                    return T("firstit", c, r)
                if n == "std::find_if_not":
                    return T("firstit", c, self.cond_not(r))
                if n == "std::count_if":
                    return T("count", c, r)
                if n in ("std::min_element", "std::max_element"):
                    k = self.order_key(c, r)
                    if k is not None:
                        if n == "std::max_element":
                            k = to_poly(k).scale(Fr(-1)).term()
                        return T("argminit", c, k)
            if n == "std::find" and len(xs) == 3 and xs[0].op == "call" and xs[0].args[0] == "begin" and xs[1] is T("call", "end", xs[0].args[1]):
                return T("firstit", xs[0].args[1], self.eq(T("elem", xs[0].args[1]), xs[2]))
            if n in FUNS and len(xs) == 1:
                return self.lift1(xs[0], lambda p: to_poly(p).pow(FUNS[n]).term())
            if n in ("pow", "std::pow") and len(xs) == 2 and isnum(xs[1]):
                return self.lift1(xs[0], lambda p: to_poly(p).pow(Fr(xs[1].args[0]).limit_denominator(1000)).term())
            if n in ("std::abs", "fabs", "abs", "std::fabs") and len(xs) == 1:
                def ab(p):
                    P = to_poly(p)
                    if not P.m:
                        return const(0)
                    if P.lead() < 0:
                        P = P.scale(Fr(-1))
                    c = P.constv()
                    if c is not None:
                        return const(abs(float(c)))
                    return T("abs", P.term())
                return self.lift1(xs[0], ab)
            if n in ("std::min", "std::max", "fmin", "fmax") and len(xs) == 2:
                return T("call", n, *sorted(xs, key=lambda z: z.uid))
            if n.startswith("std::numeric_limits"):
                return T("call", n)
            return T("call", n.split("::")[-1] if n.startswith("std::") and n.split("::")[-1] in ("exp", "log", "sin", "cos", "erf", "floor", "ceil") else n, *xs)
        if op == "loopphi":
            return self.loop(t)
        if op == "lexit":
            return self.lexit(t)
        if op == "fold":
            return self.c(a[0])
        if op == "phi":
            if t in self.inprog:
                return T("rec")
            self.inprog.add(t)
            try:
                ins = self.I.phi.get(t) if self.I else None
                if ins:
                    vs = sorted({self.c(v) for p, v in ins}, key=lambda z: z.uid)
                    if len(vs) == 1:
                        return vs[0]
                    return T("phi*", *vs)
            finally:
                self.inprog.discard(t)
            return t
        if op == "deref":
            x = self.c(a[0])
            if x.op == "addr":
                return x.args[0]
            if x.op == "firstit":
                return T("first", *x.args)
            if x.op == "argminit":
                return T("argmin", *x.args)
            if a[0] in self.pos and self.pos[a[0]][1] is not None:
                return self.idx(self.c(self.pos[a[0]][1]), self.pos[a[0]][0])
            e = self.elem_from_iter(x)
            return e if e is not None else T("deref", x)
        if op == "idx" and a[0] in TABLES:
            return self.entry(a[0], self.c(a[1]))
        if op == "idx":
            b = self.c(a[0])
            if a[1] in self.pos:
                return self.idx(b, self.pos[a[1]][0])
            k = self.c(a[1]) if isinstance(a[1], T) else a[1]
            return self.idx(b, k)
        if op == "elem":
            b = self.c(a[0])
            if b.op == "range":
                b2 = self.strip_begin(b.args[0])
                b = b2 if b2 is not None else b
            if len(a) > 1 and a[1] in self.pos:
                return self.idx(b, self.pos[a[1]][0])
            if len(a) > 1 and isinstance(a[1], T) and a[1].op == "it2":
                return T("elem2", b)
            if len(a) > 1 and isinstance(a[1], T) and a[1].op == "loopphi":
                v = self.c(a[1])
                if v.op == "iterator":
                    return self.elem(b)
                return T("deref", v)
            return self.elem(b)
        if op == "mapped":
            if a[3] and not any(p[:1] in (("first",), ("second",)) for p, w in a[2]):
                return self.elementwise(a)
            base = self.c(a[0])
            return T("map" if a[3] else "map?", base, tuple((tuple(self.c(y) if isinstance(y, T) else y for y in p), self.c(w)) for p, w in a[2]))
        if op == "at_place":
            return self.c(a[0])
        if op in ("at",):
            return t
        if op == "agg":
            base = self.c(a[0])
            return self.agg(base, tuple((tuple(self.c(y) if isinstance(y, T) else y for y in p), self.c(v)) for p, v in a[1]))
        if op == "fld":
            x = self.c(a[0])
            if x.op == "deref" and self.lookup(x.args[0]) and a[1] in ("first", "second"):
                m, k = x.args[0].args[1:]
                return k if a[1] == "first" else self.entry(m, k)
            return self.fld(x, a[1])
        return T(op, *[self.c(x) if isinstance(x, (T, tuple)) else x for x in a])

    def fld(self, b, f):
        if b.op == "ite":
            return self.mk(b.args[0], self.fld(b.args[1], f), self.fld(b.args[2], f))
        if b.op == "lexit" and f == "$val":
            v, n = self.fld(b.args[2], f), self.fld(b.args[3], f)
            return v if n is BOT else T("lexit", b.args[0], b.args[1], v, n)
        if b is BOT or b.op == "none" and f == "$val":
            return BOT
        if b.op == "some" and f == "$val":
            return b.args[0]
        if b.op == "agg":
            sub = []
            for p, w in b.args[1]:
                if p == (f,):
                    return w
                if p[0] == f:
                    sub.append((p[1:], w))
            base = self.fld(b.args[0], f)
            return self.agg(base, tuple(sub)) if sub else base
        if b.op == "now":
            return T("now", T("fld", b.args[0], f))
        if b.op == "after" and self.I is not None and not f.startswith("$"):
            ms = modfields(self.I.P, b.args[0])
            if ms is not None and f not in ms:
                return self.fld(b.args[1], f)
        if b.op in ("loop", "loopx") and not f.startswith("$"):
            # a member no iteration changes
            own = T("fld", T("acc"), f)
            if all(self.fld(x, f) is own for x in b.args[1:]):
                return self.fld(b.args[0], f)
        return T("fld", b, f)

    def agg(self, base, sub):
        def same_(p, w):
            b = base
            for f in p:
                b = self.fld(b, f)
            return w is b
        if not any(len(p) > 1 for p, w in sub) or base.op == "now":
            sub = tuple((p, w) for p, w in sub if not same_(p, w))
            if not sub:
                return base
        if base.op == "agg" and not any(len(p) > 1 for p, w in base.args[1] + sub):
            d = dict(base.args[1])
            d.update(dict(sub))
            return T("agg", base.args[0], tuple(sorted(d.items(), key=lambda x: str(x[0]))))
        return T("agg", base, sub)

    # vectors known element by element ---------------------------------------
    def idx(self, b, k):
        if b.op == "vec":
            return rsub(b.args[1], {b.args[2]: k})
        if isinstance(k, T) and k.op == "iter" and (k.args[0] is b or k.args[0] is self.rep(b)):
            return self.elem(b)
        if filled(b) is not None:
            return filled(b)
        if b is BOT:
            return BOT
        if b.op == "ite" and (k.op == "pos" or any(x.op == "vec" or filled(x) is not None for x in b.args[1:])):
            return self.mk(b.args[0], self.idx(b.args[1], k), self.idx(b.args[2], k))
        return T("idx", b, k)

    def elem(self, b):
        if filled(b) is not None:
            return filled(b)
        if b.op == "vec" and not has(b.args[1], b.args[2]):
            return b.args[1]
        return T("elem", b)

    def has_value(self, x):
        def known(y):
            return y.op in ("some", "none") or y.op == "ite" and known(y.args[1]) and known(y.args[2])

        def go(y):
            return const(y.op == "some") if y.op != "ite" else self.ite(y.args[0], go(y.args[1]), go(y.args[2]))
        return go(x) if known(x) else T("call", "has_value", x)

    def size(self, b):
        if b.op == "vec":
            return b.args[0]
        if filled(b) is not None:
            return b.args[1]
        return T("call", "size", self.rep(b))

    def rep(self, b):
        return lenrep(self.I.P, b) if self.I is not None else b

    def vec(self, size, v, tmp):
        """vector of the given size whose element at position tmp is v"""
        h = 1 + max([x.args[0] for x in subterms(v) if x.op == "pos" and isinstance(x.args[0], int)] + [0])
        p = T("pos", h)
        return T("vec", size, rsub(v, {tmp: p}), p)

    def elementwise(self, a):
        base, own, changes, full = a
        tmp = T("pos", ("own", own.uid))
        b = self.c(base)
        sub = self.child()
        if own.op == "bin" or own.op == "loopphi" and self.I is not None and own in self.I.phi and isconst(self.I.phi[own][0]):
            sub.rename[own] = tmp
        sub.pos[own] = (tmp, None)
        new = []
        for p, w in changes:
            v = sub.c(w)
            if p == ():
                return self.vec(self.size(b), v, tmp)
            new.append((p, v))
        return self.vec(self.size(b), self.agg(self.idx(b, tmp), tuple(new)), tmp)

    def bounds(self, ph):
        """(first value, canonical number of iterations) of a variable that counts a loop's iterations, or
        (None, size) for an iterator over a whole container"""
        I = self.I
        init, backs = I.phi[ph]
        if len(backs) != 1 or not (backs[0].op == "bin" and backs[0].args[0] == "+" and set(backs[0].args[1:]) == {ph, const(1)}):
            return None
        cid, h = ph.args[0], ph.args[1]
        fr = I.frames.get(cid)
        cv = fr.conds.get(h) if fr and not isinstance(h, tuple) else None
        if cv is None or self.early_exit(ph):
            return None
        atom, pol = truth(cv)
        if atom.op != "bin" or ph not in atom.args[1:]:
            return None
        o = atom.args[2] if atom.args[1] is ph else atom.args[1]
        if any(x.op == "loopphi" and x.args[:2] == ph.args[:2] for x in subterms(o)):
            return None
        if init.op == "call" and init.args[0] == "begin":
            c = init.args[1]
            if atom.args[0] == "==" and not pol and o is T("call", "end", c):
                return None, self.size(self.c(c.args[0] if c.op == "at_place" else c)), c.args[0] if c.op == "at_place" else c
            return None
        if atom.args[0] == "==" and not pol or atom.args[0] == "<" and atom.args[1] is ph and pol:
            n = to_poly(self.c(o))
        elif atom.args[0] == "<" and atom.args[2] is ph and not pol:
            n = to_poly(self.c(o)) + Poly.c(1)
        else:
            return None
        return init, (n - to_poly(self.c(init))).term(), None

    def appended(self, ph, init, back):
        """vector filled by appending one element per iteration"""
        if not (init.op == "new" and init.args and init.args[0] == "std::vector" and all(isinstance(x, T) and x.op == "new" and str(x.args[0]).startswith("std::allocator") for x in init.args[1:])):
            return None
        if not (back.op == "upd" and back.args[0] in ("push_back", "emplace_back") and back.args[1] is ph and len(back.args) == 3):
            return None
        I = self.I
        tmp = T("pos", ("app", ph.uid))
        sub, n = self.child(), None
        for v in I.phi:
            if v.op == "loopphi" and v.args[:2] == ph.args[:2] and v is not ph:
                b = self.bounds(v)
                if b is None:
                    continue
                if n is not None and n is not b[1]:
                    return None
                n = b[1]
                if b[0] is None:
                    sub.pos[v] = (tmp, b[2])
                else:
                    sub.rename[v] = (to_poly(self.c(b[0])) + to_poly(tmp)).term()
        if n is None and isinstance(ph.args[1], tuple) and ph.args[1][0] == "alg":
            # a library algorithm that runs the closure for every element of a container
            ident = T("it", ph.args[0], ph.args[1][1])
            be = I.elemof.get(ident)
            c = I.full_of(*be) if be else ()
            if c:
                c = c[0].args[0] if c[0].op == "at_place" else c[0]
                n = self.size(self.c(c))
                sub.pos[ident] = (tmp, c)
        if n is None:
            return None
        sub.inprog.add(ph)
        v = sub.c(back.args[2])
        if has(v, T("acc")):
            from .spec import free_acc
            if free_acc(v):
                return None
        return self.vec(n, v, tmp)

    def strip_begin(self, t):
        if t.op == "call" and t.args[0] in ("begin", "rbegin") and len(t.args) == 2:
            return t.args[1]
        return None

    # loops -----------------------------------------------------------------
    def iterspace(self, ph):
        """container iterated by an iterator / index loop variable"""
        init, backs = self.I.phi[ph]
        if len(backs) != 1:
            return None
        b = backs[0]
        if not (b.op == "bin" and b.args[0] == "+" and ((b.args[1] is ph and isconst(b.args[2], 1)) or (b.args[2] is ph and isconst(b.args[1], 1)))):
            return None
        if init.op == "call" and init.args[0] == "begin":
            return ("it", init.args[1].args[0] if init.args[1].op == "at_place" else init.args[1])
        if isconst(init, 0):
            return ("ix", None)
        return None

    def countdown(self, ph):
        """a variable counted down to zero, seen as the initial value less the iterations done"""
        init, backs = self.I.phi[ph]
        if len(backs) != 1 or not (backs[0].op == "bin" and (backs[0].args[0] == "-" and backs[0].args[1] is ph and isconst(backs[0].args[2], 1)
                                                             or backs[0].args[0] == "+" and set(backs[0].args[1:]) == {ph, const(-1)})):
            return None
        fr = self.I.frames.get(ph.args[0])
        cv = fr.conds.get(ph.args[1]) if fr and not isinstance(ph.args[1], tuple) else None
        if cv is None:
            return None
        atom, pol = truth(cv)
        if not (atom.op == "bin" and ph in atom.args[1:] and const(0) in atom.args[1:]):
            return None
        if not (atom.args[0] == "==" and not pol or atom.args[0] == "<" and atom.args[2] is ph and pol):
            return None
        if any(x.op == "loopphi" and x.args[:2] == ph.args[:2] for x in subterms(init)):
            return None
        n = self.c(init)
        return (to_poly(n) - Poly.a(T("counter", n))).term()

    def loop(self, ph):
        I = self.I
        if I is None or ph not in I.phi:
            return ph
        if (ph.args[0], ph.args[1]) in self.open:
            # one arbitrary iteration: the value a place has when it starts
            return T("now", ph.args[2])
        if ph in self.inprog:
            return T("acc")
        sp = self.iterspace(ph)
        early = self.early_exit(ph)
        if sp:
            if sp[0] == "it":
                cid, b = ph.args[0], ph.args[1]
                fr = I.frames.get(cid)
                cv = fr.conds.get(b) if fr and not isinstance(b, tuple) else None
                if cv is not None:
                    atom, pol = truth(cv)
                    o = None
                    if atom.op == "bin" and atom.args[0] == "==" and ph in atom.args[1:]:
                        o = atom.args[1] if atom.args[2] is ph else atom.args[2]
                    c = self.c(sp[1])
                    if o is not None and self.c(o) is T("call", "end", c):
                        return T("iterator", c)
                    if o is not None:
                        return T("iterator?", c, self.c(o))
                return T("iterator?", self.c(sp[1]))
            # index loop: container from the loop condition i < size(c)
            cid, b = ph.args[0], ph.args[1]
            fr = I.frames.get(cid)
            cv = fr.conds.get(b) if fr and not isinstance(b, tuple) else None
            if cv is not None:
                atom, pol = truth(cv)
                if atom.op == "bin" and atom.args[0] == "<" and atom.args[1] is ph and atom.args[2].op == "call" and atom.args[2].args[0] == "size":
                    return T("iter", self.rep(self.c(atom.args[2].args[1])))
                if atom.op == "bin" and atom.args[0] == "==" and ph in atom.args[1:]:
                    o = atom.args[1] if atom.args[2] is ph else atom.args[2]
                    if o.op == "call" and o.args[0] == "size":
                        return T("iter", self.rep(self.c(o.args[1])))
                    if not pol and not any(x.op == "loopphi" and x.args[:2] == ph.args[:2] for x in subterms(o)):
                        return T("counter", self.c(o))
                if atom.op == "bin" and atom.args[0] == "<" and atom.args[1] is ph:
                    return T("counter", self.c(atom.args[2]))
                if ph not in atom.args[1:]:
                    # counts along with the variable the loop is controlled by
                    for o in atom.args[1:]:
                        if isinstance(o, T) and o.op == "loopphi" and o.args[:2] == ph.args[:2]:
                            t = self.c(o)
                            if t.op == "iterator":
                                return T("iter", self.rep(t.args[0]))
                            if t.op in ("iter", "counter"):
                                return t
            return T("counter?")
        down = self.countdown(ph)
        if down is not None:
            return down
        self.inprog.add(ph)
        # body values refer to the accumulator: drop memo of terms containing it afterwards
        save = self.memo
        self.memo = {}
        try:
            init, backs = I.phi[ph]
            bs = [self.c(x) for x in backs]
        finally:
            self.inprog.discard(ph)
            self.memo = save
        if not early and len(backs) == 1:
            r = self.appended(ph, init, backs[0])
            if r is not None:
                return r
        init = self.c(init)
        bs = tuple(sorted(set(bs), key=lambda z: z.uid))
        if not early and len(bs) == 1 and bs[0].op == "vec" and bs[0].args[0] is T("call", "size", T("acc")):
            # every element develops on its own
            v, p = bs[0].args[1], bs[0].args[2]
            own = T("idx", T("acc"), p)
            w = rsub(v, {own: T("accel")})
            from .spec import free_acc
            if not free_acc(w):
                w = rsub(w, {T("accel"): T("acc")})
                return self.vec(self.size(init), T("loop", self.idx(init, p), w), p)
        r = self.special_loop(ph, init, bs, early)
        if r is not None:
            return r
        return T("loopx" if early else "loop", init, *bs)

    # quantifiers and searches ------------------------------------------------
    def exists(self, c, r):
        if r is FALSE:
            return FALSE
        return T("exists", c, r)

    def order_key(self, c, r):
        """comparator key(a) < key(b): the key, as a function of the element"""
        if r.op != "neg0":
            return None
        p = to_poly(r.args[0])
        e, e2 = T("elem", c), T("elem2", c)
        pos, rest = Poly(), Poly()
        for k, v in p.m.items():
            m = Poly({k: v})
            if any(has(a, e2) for a, x in k):
                rest = rest + m
            else:
                pos = pos + m
        from .terms import subst
        key = pos.term()
        if has(key, e) and (to_poly(rsub(key, {e: e2})) + rest).zero():
            return key
        return None

    def space_of(self, cid, h):
        """container a loop goes through completely, element by element; None otherwise"""
        I = self.I
        out = []
        for ph in list(I.phi):
            if ph.op == "loopphi" and ph.args[0] == cid and ph.args[1] == h:
                if self.iterspace(ph) or self.inprog_iter(ph):
                    v = self.c(ph)
                    if v.op in ("iterator", "iter"):
                        out.append(v.args[0])
        if isinstance(h, tuple):
            # a closure run by a library algorithm
            return None
        return out[0] if len(set(out)) == 1 else None

    def inprog_iter(self, ph):
        return False

    def carried(self, cid, h):
        """loop-carried variables of a loop other than its own iteration variable"""
        return [ph for ph in self.I.phi if ph.op == "loopphi" and ph.args[0] == cid and ph.args[1] == h and not self.iterspace(ph)]

    def lexit(self, t):
        if len(t.args) == 4:
            return t      # already canonical
        cid, h, tree = t.args
        I = self.I
        nxt = T("next", cid, h)
        cond = I.lheads.get((cid, h))
        normal, body = None, None
        if cond is not None and tree.op == "ite":
            atom, pol = truth(cond)
            if tree.args[0] is atom:
                a, b = tree.args[1], tree.args[2]
                inn, outn = (a, b) if pol else (b, a)
                if not any(y is nxt for y in subterms(outn)):
                    normal, body = outn, inn
        if normal is None:
            normal, body = BOT, tree
        # an iteration as a decision
        carr = [ph for ph in self.carried(cid, h)]
        uses = any(x in carr for x in subterms(body))
        cb = self.c(body)
        E = self.mapleaf(cb, lambda x: FALSE if x is nxt else TRUE)
        V = self.mapleaf(cb, lambda x: BOT if x is nxt else x)
        nrm = self.c(normal) if normal is not BOT else BOT
        if E is FALSE or V is BOT:
            return nrm
        if V is nrm:
            return V
        sp = self.space_of(cid, h)
        if sp is not None and not uses:
            from .terms import subst
            el = T("elem", sp)
            V = rsub(V, {el: T("first", sp, E)})
            return self.ite(self.exists(sp, E), V, nrm) if nrm is not BOT else V
        return T("lexit", sp if sp is not None else T("space?", self.c(cond)) if cond is not None else T("space?"), E, V, nrm)

    def mapleaf(self, x, f):
        if x.op == "ite":
            return self.mk(x.args[0], self.mapleaf(x.args[1], f), self.mapleaf(x.args[2], f))
        return f(x)

    def special_loop(self, ph, init, bs, early):
        cid, h = ph.args[0], ph.args[1]
        if len(bs) != 1 or early:
            return None
        acc = T("acc")
        b = bs[0]
        if init in (TRUE, FALSE):
            # flags
            t1, t0 = self.fix(b, acc, True), self.fix(b, acc, False)
            if not has(t1, acc) and not has(t0, acc):
                sp = self.space_of(cid, h) if not isinstance(h, tuple) else self.alg_space(ph)
                if sp is not None:
                    if init is FALSE and t1 is TRUE:
                        return self.exists(sp, t0)
                    if init is TRUE and t0 is FALSE:
                        return self.cond_not(self.exists(sp, self.cond_not(t1)))
            return None
        if isinstance(h, tuple):
            return None
        return self.minimum(ph, init)

    def alg_space(self, ph):
        return None

    def fix(self, t, v, val):
        """t with the boolean v fixed, wherever it is tested"""
        if t is v:
            return const(val)
        if t.op == "ite":
            if t.args[0] is v:
                return self.fix(t.args[1 if val else 2], v, val)
            return self.mk(t.args[0], self.fix(t.args[1], v, val), self.fix(t.args[2], v, val))
        return t

    def minimum(self, ph, init):
        """searches for the smallest key: value and key are replaced together"""
        I = self.I
        cid, h = ph.args[0], ph.args[1]
        carr = [x for x in self.carried(cid, h) if len(I.phi[x][1]) == 1]
        if len(carr) > 3 or ph not in carr:
            return None
        sym = {x: T("carry", i) for i, x in enumerate(carr)}
        sub = self.child()
        sub.rename.update(sym)
        try:
            new = {x: sub.c(I.phi[x][1][0]) for x in carr}
            inits = {x: sub.c(I.phi[x][0]) for x in carr}
            sp = sub.space_of(cid, h)
        except RecursionError:
            return None
        if sp is None:
            return None
        for B in carr:
            sB = sym[B]
            lv = {l for pth, l in leaves_of(new[B])}
            if len(lv) != 2 or sB not in lv:
                continue
            K = next(x for x in lv if x is not sB)
            if any(has(K, s) for s in sym.values()):
                continue
            G = sub.mapleaf(new[B], lambda x: FALSE if x is sB else TRUE)
            less = sub.lt(K, sB)
            none = [sub.eq(sym[x], T("const", None)) for x in carr if isconst(inits[x]) and inits[x].args[0] is None]
            ok = False
            if inits[B].op == "call" and str(inits[B].args[0]).startswith("std::numeric_limits") and ("infinity" in inits[B].args[0] or "max" in inits[B].args[0]):
                ok = G is less
            for z in none:
                if G is sub.ite(z, TRUE, less):
                    ok = True
            if not ok:
                continue
            el, am = T("elem", sp), T("argmin", sp, K)
            from .terms import subst
            if ph is B:
                return rsub(K, {el: am})
            GA = sub.mapleaf(new[ph], lambda x: FALSE if x is sym[ph] else TRUE)
            lv = {l for pth, l in leaves_of(new[ph])}
            if GA is G and len(lv) == 2:
                V = next(x for x in lv if x is not sym[ph])
                if not any(has(V, s) for s in sym.values()):
                    return rsub(V, {el: am})
        return None

    def early_exit(self, ph):
        """the loop can be left other than through its condition"""
        cid, b = ph.args[0], ph.args[1]
        if isinstance(b, tuple):
            return False
        fr = self.I.frames.get(cid)
        if fr is None:
            return False
        c = self.I.cfg(fr.key)
        body = c["loops"].get(b)
        if body is None:
            return False
        for x in body:
            if x == b or not self.I.alive.get((cid, x)):
                continue
            for s in c["succ"][x]:
                if s is not None and s not in body and fr.outs.get((x, s)) is not None:
                    # condition evaluated over several blocks (&&, ||) still exits to the header's exit
                    if not (c["B"][x].get("tk") in ("BinaryOperator",)):
                        return True
        return False

    def elem_from_iter(self, x):
        if x.op == "iterator":
            return T("elem", x.args[0])
        return None

    # arithmetic -----------------------------------------------------------------
    def arith(self, o, x, y):
        p, q = to_poly(x), to_poly(y)
        if o == "+":
            r = p + q
        elif o == "-":
            r = p - q
        elif o == "*":
            r = p * q
        else:
            c = q.constv()
            if c is not None and c != 0:
                r = p.scale(1 / c)
            elif q.zero():
                return T("div0", x)
            else:
                r = p * q.pow(-1)
        return r.term()

    def lt(self, x, y):
        d = to_poly(x) - to_poly(y)
        c = d.constv()
        if c is not None:
            return const(c < 0)
        l = abs(d.norm())
        d = d.scale(1 / l)
        return T("neg0", d.term())

    def eq(self, x, y):
        if x is y:
            return TRUE
        numeric = any(z.op in ("P",) or isnum(z) for z in (x, y))
        if numeric and not any(isconst(z) and not isnum(z) for z in (x, y)):
            d = to_poly(x) - to_poly(y)
            c = d.constv()
            if c is not None:
                return const(c == 0)
            d = d.scale(1 / d.norm())
            t = d.term()
            if t.op == "call" and len(t.args) == 3 and t.args[0] in ("std::basic_string::compare", "strcmp", "std::strcmp", "std::basic_string_view::compare"):
                return self.eq(self.plain(t.args[1]), self.plain(t.args[2]))
            return T("zero", t)
        for p, q in ((x, y), (y, x)):
            if self.lookup(p) and q is T("call", "end", p.args[1]):
                return self.cond_not(self.among(*p.args[1:]))
            if p.op == "firstit" and q is T("call", "end", p.args[0]):
                return self.cond_not(self.exists(*p.args))
            if p.op in ("argminit", "iterator") and q is T("call", "end", p.args[0]) and p.op == "argminit":
                return self.eq(T("call", "size", p.args[0]), const(0))
        if isconst(x) and isconst(y) and type(x.args[0]) == type(y.args[0]):
            return const(x.args[0] == y.args[0])
        if x.op == "enum" and y.op == "enum":
            return FALSE      # distinct enumerators
        if x is TRUE or y is TRUE:
            return y if x is TRUE else x
        if x is FALSE or y is FALSE:
            return self.cond_not(y if x is FALSE else x)
        return T("eq", *sorted((x, y), key=lambda z: z.uid))

    def lookup(self, x):
        """search in a constant table"""
        return x.op == "call" and len(x.args) == 3 and x.args[0] in ("std::map::find", "std::unordered_map::find") and x.args[1] in TABLES

    def entry(self, m, k, default=BOT):
        v = default
        for a, b in reversed(TABLES[m]):
            v = self.ite(self.eq(k, a), b, v)
        return v

    def among(self, m, k):
        v = FALSE
        for a, _ in reversed(TABLES[m]):
            v = self.ite(self.eq(k, a), TRUE, v)
        return v

    def plain(self, x):
        """the characters of a string"""
        while x.op == "call" and x.args[0].split("::")[-1] in ("c_str", "data", "str") and len(x.args) == 2 or x.op == "new" and x.args[0] in ("std::basic_string", "std::basic_string_view") and len(x.args) == 2:
            x = x.args[1]
        return x

    # conditions ------------------------------------------------------------
    def cond_not(self, c):
        if isconst(c):
            return const(not c.args[0])
        if c.op == "ite":
            return self.mk(c.args[0], self.cond_not(c.args[1]), self.cond_not(c.args[2]))
        return self.mk(c, FALSE, TRUE)

    def mk(self, c, a, b):
        if a is b:
            return a
        if a is BOT:
            return b
        if b is BOT:
            return a
        if a is TRUE and b is FALSE:
            return c
        return T("ite", c, a, b)

    def var_of(self, t):
        if t.op == "ite":
            return t.args[0]
        if self.boolean(t):
            return t
        return None

    def boolean(self, t):
        return t.op in ("neg0", "zero", "eq", "exists", "acc")

    def ite(self, c, a, b):
        """ordered decision tree"""
        if isconst(c):
            return a if c.args[0] else b
        if a is b:
            return a
        if a is BOT:
            return b
        if b is BOT:
            return a
        # top variable
        vs = []
        cv = c.args[0] if c.op == "ite" else c
        vs.append(cv)
        for x in (a, b):
            if x.op == "ite":
                vs.append(x.args[0])
        v = min(vs, key=lambda z: z.uid)
        return self.mk(v, self.ite(self.cof(c, v, True), self.cof(a, v, True), self.cof(b, v, True)),
                       self.ite(self.cof(c, v, False), self.cof(a, v, False), self.cof(b, v, False)))

    def cof(self, t, v, val):
        if t is v:
            return const(val)
        if t.op == "ite":
            if t.args[0] is v:
                return t.args[1] if val else t.args[2]
            # ordered: v can only be at the top; otherwise independent
            if t.args[0].uid < v.uid:
                return self.mk(t.args[0], self.cof(t.args[1], v, val), self.cof(t.args[2], v, val))
        return t

    def lift1(self, x, f):
        if x.op == "ite" and not self.boolish(x):
            return self.ite(x.args[0], self.lift1(x.args[1], f), self.lift1(x.args[2], f))
        return f(x)

    def boolish(self, x):
        return False

    def leaves(self, x):
        if x.op != "ite":
            return 1
        return self.leaves(x.args[1]) + self.leaves(x.args[2])

    def lift2(self, x, y, f):
        if (x.op == "ite" or y.op == "ite") and self.leaves(x) * self.leaves(y) <= self.maxleaves:
            vs = [z.args[0] for z in (x, y) if z.op == "ite"]
            v = min(vs, key=lambda z: z.uid)
            return self.ite(v, self.lift2(self.cof(x, v, True), self.cof(y, v, True), f),
                            self.lift2(self.cof(x, v, False), self.cof(y, v, False), f))
        return f(x, y)


QUANT = ("std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::find_if_not", "std::count_if", "std::min_element", "std::max_element")


def has(t, x):
    return any(y is x for y in subterms(t))


def leaves_of(t, path=()):
    if t.op == "ite":
        yield from leaves_of(t.args[1], path + ((t.args[0], True),))
        yield from leaves_of(t.args[2], path + ((t.args[0], False),))
    else:
        yield path, t


def same(a, b):
    """equality of canonical terms as real formulas"""
    if a is b:
        return True
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return same(a.args[1], b.args[1]) and same(a.args[2], b.args[2])
    if a.op == "ite" or b.op == "ite":
        # conditions of one side only
        return False
    if a.op == b.op and a.op in ("neg0", "zero"):
        pa, pb = to_poly(a.args[0]), to_poly(b.args[0])
        return a is b
    try:
        return clear(to_poly(a) - to_poly(b)).zero()
    except RecursionError:
        return False
