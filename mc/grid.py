"""Case analysis of lookups in tables.

A value that depends on positions found by binary search is evaluated once for every position the key can have on its axis: before the first point,
between two points, behind the last of several points, behind the only point. In each case positions are expressed in symbols with known bounds, conditions over
positions are decided from these bounds, comparisons of a key with points of its axis from the meaning of the search; anything else that is undecided splits into both outcomes."""
from fractions import Fraction as Fr
from .lib import *
from .canon import unpoly, clear, Canon

U, V = T("var", "u", "nonneg"), T("var", "v", "nonneg")


class Fork(Exception):
    def __init__(self, kind, *what):
        self.kind, self.what = kind, what


class Undefined(Exception):
    """division by zero"""


class Dead(Exception):
    """no execution"""


SEARCH = {"std::upper_bound": "upper", "std::lower_bound": "lower"}


class Path:
    """choices made so far"""

    def __init__(self, other=None):
        self.pos = dict(other.pos) if other else {}      # (axis, key) -> case
        self.size = dict(other.size) if other else {}    # axis -> 1, '>=1' or '>=2'
        self.cond = dict(other.cond) if other else {}    # condition -> bool
        self.kind = dict(other.kind) if other else {}    # (axis, key) -> upper or lower


class Eval:
    def __init__(self, P, path, exact=True):
        self.P, self.path, self.memo, self.pmemo, self.can = P, path, {}, {}, Canon()

    # -- symbols ----------------------------------------------------------------
    def j(self, axis, key):
        c = self.path.pos[(axis, key)]
        if c == "below":
            return Poly()
        if c == "single":
            return Poly.c(1)
        if c == "above":
            return self.n(axis)
        return Poly.a(T("pos", axis, key))

    def n(self, axis):
        return Poly.c(1) if self.path.size.get(axis) == 1 else Poly.a(T("size", axis))

    def sign(self, p):
        """+ - 0, >= , <= or None for a polynomial over positions and sizes"""
        c = p.constv()
        if c is not None:
            return "0" if c == 0 else "+" if c > 0 else "-"
        mids = {a for a in p.atoms() if a.op == "pos"}
        sizes = {a for a in p.atoms() if a.op == "size"}
        if p.atoms() - mids - sizes or len(mids) > 1 or len(sizes) > 1:
            return None
        sub = {}
        if mids:
            m, = mids
            sub[m] = Poly.c(1) + Poly.a(U)
            sub[T("size", m.args[0])] = Poly.c(2) + Poly.a(U) + Poly.a(V)
            if sizes and next(iter(sizes)).args[0] is not m.args[0]:
                return None
        else:
            s, = sizes
            sub[s] = Poly.c(2 if self.path.size.get(s.args[0]) == ">=2" else 1) + Poly.a(V)
        q = Poly()
        for k, v in p.m.items():
            r = Poly({(): v})
            for a, e in k:
                if e != 1:
                    return None
                r = r * sub[a]
            q = q + r
        lo = q.m.get((), 0)
        rest = [v for k, v in q.m.items() if k]
        if all(v >= 0 for v in rest) and lo >= 0:
            return "+" if lo > 0 else ">=" if rest else "0"
        if all(v <= 0 for v in rest) and lo <= 0:
            return "-" if lo < 0 else "<=" if rest else "0"
        return None

    # -- conditions -------------------------------------------------------------
    def compare(self, p):
        """sign of c*(key - axis[i]) and the like"""
        if len(p.m) != 2:
            return None
        it = list(p.m.items())
        for (k1, v1), (k2, v2) in (it, it[::-1]):
            if len(k1) != 1 or len(k2) != 1 or v1 + v2 != 0 or k1[0][1] != 1 or k2[0][1] != 1:
                continue
            a, b = k1[0][0], k2[0][0]
            if b.op != "idx" or (b.args[0], a) not in self.path.pos:
                continue
            axis, i = b.args[0], to_poly(b.args[1])
            kind = self.path.kind[(axis, a)]
            s = self.sign(i - self.j(axis, a))
            # upper: axis[i] > key iff i >= j; lower: axis[i] >= key iff i >= j
            if s in ("+", ">=", "0"):
                r = "-" if kind == "upper" else "<="
            elif s == "-":
                r = ">=" if kind == "upper" else "+"
            else:
                return None
            return r if v1 > 0 else {"-": "+", "+": "-", ">=": "<=", "<=": ">="}[r]
        return None

    def unit(self, p):
        """draws from the unit interval"""
        if len(p.m) == 2 and p.m.get(()) is not None:
            (k, v), = [(k, v) for k, v in p.m.items() if k]
            if len(k) == 1 and k[0][1] == 1 and k[0][0].op == "xi":
                c = p.m[()]
                lo, hi = (c, c + v) if v > 0 else (c + v, c)
                # xi in [0, 1)
                if lo >= 0 and v > 0:
                    return ">=" if lo == 0 else "+"
                if hi <= 0 and v > 0:
                    return "-"
                if lo >= 0 and v < 0:
                    return "+"
                if hi <= 0 and v < 0:
                    return "<=" if hi == 0 else "-"
        if len(p.m) == 1:
            (k, v), = p.m.items()
            if len(k) == 1 and k[0][1] == 1 and k[0][0].op == "xi":
                return ">=" if v > 0 else "<="
        return None

    def cond(self, c):
        if c.op == "const":
            return bool(c.args[0])
        if c.op == "ite":
            return self.cond(c.args[1] if self.cond(c.args[0]) else c.args[2])
        if c.op == "not":
            return not self.cond(c.args[0])
        if c.op in ("zero", "neg0"):
            try:
                p = to_poly(self(c.args[0]))
            except Undefined:
                # asked where it makes no sense (an ordered tree asks in its own order): either answer, which has to lead to the same
                x = T("undefined", c)
                if x in self.path.cond:
                    return self.path.cond[x]
                raise Fork("cond", x)
            s = self.sign(p) or self.compare(p) or self.unit(p)
            if c.op == "zero" and s is not None:
                if s in ("+", "-"):
                    return False
                if s == "0":
                    return True
            if c.op == "neg0" and s is not None:
                if s == "-":
                    return True
                if s in ("+", "0", ">="):
                    return False
            x = T(c.op, p.term())
            if c.op == "neg0":
                # both ways of writing a comparison
                y = T(c.op, p.scale(Fr(-1)).term())
                if self.path.cond.get(y) is True:
                    return False
        else:
            x = T(c.op, *[self(y) if isinstance(y, T) else y for y in c.args])
        if x in self.path.cond:
            return self.path.cond[x]
        raise Fork("cond", x)

    # -- values -----------------------------------------------------------------
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def free(self, t):
        """conditions on bound variables are left as they are"""
        if not contains(t, lambda x: x.op == "elem"):
            return self(t)
        if t.op == "P":
            p = Poly()
            for k, v in t.args[0]:
                q = Poly({(): v})
                for a, e in k:
                    q = q * to_poly(self.free(a)).pow(e)
                p = p + q
            return p.term()
        if t.op == "elem":
            return T("elem", *[self(x) if isinstance(x, T) else x for x in t.args])
        return T(t.op, *[self.free(x) if isinstance(x, T) else x for x in t.args])

    def factor(self, a):
        """polynomial an atom stands for now; None if it is unchanged"""
        if a in self.pmemo:
            return self.pmemo[a]
        if a.op == "poly":
            old = unpoly(a)
            b = self.poly(a.args[0])
            r = None if b.m == old.m else b
        else:
            x = self(a)
            r = None if x is a else to_poly(x)
        self.pmemo[a] = r
        return r

    def poly(self, key):
        out = {}
        rest = Poly()
        for k, v in key:
            same, changed = [], []
            for a, e in k:
                b = self.factor(a)
                if b is None:
                    same.append((a, e))
                else:
                    changed.append((b, e))
            if not changed:
                k = tuple(k)
                out[k] = out.get(k, 0) + v
                continue
            # what a division by zero makes of the other factors is not their product
            q = Poly({tuple(same): v})
            for b, e in sorted(changed, key=lambda x: x[1]):
                if e < 0 and b.zero():
                    raise Undefined()
                q = q * (b if e == 1 else b.pow(e))
            rest = rest + q
        p = Poly(out)
        return p + rest if rest.m else p

    def ev(self, t):
        if t.op == "P":
            return self.poly(t.args[0]).term()
        if t.op == "poly":
            return self.poly(t.args[0]).term()
        if t.op in ("const", "acc", "this", "var", "named", "enum"):
            return t
        if t.op == "ite":
            return self(t.args[1] if self.cond(t.args[0]) else t.args[2])
        if t.op == "bot":
            raise Dead()
        if t.op == "call" and t.args[0] in SEARCH and len(t.args) >= 4:
            a = [self(x) for x in t.args[1:4]]
            if t.args[-1].op == "pred" and len(a) == 3:
                a.append(self.free(t.args[-1]))
            if len(a) in (3, 4) and a[0].op == "call" and a[0].args[0] in ("begin", "cbegin") and a[1].op == "call" and a[1].args[0] in ("end", "cend") and a[0].args[1] is a[1].args[1]:
                # with an order of its own, the order is what is looked up
                axis, key = a[0].args[1], a[-1]
                if (axis, key) not in self.path.pos:
                    raise Fork("pos", axis, key, SEARCH[t.args[0]])
                return (Poly.a(a[0]) + self.j(axis, key)).term()
            return T("call", t.args[0], *[self(x) for x in t.args[1:]])
        if t.op == "pred":
            return self.free(t)
        if t.op == "lexit":
            # leaves with the value in the first round that accepts it
            if not self.cond(t.args[1]):
                raise Dead()
            return self(t.args[2])
        if t.op == "call" and t.args[0] == "size" and len(t.args) == 2:
            a = self(t.args[1])
            return self.n(a).term()
        if t.op == "loop" and len(t.args) == 2:
            return self.loop(self(t.args[0]), self(t.args[1]))
        if t.op in ("zero", "neg0", "not"):
            return const(self.cond(t))
        if t.op == "idx" and len(t.args) == 2:
            a, i = self(t.args[0]), self(t.args[1])
            if any(a is x[0] for x in self.path.pos) and (self.sign(to_poly(i)) == "-" or self.sign(to_poly(i) - self.n(a)) in ("+", "0", ">=")):
                # outside of the table
                raise Undefined()
            return T("idx", a, i)
        return T(t.op, *[self(x) if isinstance(x, T) else tuple(self(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) and all(not isinstance(y, tuple) for y in x) else x for x in t.args])

    def loop(self, init, body):
        """sums over a loop are written monomial by monomial, constant factors in front"""
        acc = T("acc")
        d = to_poly(body) - Poly.a(acc)
        if not isnum(init) or any(free_acc(a) for a in d.atoms()):
            return T("loop", init, body)
        out = Poly.c(init.args[0])
        for k, v in d.m.items():
            inner = Poly({(): Fr(1)})
            front = Poly({(): v})
            for a, e in k:
                if contains(a, lambda x: x.op in ("iter", "counter", "elem")):
                    inner = inner * Poly({((a, e),): Fr(1)})
                else:
                    front = front * Poly({((a, e),): Fr(1)})
            out = out + front * Poly.a(T("loop", const(0), (Poly.a(acc) + inner).term()))
        return out.term()


def free_acc(t):
    from .spec import free_acc as f
    return f(t)


def paths(P, term, allowed=lambda axis, key, case: True, limit=4000, start=None):
    """[(path, value or 'undefined')] for all cases"""
    todo = [(start or Path(), None)]
    out = []
    n = 0
    while todo:
        p, mem = todo.pop()
        n += 1
        if n > limit:
            raise AnalysisError("too many cases")
        try:
            e = Eval(P, p)
            if mem:
                # a decision on a condition leaves values known so far as they are
                e.memo.update(mem[0])
                e.pmemo.update(mem[1])
            out.append((p, e, e(term) if isinstance(term, T) else [e(x) for x in term]))
        except Dead:
            continue
        except Undefined:
            out.append((p, e, None))
        except Fork as f:
            if f.kind == "cond":
                for b in (True, False):
                    q = Path(p)
                    q.cond[f.what[0]] = b
                    todo.append((q, (e.memo, e.pmemo)))
            else:
                axis, key, kind = f.what
                for case in ("below", "between", "above", "single"):
                    have = p.size.get(axis)
                    need = {"below": ">=1", "between": ">=2", "above": ">=2", "single": 1}[case]
                    if have == 1 and need == ">=2" or have == ">=2" and need == 1:
                        continue
                    if not allowed(axis, key, case):
                        continue
                    q = Path(p)
                    q.pos[(axis, key)] = case
                    q.kind[(axis, key)] = kind
                    q.size[axis] = have if need == ">=1" and have else need
                    todo.append((q, None))
    return out


def matters(P, term, path, conds, x, allowed=lambda axis, key, case: True):
    """those of the conditions whose opposite leads to another value, everything else being the same"""
    out = []
    for c in conds:
        start = Path(path)
        start.cond[c] = not path.cond[c]
        others = paths(P, term, allowed, start=start)
        if any((y is None) != (x is None) or y is not x and not equal(x, y) for _, _, y in others if not (isinstance(y, list))) or any(isinstance(y, list) for _, _, y in others):
            out.append(c)
        elif not others:
            # the opposite is rejected
            out.append(c)
    return out


def equal(a, b):
    """same real function"""
    d = to_poly(a) - to_poly(b)
    return d.zero() or clear(d).zero()


# -- signs of products of things of known sign ------------------------------------
def sample(a, path):
    """value of an atom at one point consistent with the order of axes and keys"""
    if a.op == "idx" and any(a.args[0] is x[0] for x in path.pos):
        return (Fr(1, 3) + value(to_poly(a.args[1]), path)) / 10   # points of cumulative distributions lie between 0 and 1
    if a.op == "call" and last(str(a.args[0])) == "Evaluate":
        return (Fr(1, 3) + value(to_poly(a.args[2]), path)) / 10
    if a.op == "fld" and str(a.args[1]).endswith("cutoff"):
        return Fr(3)
    if a.op == "pos":
        return Fr(3)
    if a.op == "size":
        return Fr(5)
    if a.op == "poly":
        return value(unpoly(a), path)
    return Fr(1, 2) + Fr(a.uid % 97, 389)


def value(p, path):
    r = Fr(0)
    for k, v in p.m.items():
        x = Fr(v)
        for a, e in k:
            if e.denominator != 1:
                raise AnalysisError("sign of a root")
            x *= sample(a, path) ** int(e)
        r += x
    return r


def multiple(p, q):
    """sign of c if p = c*q as written"""
    if len(p.m) != len(q.m) or set(p.m) != set(q.m) or not p.m:
        return None
    k = next(iter(p.m))
    c = Fr(p.m[k]) / Fr(q.m[k])
    return None if any(v != c * q.m[x] for x, v in p.m.items()) else 1 if c > 0 else -1


def ratio(p, q, path):
    """sign of p/q if it is the same everywhere: numerators agree up to a product of positive quantities"""
    n, m = clear(p), clear(q)
    a, b = strip_monomial(n), strip_monomial(m)
    if set(a.m) != set(b.m):
        return None
    k = next(iter(a.m))
    c = Fr(a.m[k]) / Fr(b.m[k])
    if not (a - b.scale(c)).zero():
        return None
    dp, dq = denominator(p, path), denominator(q, path)
    return 1 if c * dp * dq > 0 else -1


def strip_monomial(p):
    low = None
    for k in p.m:
        d = dict(k)
        low = d if low is None else {a: min(e, d[a]) for a, e in low.items() if a in d}
    low = {a: e for a, e in (low or {}).items() if e}
    if not low:
        return p
    out = {}
    for k, v in p.m.items():
        d = dict(k)
        for a, e in low.items():
            d[a] -= e
        out[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))] = v
    return Poly(out)


def denominator(p, path):
    """sign of the common denominator"""
    den = {}
    for k in p.m:
        for a, e in k:
            if e < 0:
                den[a] = min(den.get(a, 0), e)
    s = 1
    for a, e in den.items():
        if e.denominator == 1 and int(e) % 2 and sample(a, path) < 0:
            s = -s
    return s
