"""Lookup functions over a sorted table, decided on every order type of the key and the table's keys."""
from .terms import T, TRUE, FALSE, const, isconst, subterms, show
from .canon import Canon, to_poly, Poly
from .names import last


class Outside(Exception):
    """an entry outside the table is read"""


class Unknown(Exception):
    """the value depends on something other than the order of the keys"""


def key(j):
    return T("var", "K%d" % j, "table", j)


def val(j):
    return T("var", "V%d" % j, "table", j)


class Model:
    """a table of n entries with a looked-up key `k` at a given rank: rank j means the key equals the j-th key of the table, j-1/2 that it
    lies between its neighbours"""

    def __init__(self, n, rank, k, is_table):
        self.n, self.rank, self.k, self.is_table = n, rank, k, is_table
        self.memo = {}

    @property
    def q(self):
        return key(int(self.rank)) if self.rank == int(self.rank) else self.k

    def order(self, t):
        """rank of a single key"""
        if t is self.k:
            return self.rank
        if t.op == "var" and t.args[1] == "table" and t.args[0].startswith("K"):
            return t.args[2]
        return None

    def sign(self, p):
        """sign of a difference of two keys or of a number"""
        it = list(p.m.items())
        if not it:
            return 0
        if len(it) == 1 and it[0][0] == ():
            return 1 if it[0][1] > 0 else -1
        if len(it) == 2 and it[0][1] == -it[1][1]:
            r = []
            for k, v in it:
                if len(k) != 1 or k[0][1] != 1:
                    return None
                o = self.order(k[0][0])
                if o is None:
                    return None
                r.append((o, v))
            d = r[0][0] - r[1][0]
            d = 0 if d == 0 else 1 if d > 0 else -1
            return d if r[0][1] > 0 else -d
        return None

    def truth(self, c):
        c = self.go(c)
        if isconst(c):
            return bool(c.args[0])
        raise Unknown(show(c))

    def bound(self, name):
        import math
        if name == "upper_bound":
            return sum(1 for j in range(self.n) if j <= self.rank)
        if name == "lower_bound":
            return sum(1 for j in range(self.n) if j < self.rank)
        e = int(self.rank) if self.rank == int(self.rank) and 0 <= self.rank < self.n else None
        if name == "find":
            return self.n if e is None else e
        return 0 if e is None else 1

    def go(self, t):
        if isinstance(t, tuple):
            return tuple(self.go(x) for x in t)
        if not isinstance(t, T):
            return t
        if t not in self.memo:
            self.memo[t] = self.step(t)
        return self.memo[t]

    def step(self, t):
        if t is self.k:
            return self.q
        if t.op == "call" and len(t.args) > 1 and isinstance(t.args[1], T) and self.is_table(t.args[1]):
            nm = last(t.args[0])
            if nm in ("begin", "cbegin"):
                return const(0)
            if nm in ("end", "cend", "size"):
                return const(self.n)
            if nm in ("upper_bound", "lower_bound", "find", "count", "contains"):
                if self.go(t.args[2]) is not self.q:
                    raise Unknown(show(t))
                return const(self.bound(nm))
            raise Unknown(show(t))
        if t.op == "ite":
            return self.go(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op in ("deref",) and t.args[0].op == "call" and last(t.args[0].args[0]) == "rbegin" and self.is_table(t.args[0].args[1]):
            return T("entry", self.n - 1)
        if t.op == "deref":
            p = self.go(t.args[0])
            if not isconst(p):
                raise Unknown(show(t))
            j = p.args[0]
            if j != int(j) or not 0 <= j < self.n:
                raise Outside("position %s of %d entries" % (j, self.n))
            return T("entry", int(j))
        if t.op == "fld":
            b = self.go(t.args[0])
            if b.op == "entry":
                if t.args[1] == "first":
                    return key(b.args[0])
                if t.args[1] == "second":
                    return val(b.args[0])
            return T("fld", b, *t.args[1:])
        if t.op in ("P", "poly"):
            p = Poly()
            for k, v in t.args[0]:
                q = Poly({(): v})
                for a, e in k:
                    b = self.go(a)
                    bp = to_poly(b)
                    if b.op == "poly":
                        bp = to_poly(T("P", b.args[0]))
                    q = q * bp.pow(e)
                p = p + q
            return p.term()
        na = tuple(self.go(x) for x in t.args)
        if t.op == "eq":
            a, b = na
            if isconst(a) and isconst(b):
                return const(a.args[0] == b.args[0])
            s = self.sign(to_poly(a) - to_poly(b)) if isinstance(a, T) and isinstance(b, T) else None
            if s is not None:
                return const(s == 0)
            raise Unknown(show(t))
        if t.op in ("neg0", "zero"):
            s = self.sign(to_poly(na[0]))
            if s is not None:
                return const(s < 0 if t.op == "neg0" else s == 0)
            raise Unknown(show(t))
        if t.op in ("and", "or", "not"):
            v = [self.truth(x) for x in na]
            return const(all(v) if t.op == "and" else any(v) if t.op == "or" else not v[0])
        if t.op in ("min", "max") and len(na) == 2:
            s = self.sign(to_poly(na[0]) - to_poly(na[1]))
            if s is None:
                raise Unknown(show(t))
            return na[0] if (s <= 0) == (t.op == "min") else na[1]
        return t if na == t.args else T(t.op, *na)


def ranks(n):
    """every order type of a key against n sorted keys"""
    return [x / 2 for x in range(-1, 2 * n)]
