"""Polynomial identities modulo relations such as x^2+y^2+z^2 = 1 and sin^2+cos^2 = 1."""
from fractions import Fraction as Fr
from .canon import Poly, to_poly, unpoly, clear
from .terms import T, subterms


class Relations:
    """squares: atom -> polynomial that equals its square"""

    def __init__(self, squares):
        self.sq = dict(squares)
        self.memo = {}

    def trig(self, p):
        for k in p.m:
            for a, e in k:
                if a.op == "call" and a.args[0] in ("cos", "std::cos") and a not in self.sq:
                    s = T("call", a.args[0].replace("cos", "sin"), *a.args[1:])
                    self.sq[a] = Poly.c(1) - Poly.a(s, Fr(2))

    def reduce(self, p):
        """p with squares replaced, inner polynomials simplified; p must be a Poly"""
        for _ in range(60):
            self.trig(p)
            out = Poly()
            changed = False
            for k, v in p.m.items():
                done = False
                for j, (a, e) in enumerate(k):
                    rest = k[:j] + k[j + 1:]
                    if a.op == "poly":
                        q = self.inner(a)
                        if q is not a:
                            x = q.pow(e) if isinstance(q, Poly) else Poly.a(q, e)
                            out = out + Poly({rest: v}) * x
                            done = changed = True
                            break
                    elif a in self.sq and e >= 2:
                        n = int(e) // 2
                        x = Poly.c(1)
                        for _ in range(n):
                            x = x * self.sq[a]
                        r = Poly({rest: v})
                        if e - 2 * n:
                            r = r * Poly.a(a, e - 2 * n)
                        out = out + r * x
                        done = changed = True
                        break
                if not done:
                    out = out + Poly({k: v})
            p = out
            if not changed:
                break
        return p

    def inner(self, a):
        """simplified polynomial below a power; the atom itself if nothing changes"""
        if a in self.memo:
            return self.memo[a]
        self.memo[a] = a
        p = unpoly(a)
        q = self.reduce(p)
        if self.zero(q - Poly.c(1)):
            q = Poly.c(1)
        if (q - p).zero():
            r = a
        else:
            r = q
        self.memo[a] = r
        return r

    def zero(self, p):
        """p vanishes wherever the relations hold"""
        p = self.reduce(p)
        for _ in range(10):
            if not p.m:
                return True
            q = self.reduce(clear(p).expand() if hasattr(p, "expand") else clear(p))
            if (q - p).zero():
                return q.zero()
            p = q
        return p.zero()
