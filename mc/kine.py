"""What a collision or a source does to directions, energies and secondaries."""
from itertools import product
from .flow import *
from .transport import deep_under, strip_rng


def components(t):
    """x, y, z of a vector value, None when they are not known one by one"""
    v = [aggfield(t, n) for n in ("x", "y", "z")]
    return None if any(x is None for x in v) else v


def isotropic(t):
    """(draw of the cosine, draw of the azimuth) when the direction has a uniform cosine and a uniform azimuth
    about some axis, else None"""
    v = components(t)
    if v is None:
        return None
    for i in range(3):
        mu = to_poly(v[i])
        ds = draws(v[i])
        if len(ds) != 1:
            continue
        a = ds[0]
        if not any((mu - Poly.c(s) * (Poly.a(a) * Poly.c(2) - Poly.c(1))).zero() for s in (1, -1)):
            continue
        rest = [v[j] for j in range(3) if j != i]
        bs = [b for b in draws(rest[0]) if b is not a]
        if len(bs) != 1:
            continue
        b = bs[0]
        for p, q in ((0, 1), (1, 0)):
            for s, t2, w in product(("", "-"), ("", "-"), ("2*pi*b", "pi*(2*b-1)", "2*pi*b-pi")):
                c = spec("%ssqrt(1-(2*a-1)**2)*cos(%s)" % (s, w), a=a, b=b)
                n = spec("%ssqrt(1-(2*a-1)**2)*sin(%s)" % (t2, w), a=a, b=b)
                if same(rest[p], c) and same(rest[q], n):
                    return a, b
    return None


def constants(P, enum):
    e = P.enums.get(enum)
    if e is None:
        raise AnalysisError("enumeration %s not found" % enum)
    return [c["name"] for c in e["consts"]]


def which(P, enum, facts, pred):
    """names of the enumerators that a value with pred can have under the facts, by value"""
    out = {}
    for c, pol in facts.items():
        if c.op == "eq" and len(c.args) == 2:
            for a, b in (c.args, c.args[::-1]):
                if a.op == "enum" and a.args[0].rsplit("::", 1)[0] == enum and pred(b):
                    s = out.setdefault(b, set(constants(P, enum)))
                    n = last(a.args[0])
                    if pol:
                        s &= {n}
                    else:
                        s -= {n}
    return out


class Outcome:
    """one path through a collision: last writes to the particle, banked secondaries in order, nested calls"""

    def __init__(self, q, facts):
        self.seq, self.facts = q, facts

    def writes(self, place):
        return [(e, f) for e, f in self.seq if e.kind == "write" and e.places and e.places[0] is place]


def banks(e):
    return e.kind == "write" and e.places and isinstance(e.places[0], T) and e.name in ("emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert")


def outcomes(r, p, calls=()):
    """paths through a collision function, as the writes to the particle and the given calls on each"""
    from .interp import root
    fl = Flow(r)
    out = []
    seen = set()

    def delta(q, e, facts):
        keep = e.kind == "write" and e.places and isinstance(e.places[0], T) and root(e.places[0]) is p and not inrng(e.places[0], p)
        keep = keep or e.kind == "call" and e.name in calls
        if not keep or any(x[0] is e for x in q):
            return q
        d = cfacts(r, e.facts)
        d.update(facts)
        return q + ((e, frozenset(d.items())),)
    for q, dec in fl.explore((), delta):
        k = (tuple(x[0] for x in q), dec)
        if k not in seen:
            seen.add(k)
            out.append(Outcome(q, dict(dec)))
    return fl, out


def inrng(pl, p):
    while pl.op == "fld":
        if pl.args[0] is p and pl.args[1] == "rng":
            return True
        pl = pl.args[0]
    return False


def fresh_between(fl, target, marks):
    """every path from the entry or from an earlier passage of the target event to the target passes all mark events;
    returns the marks missed on some path"""
    missed = set()

    def delta(q, e, facts):
        if e is target:
            missed.update(marks - q)
            return frozenset()
        return q | {e} if e in marks else q
    fl.explore(frozenset(), delta)
    return missed


def draw_events(fl, t):
    """the events that make the random numbers in a term"""
    ds = set(draws(t))
    return {e for n in fl.nodes for e in fl.nodes[n] if e.kind == "ext" and isinstance(e.val, T) and "distribution::operator()" in (e.name or "") and ds & set(draws(strip_rng(fl.r.c(e.val))))}


def integer_of(facts):
    """[(n, polynomial)] of counted loops that run n times: -n"""
    out = []
    for c, pol in facts.items():
        if c.op == "neg0" and pol or c.op == "zero" and not pol:
            qs = [to_poly(c.args[0])]
            if c.op == "zero":
                qs.append(Poly.c(-1) * qs[0])
        elif c.op == "eq" and not pol and len(c.args) == 2:
            d = to_poly(c.args[0]) - to_poly(c.args[1])
            qs = [d, Poly.c(-1) * d]
        else:
            continue
        for q in qs:
            for a in q.atoms():
                if a.op == "counter" and (q - Poly.a(a) + to_poly(a.args[0])).zero():
                    out.append((a.args[0], q - Poly.a(a)))
    return out
