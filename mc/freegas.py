"""The free gas collision: values handed to the scattering of the particle, case by case."""
from .kine import *


class Case:
    pass


def opaque(k, f):
    q = short(f["q"])
    return not (q == "Particle::Scatter" or f.get("ctor") and q == "Direction::Direction" or q.endswith("::Scatter") or q == "ScalarField::at")


def collision(P):
    """analysed collision, the calls that scatter the particle"""
    k = fn(P, "ContinuousScatter::Interact")
    p = T("var", "p", "param", 0)
    r = Run(P, k, this=T("this"), args=[p], inline=opaque)
    return k, p, r, [e for e in r.events("call") if e.name == "Particle::Scatter"]


def newdirs(t, n):
    return {x for x in subterms(t) if x.op == "new" and x.args[0] == "Direction" and len(x.args) == n + 1}


def cases(P, r, e, p):
    """one case per way the target was sampled"""
    a = [r.c(x) for x in e.args]
    mu, en = a[0 if len(a) == 2 else 1], a[-1]
    if en.op == "variant":
        en = en.args[0]
    mu, en = strip_rng(mu), strip_rng(en)
    facts = {strip_rng(c): v for c, v in cfacts(r, e.facts).items()}
    # the choice between the two ways of sampling the target speed
    conds = {x.args[0] for t in (mu, en) for x in subterms(t) if x.op == "ite"}
    out = []

    def split(done, todo):
        live = None
        m, n = under2(mu, done), under2(en, done)
        for t in (m, n):
            for x in subterms(t):
                if x.op == "ite":
                    live = x.args[0]
                    break
            if live is not None:
                break
        if live is None or len(done) > 6:
            c = Case()
            c.facts, c.mu, c.en = done, m, n
            c.exit = [(under2(x, done), v) for x, v in facts.items()]
            out.append(c)
            return
        for pol in (True, False):
            d = dict(done)
            d[live] = pol
            split(d, None)
    split({}, None)
    for c in out:
        d3 = newdirs(c.en, 3)
        c.old = [x for x in d3 if x.args[1] is T("fld", p, "direction")]
        c.new = [x for x in d3 if x not in c.old]
    return out


def under2(t, facts):
    """the term where the facts hold, conditions inside sums and products included"""
    if not facts:
        return t
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "ite" and x.args[0] in facts:
            v = go(x.args[1] if facts[x.args[0]] else x.args[2])
        elif x.op in ("const", "var", "xi", "enum"):
            v = x
        else:
            v = None
        memo[x] = v if v is not None else x
        if v is None:
            m = {y: go(y) for y in ites(x) if y.args[0] in facts}
            v = rsub(x, m) if m else x
            memo[x] = v
        return v
    return go(t)


def ites(x):
    return {y for y in subterms(x) if y.op == "ite"}


class Env:
    """physical quantities of the collision"""

    def __init__(self, P, p):
        this = T("this")
        self.d = [T("fld", T("fld", p, "direction"), n) for n in "xyz"]
        self.E = T("fld", T("fld", p, "energy"), "$get@double")
        self.A = T("fld", this, "awr")
        self.m = T("named", "constants::neutron_mass")
        self.k = T("named", "constants::boltzmann")

    def vec(self, t):
        return [T("fld", t, n) for n in "xyz"]


def angle(t):
    """the draw of an azimuth that is uniform over the circle"""
    ds = draws(t)
    if len(ds) != 1:
        return None
    for w in ("2*pi*b", "pi*(2*b-1)", "-2*pi*b", "2*pi*(1-b)"):
        if same(t, spec(w, b=ds[0])):
            return ds[0]
    return None


def cosine(t):
    """the draw of a cosine that is uniform between -1 and 1"""
    ds = draws(t)
    if len(ds) != 1:
        return None
    for w in ("2*b-1", "1-2*b"):
        if same(t, spec(w, b=ds[0])):
            return ds[0]
    return None


def dot(a, b):
    r = Poly()
    for x, y in zip(a, b):
        r = r + to_poly(x) * to_poly(y)
    return r


def peq(a, b):
    return same(a.term() if isinstance(a, Poly) else a, b.term() if isinstance(b, Poly) else b)
