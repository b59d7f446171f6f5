"""Steps of a particle: what happens between two flights on every path of a transport method."""
from .flow import *

OPAQUE = ("Particle::Stream", "EstimatorSetProxy::Score", "World::FindCellContaining", "Cell::NearestSurface",
          "Material::GetMicroscopicTotal", "Material::GetMicroscopicMajorant", "Particle::SampleNuclide", "Nuclide::Interact")


class Step:
    def __init__(self, q, facts):
        self.stream = q[0]          # (event, facts, draws before the flight)
        self.before = q[0][2]
        self.seq = q[1]             # [(event, facts)] after the flight
        self.facts = facts

    def has(self, name):
        return [x for x in self.seq if x[0].kind == "call" and x[0].name == name]

    def cellwrites(self, p):
        return [x for x in self.seq if x[0].kind == "write" and x[0].places[0] is T("fld", p, "cell")]


class Method:
    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.key = virtual_impl(P, cls, "TransportMethod", "Transport")
        ps = P.fns[self.key]["params"]

        def par(cl):
            for i, x in enumerate(ps):
                if strip_type(x["t"]) == cl:
                    return i
            raise AnalysisError("transport method has no %s" % cl)
        vs = [T("var", x["name"] or "a%d" % i, "param", i) for i, x in enumerate(ps)]
        self.p, self.e, self.w = vs[par("Particle")], vs[par("EstimatorSetProxy")], vs[par("World")]
        self.r = r = Run(P, self.key, this=T("obj", cls), args=vs, inline=lambda k, f: short(f["q"]) not in OPAQUE)
        open_loops(r, lambda x: x is self.p)
        self.kind = "surface" if "surface" in cls.lower() else "delta"
        self.steps, self.double, self.before = [], [], []
        fl = self.flow = Flow(r)
        done = set()

        def finish(q, facts):
            if q[0] is not None:
                key = (q[0][0], tuple(id(x[0]) for x in q[1]), frozenset(facts.items()))
                if key not in done:
                    done.add(key)
                    self.steps.append(Step(q, dict(facts)))

        def delta(q, ev, facts):
            st, seq, dr = q
            if ev.kind == "call" and ev.name == "Particle::Stream" and self.isp(ev):
                finish(q, facts)
                if st is None:
                    self.before.append(seq)
                return ((ev, frozenset(facts.items()), dr), (), ())
            if ev.kind == "call" or ev.kind == "write" and self.rooted(ev):
                if ev.kind == "write" and place_first(ev.places[0], self.p) == "rng":
                    return q
                if any(x[0] is ev for x in seq):
                    return q if ev.name != "EstimatorSetProxy::Score" else (st, seq + ((ev, frozenset(facts.items())),), dr)
                return (st, seq + ((ev, frozenset(facts.items())),), dr)
            if ev.kind == "ext" and "distribution::operator()" in (ev.name or ""):
                return (st, seq, tuple(x for x in dr if x is not ev)[-3:] + (ev,))
            return q
        for q, dec in fl.explore((None, (), ()), delta):
            finish(q, dict(dec))

    def isp(self, ev):
        return ev.this is self.p or self.r.c(ev.this) is self.p if isinstance(ev.this, T) else True

    def rooted(self, ev):
        from .interp import root
        return bool(ev.places) and isinstance(ev.places[0], T) and root(ev.places[0]) is self.p

    def arg(self, ev, facts):
        """state of the particle handed to a call, conditions of the path resolved"""
        return deep_under(self.r.c, ev.args[0], dict(facts))


def place_first(pl, base):
    while pl.op == "fld":
        if pl.args[0] is base:
            return pl.args[1]
        pl = pl.args[0]
    return None


def resolved(r, t, facts):
    return deep_under(r.c, t, facts)


def deep_under(c, t, facts):
    """resolve conditions anywhere in a term"""
    facts = dict(facts)
    m = {}
    x = exits(c(t), facts)
    for _ in range(20):
        m = {}
        for s in subterms(x):
            if s.op == "ite" and known(facts, s.args[0]) is not None:
                m[s] = under(s, facts)
        if not m:
            break
        x = rsub(x, m)
    return x


def norng(t):
    """the particle without its generator's state"""
    m = {}
    for s in subterms(t):
        if s.op == "agg":
            sub = tuple((p, w) for p, w in s.args[1] if p != ("rng",))
            if len(sub) != len(s.args[1]):
                m[s] = T("agg", s.args[0], sub) if sub else s.args[0]
    return m


def strip_rng(t):
    """a term with every particle state seen without its generator"""
    for _ in range(8):
        m = norng(t)
        if not m:
            break
        t = rsub(t, m)
    return t


def rate(m, q):
    """number density of the current cell times a microscopic cross section of its material for the particle as it is"""
    cell = T("now", T("fld", m.p, "cell"))
    mat = T("deref", T("fld", T("deref", cell), "material"))
    return to_poly(T("fld", mat, "number_density")) * Poly.a(T("call", q, mat, T("now", m.p)))


def surface_distance(m):
    p = m.p
    ns = T("call", "Cell::NearestSurface", T("deref", T("now", T("fld", p, "cell"))), T("now", T("fld", p, "position")), T("now", T("fld", p, "direction")))
    return T("fld", ns, "$1")


def exponential(m, d, q):
    """the standard exponential number behind a flight distance d, None if d has another law"""
    x = (to_poly(strip_rng(d)) * rate(m, q)).term()
    if x.op == "xe":
        return x
    e = to_poly(x)
    for s in subterms(x):
        if s.op == "xi":
            for form in ("-log(u)", "-log(1-u)"):
                if same(x, spec(form, u=s)):
                    return s
    return None


def plain_step(s, m):
    """how a flight ended: surface, collision or virtual"""
    if s.cellwrites(m.p) or s.has("World::FindCellContaining"):
        return "surface"
    return "collision" if s.has("Nuclide::Interact") else "virtual"
