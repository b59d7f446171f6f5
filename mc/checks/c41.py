"""The elastic cross section follows the local temperature."""
from fractions import Fraction as Fr
from ..spec import *
from ..grid import paths, equal
from ..flow import Flow

RULE = ("case analysis of the cross section, the majorant and the choice of the collision law over all outcomes of their conditions: in each case the value is compared with that of a reference which decides on the thermal library, the temperature the "
        "data were evaluated at and the free gas range in this order, as real functions; every reader of the thermal library asks the same question")
MINIMUM = 20
K, PI = T("named", "constants::boltzmann"), T("named", "constants::pi")
OPAQUE = ("ThermalScattering::", "HDF5DataSet", "ScalarField::", "ContinuousMap::at", "ContinuousEvaluation::IsValid")


def inline(k, f):
    return not short(f["q"]).startswith(OPAQUE)


def owner(P):
    """class with an optional thermal library among the reactions"""
    out = [c for c in concrete(P, "ContinuousReaction") if any("ThermalScattering" in f["t"] for f in P.recs[c]["fields"])]
    if len(out) != 1:
        raise AnalysisError("elastic reaction not found")
    f, = [f for f in P.recs[out[0]]["fields"] if "ThermalScattering" in f["t"]]
    return out[0], f


class Ref:
    """names of the quantities involved"""

    def __init__(self, P, p):
        self.P, self.p, self.this = P, p, T("this")
        self.cls, f = owner(P)
        self.opt = "optional" in f["t"]
        t = T("fld", self.this, f["name"])
        self.has = T("call", "has_value", t)
        self.tsl = T("fld", t, "$val")
        self.ev = T("fld", self.this, *[f["name"] for f in P.recs["ContinuousReaction"]["fields"] if "ContinuousEvaluation" in f["t"]])
        self.xs = T("fld", self.ev, [f["name"] for f in P.recs["ContinuousEvaluation"]["fields"] if "ContinuousMap" in f["t"]][0])
        self.tev = T("fld", self.ev, "temperature")
        self.E = T("fld", T("fld", p, "energy"), "$get@double")
        field = T("deref", T("fld", T("deref", T("fld", p, "cell")), "temperature"))
        self.t = {"GetCrossSection": T("call", "ScalarField::at", field, T("fld", p, "position")), "GetMajorant": T("fld", field, "upper_bound")}
        self.awr = T("fld", self.this, "awr")

    def thermal(self):
        return T("ite", self.has, T("call", "ThermalScattering::IsValid", self.tsl, self.p), FALSE)

    def adjust(self, t):
        """ratio of the cross section seen by a particle among moving targets to that among resting ones"""
        a = spec("a*e/(k*t)", a=self.awr, e=self.E, k=K, t=t)
        return to_poly(spec("(1+1/(2*a))*erf(sqrt(a))+exp(0-a)/sqrt(p*a)", a=a, p=PI))

    def table(self):
        return Poly.a(T("call", "ContinuousMap::at", self.xs, self.E))


class Facts:
    """outcome of the conditions the reference asks for, from those the code asked for"""

    def __init__(self, ref, conds):
        self.ref, self.conds = ref, conds

    def plain(self, c):
        return self.conds.get(c)

    def same(self, a, b):
        x = self.conds.get(T("eq", a, b))
        return self.conds.get(T("eq", b, a)) if x is None else x

    def zero(self, t):
        """a temperature is not negative"""
        x = self.conds.get(T("zero", t))
        if x is None:
            x = self.conds.get(T("neg0", to_poly(t).scale(-1).term()))
            x = None if x is None else not x
        return x

    def light(self):
        a = to_poly(self.ref.awr)
        for q, same_ in ((Poly.c(1) - a, False), (a - Poly.c(1), True)):
            x = self.conds.get(T("neg0", q.term()))
            if x is not None and (not same_ or x):
                return x if same_ else not x
        return None

    def slow(self, t):
        """energy below a multiple of kT/awr; (outcome, multiple)"""
        for c, x in self.conds.items():
            if c.op != "neg0":
                continue
            q = strip(clear(to_poly(c.args[0])))
            for (k1, v1), (k2, v2) in permutations_of(q):
                if as_set(k1) == {(self.ref.E, 1), (self.ref.awr, 1)} and as_set(k2) == {(K, 1), (t, 1)} and v1 * v2 < 0:
                    return (x if v1 > 0 else not x), -v2 / v1
        return None, None


def strip(p):
    from ..grid import strip_monomial
    return strip_monomial(p)


def as_set(k):
    return {(a, int(e)) for a, e in k if e.denominator == 1} if all(e.denominator == 1 for a, e in k) else set()


def permutations_of(q):
    it = list(q.m.items())
    return [(it[0], it[1]), (it[1], it[0])] if len(it) == 2 else []


def expected(ref, name, f):
    """[(description, value)] of the cross section the facts allow"""
    def thermal():
        h = f.plain(ref.has)
        if h is False:
            return False
        v = f.plain(T("call", "ThermalScattering::IsValid", ref.tsl, ref.p))
        return v if h or v is False or not ref.opt else None

    def options(x):
        return (True, False) if x is None else (x,)
    out = []
    t = ref.t[name]
    for th in options(thermal()):
        if th:
            out.append(("thermal", Poly.a(T("call", "ThermalScattering::GetTotal" if name == "GetCrossSection" else "ThermalScattering::GetMajorant", ref.tsl, ref.p))))
            continue
        for near in options(f.plain(T("call", "ContinuousEvaluation::IsValid", ref.ev, t))):
            if near:
                out.append(("evaluated near this temperature", ref.table()))
                continue
            for neutron in options(f.same(T("fld", ref.p, "type"), T("enum", "Particle::Type::neutron"))):
                if not neutron:
                    out.append(("not a neutron", ref.table()))
                    continue
                for light in options(f.light()):
                    for slow in ((True,) if light else options(f.slow(t)[0])):
                        if not slow:
                            out.append(("fast", ref.table()))
                            continue
                        for zt in options(f.zero(t)):
                            for ze in options(f.zero(ref.tev)):
                                v = ref.table()
                                if not ze:
                                    v = v * ref.adjust(ref.tev).pow(-1)
                                if not zt:
                                    v = v * ref.adjust(t)
                                out.append(("free gas%s%s%s" % (", light" if light else "", ", evaluated at zero" if ze else "", ", at zero" if zt else ""), v))
    return out


def subst_upd(t, p):
    """a particle of which only the event was set is the same to the thermal library"""
    if t.op == "agg" and t.args[0] is p and all(n == ("event",) for n, v in t.args[1]):
        return p
    if not contains(t, lambda x: x.op == "agg"):
        return t
    return T(t.op, *[subst_upd(a, p) if isinstance(a, T) else a for a in t.args])


def run(P, C):
    p = T("var", "p", "pt")
    ref = Ref(P, p)
    base = "ContinuousReaction"
    for name in ("GetCrossSection", "GetMajorant"):
        k = virtual_impl(P, ref.cls, base, name)
        r = Run(P, k, args=[p], inline=inline)
        n = set()
        for path, e, x in paths(P, r.value):
            C.count("cases")
            f = Facts(ref, path.cond)
            want = expected(ref, name, f)
            ok = x is not None and all(equal(x, v.term()) for d, v in want)
            key = "%s:%s" % (name, " or ".join(sorted({d for d, v in want})))
            n |= {d for d, v in want}
            C.ob(ok, key, loc(P, k), "with %s it is %s" % ("; ".join("%s%s" % ("" if b else "not ", show(c)[:120]) for c, b in path.cond.items()), "undefined" if x is None else show(x)[:300]))
            s, c = f.slow(ref.t[name])
            if c is not None:
                C.ob(100 <= c <= 2000, "%s:range of the free gas model" % name, loc(P, k), "limit is %s kT/awr" % c)
        C.ob(len(n) >= 9, "%s:cases found" % name, loc(P, k), str(sorted(n)))
    # the other reactions have tabulated cross sections
    for cls in concrete(P, base):
        if cls == ref.cls:
            continue
        for name in ("GetCrossSection", "GetMajorant"):
            k = virtual_impl(P, cls, base, name)
            r = Run(P, k, args=[p], inline=lambda k2, g: inline(k2, g))
            v = r.value
            # a virtual call on itself
            while v is not None and v.op == "call" and v.args[0] in (base + "::GetCrossSection", base + "::GetMajorant") and v.args[1] is ref.this and v.args[2] is p:
                v = Run(P, virtual_impl(P, cls, base, last(v.args[0])), args=[p], inline=inline).value
            C.count("cases")
            C.ob(same(v, ref.table().term()), "%s::%s:tabulated value at the particle's energy" % (cls, name), loc(P, k), "is %s" % show(v)[:200])
    # every reader asks the same question
    k = virtual_impl(P, ref.cls, base, "ModifiesTotal")
    v = Run(P, k, args=[p], inline=inline).value
    for path, e, x in paths(P, v):
        C.count("cases")
        for q, e2, y in paths(P, ref.thermal(), start=path):
            C.ob(x is y, "ModifiesTotal:exactly where the thermal library replaces the cross section", loc(P, k), "is %s" % show(v)[:200])
    k = virtual_impl(P, ref.cls, base, "Interact")
    r = Run(P, k, args=[p], inline=lambda k2, g: inline(k2, g) and (bool(g.get("lambda")) or short(g["q"]).split("::")[0] == ref.cls or str(g["loc"]).split(":")[0] == str(P.fns[k]["loc"]).split(":")[0]))
    valid = T("call", "ThermalScattering::IsValid", ref.tsl, p)
    bare = lambda t: subst_upd(t, p)
    sites = {}

    def delta(q, e, facts):
        f = {bare(c): b for c, b in facts.items()}
        has, val = known(f, ref.has) if ref.opt else True, known(f, valid)
        if has is False or val is False:
            q = False
        elif has and val:
            q = True
        elif known(f, ref.thermal()) is not None:
            q = known(f, ref.thermal())
        th = e.kind == "call" and e.name == "ThermalScattering::Scatter"
        gas = e.kind == "call" and e.name == "Particle::Scatter" or e.kind == "write" and e.places and isinstance(e.places[0], T) and e.places[0].op == "fld" and e.places[0].args[0] is p and e.places[0].args[1] != "event"
        if th or gas:
            sites.setdefault((e, th), set()).add(q)
        return q
    fl = Flow(r)
    fl.explore("?", delta)
    for (e, th), qs in sites.items():
        C.count("collision laws")
        C.ob(qs == {th}, "Interact:thermal collision exactly where the thermal library is valid" if th else "Interact:other collision exactly where no thermal library is valid", r.loc(e), "validity known there: %s" % sorted(map(str, qs)))
        if th:
            C.ob(bare(r.c(e.this)) is ref.tsl and [bare(r.c(a)) for a in e.args] == [p], "Interact:thermal collision of this particle with this library", r.loc(e))
    n = [any(th is x for e, th in sites) for x in (True, False)]
    C.ob(all(n), "Interact:both laws found", loc(P, k), str(n))
    C.assumptions += ["real arithmetic", "temperatures are not negative, energies and mass ratios positive", "acceptance of a temperature is C21, validity and values of the thermal library C40, table lookup C20"]
