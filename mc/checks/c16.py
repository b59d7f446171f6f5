"""Delta tracking decides collisions at the collision site."""
from ..transport import *

RULE = ("value numbering of the state at every real and every rejected collision of the delta tracking method: the flight must be drawn with the majorant, a collision happens exactly where a fresh "
        "uniform number is below (total at the site after the flight) / (majorant), the nuclide is sampled at that site, and a rejected collision writes nothing but the mark that it was rejected")
MINIMUM = 5
MAJ, TOT = "Material::GetMicroscopicMajorant", "Material::GetMicroscopicTotal"


def run(P, C):
    n = 0
    for cls in concrete(P, "TransportMethod"):
        m = Method(P, cls)
        if m.kind != "delta":
            continue
        n += 1
        r, p = m.r, m.p
        kinds = set()
        for s in m.steps:
            what = plain_step(s, m)
            C.count("paths between flights")
            if what == "surface":
                continue
            kinds.add(what)
            ev, fs, dr = s.stream
            d = deep_under(r.c, ev.args[0], fs)
            C.ob(exponential(m, d, MAJ) is not None, cls + ":flight drawn with the majorant", r.loc(ev), "distance is %s" % show(d)[:300])
            site = T("after", "Particle::Stream")
            if what == "collision":
                # Score and later events belong to the same path; the decision precedes the interaction
                ie, ifs = s.has("Nuclide::Interact")[0]
                C.ob(decided(m, s, ifs, ev, True), cls + ":accepted with probability total at the site over majorant", r.loc(ie),
                     "the interaction takes place under %s" % [(pol, show(a)[:160]) for a, pol in ifs if drawn(a)])
                sm = [x for x in s.has("Particle::SampleNuclide")]
                C.ob(len(sm) == 1 and s.seq.index(sm[0]) < s.seq.index((ie, ifs)), cls + ":nuclide sampled after the flight", r.loc(ie), "nuclide is sampled %d times after the flight" % len(sm))
                if sm:
                    th = r.c(ie.this)
                    C.ob(contains(th, lambda x: x.op == "call" and x.args[0] == "Particle::SampleNuclide"), cls + ":the sampled nuclide interacts", r.loc(ie), "interacts with %s" % show(th)[:200])
            else:
                last_fs = s.facts if not s.seq else dict(s.seq[0][1]) | s.facts
                pol_ok = any(decided(m, s, x, ev, False) for x in [y[1] for y in s.seq] + [frozenset(s.facts.items())])
                C.ob(pol_ok, cls + ":rejected otherwise", r.loc(ev), "a flight ends neither at a surface nor in a collision without a decision at the site")
                for w in s.seq:
                    if w[0].kind == "write" and before_score(s, w):
                        f = place_first(w[0].places[0], p)
                        C.ob(f in ("event", "rng"), cls + ":rejection changes nothing else", r.loc(w[0]), "a rejected collision writes %s" % show(w[0].places[0]))
                        if f == "event":
                            v = r.c(w[0].val)
                            C.ob(v is T("enum", "Particle::Event::virtual_collision"), cls + ":rejection is marked as such", r.loc(w[0]), "event becomes %s" % show(v)[:200])
        C.ob(kinds == {"collision", "virtual"}, cls + ":real and rejected collisions", loc(P, m.key), "ends of flights inside a cell: %s" % sorted(kinds))
    C.ob(n >= 1, "a delta tracking method exists", "src/TransportMethod.cpp", "no delta tracking method found")


def before_score(s, w):
    i = s.seq.index(w)
    return not any(x[0].name == "EstimatorSetProxy::Score" for x in s.seq[:i])


def drawn(a):
    return contains(a, lambda x: x.op in ("xi", "draw"))


def decided(m, s, fs, stream, accept):
    """the facts contain the decision fresh uniform < total(site)/majorant with the given outcome"""
    p, r = m.p, m.r
    cell = T("now", T("fld", p, "cell"))
    facts = {}
    for a, pol in dict(fs).items():
        add_fact(facts, a, pol)
    for a, pol in facts.items():
        a = strip_rng(a)
        if a.op == "draw" and "bernoulli" in a.args[0]:
            pr = next((x for x in a.args[1:] if isinstance(x, T) and x.op == "new" and "bernoulli" in str(x.args[0])), None)
            if pr is not None and ratio(m, pr.args[1], stream) and pol is accept:
                return True
        if a.op == "neg0":
            for u in draws(a):
                # u*majorant - total < 0, or u - total/majorant < 0
                t = to_poly(a.args[0])
                for x in subterms(a.args[0]):
                    if x.op == "call" and x.args[0] == TOT and site_of(m, x, stream):
                        for y in subterms(a.args[0]):
                            if y.op == "call" and y.args[0] == MAJ and maj_of(m, y, stream):
                                for ref in (Poly.a(u) * Poly.a(y) - Poly.a(x), Poly.a(u) - Poly.a(x) * Poly.a(y).pow(-1)):
                                    if (t - ref).zero() and pol is accept or (t + ref).zero() and pol is not accept:
                                        return True
    return False


def ratio(m, v, stream):
    for x in subterms(v):
        if x.op == "call" and x.args[0] == TOT and site_of(m, x, stream):
            for y in subterms(v):
                if y.op == "call" and y.args[0] == MAJ and maj_of(m, y, stream) and (to_poly(v) - Poly.a(x) * Poly.a(y).pow(-1)).zero():
                    return True
    return False


def same_material(m, t):
    """the material of the cell the flight takes place in (streaming does not change the cell)"""
    for x in subterms(t):
        if x.op == "fld" and x.args[1] == "cell" and x.args[0].op == "after" and x.args[0].args[0] != "Particle::Stream":
            return False
    return t.op == "deref" and t.args[0].op == "fld" and t.args[0].args[1] == "material" and \
        t.args[0].args[0].op == "deref" and (t.args[0].args[0].args[0] is T("now", T("fld", m.p, "cell")) or
                                             t.args[0].args[0].args[0].op == "fld" and t.args[0].args[0].args[0].args[1] == "cell" and moved(t.args[0].args[0].args[0].args[0], m))


def moved(t, m):
    """the particle after the flight and before anything else"""
    return t.op == "after" and t.args[0] == "Particle::Stream" and t.args[1] is T("now", m.p)


def site_of(m, x, stream):
    return same_material(m, x.args[1]) and moved(x.args[2], m)


def maj_of(m, x, stream):
    return same_material(m, x.args[1]) and (moved(x.args[2], m) or x.args[2] is T("now", m.p))
