"""Kinematics of elastic collisions."""
from fractions import Fraction
from ..freegas import *

RULE = ("value numbering of the continuous-energy elastic collision, for each way in which the target may have been sampled: the energy and cosine handed to the particle must be those of v' = |V| Omega + v_cm with v_cm = (v + A v_T)/(1 + A), V = v - v_cm, "
        "v the incident velocity from energy and direction, v_T a vector along a direction obtained by turning the incident direction, Omega a direction with uniform cosine and azimuth about V (E' = m v'.v'/2, mu = d.v'/|v'|); identities are decided on normal forms of the expressions. "
        "The particle then takes exactly that energy and turns by that cosine at a uniform azimuth")
MINIMUM = 9


def run(P, C):
    k, p, r, ev = collision(P)
    where = loc(P, k)
    C.ob(len(ev) >= 1, "collision scatters the particle", where)
    V = Env(P, p)
    for e in ev:
        for c in cases(P, r, e, p):
            C.count("cases")
            at = r.loc(e)
            if not C.ob(len(c.old) == 1 and len(c.new) == 1, "one target direction and one outgoing direction", at,
                        "directions about the incident one: %s, about others: %s" % ([show(x)[:150] for x in c.old], [show(x)[:150] for x in c.new])):
                continue
            D1, D2 = c.old[0], c.new[0]
            rel = [aggfield(D2.args[1], n) for n in "xyz"]
            if any(x is None for x in rel) and D2.args[1].op == "new" and len(D2.args[1].args) == 2:
                rel = [aggfield(D2.args[1].args[1], n) for n in "xyz"]
            if not C.ob(all(x is not None for x in rel), "turned about a known velocity", at, show(D2.args[1])[:200]):
                continue
            # relative velocity: V = A/(1+A) (v - s D1)
            v = [spec("sqrt(2*E/m)*d", E=V.E, m=V.m, d=d) for d in V.d]
            t = V.vec(D1)
            speeds = []
            for j in range(3):
                q = to_poly(rel[j])
                co, rest = Poly(), Poly()
                lin = True
                for mono, cf in q.m.items():
                    d = dict(mono)
                    n = d.pop(t[j], 0)
                    lin = lin and n in (0, 1) and not any(x in d for x in t)
                    m = Poly({tuple(sorted(d.items(), key=lambda z: z[0].uid)): cf})
                    co, rest = (co + m, rest) if n else (co, rest + m)
                s = co * to_poly(spec("-(1+A)/A", A=V.A))
                want = spec("A/(1+A)*v", A=V.A, v=v[j])
                C.ob(lin and peq(rest, want) and not co.zero(), "V is the incident velocity in the centre of mass", at, "component %s of V is %s" % ("xyz"[j], show(rel[j])[:500]))
                speeds.append(s)
            C.ob(all(peq(s, speeds[0]) for s in speeds), "target velocity is along its direction", at)
            free = speeds[0] * to_poly(spec("sqrt(A)", A=V.A))
            C.ob(peq(free, rsub(free.term(), {V.A: const(1)})), "target speed does not depend on the mass ratio other than by its inverse root", at, "speed times root of the mass ratio is %s" % show(free.term())[:300])
            us = {cosine(D2.args[2]), angle(D2.args[3])}
            C.ob(None not in us and len(us) == 2, "isotropic in the centre of mass", at, "cosine %s, azimuth %s" % (show(D2.args[2])[:150], show(D2.args[3])[:150]))
            used = set(draws(T("seq", *rel, D1)))
            C.ob(not us & used, "outgoing direction has its own random numbers", at)
            # v' = |V| Omega + v_cm
            V2 = dot(rel, rel)
            o = V.vec(D2)
            out = [to_poly(spec("sqrt(a)*w", a=V2.term(), w=o[j])) + to_poly(v[j]) - to_poly(rel[j]) for j in range(3)]
            out = [x.term() for x in out]
            E = dot(out, out) * to_poly(spec("m/2", m=V.m))
            C.ob(peq(c.en, E), "energy is that of the outgoing velocity", at, "energy after the collision is %s" % show(c.en)[:400])
            ok = False
            for n in newdirs(c.mu, 1):
                cs = [aggfield(n.args[1], x) for x in "xyz"]
                if all(x is not None for x in cs) and all(peq(a, b) for a, b in zip(cs, out)):
                    ok = ok or peq(c.mu, dot(V.d, V.vec(n)))
            ok = ok or peq(c.mu, (dot(V.d, out) * dot(out, out).pow(Fraction(-1, 2))))
            C.ob(ok, "cosine is that of the outgoing velocity", at, "cosine of the deflection is %s" % show(c.mu)[:400])
    # what the particle makes of it
    k = fn(P, "Particle::Scatter")
    this = T("this")
    mu, en = T("var", "mu", "param", 0), T("var", "e", "param", 1)
    r = Run(P, k, this=this, args=[mu, en], inline=lambda k2, f: not (f.get("ctor") and short(f["q"]) == "Direction::Direction"))
    C.count("cases")
    d = strip_rng(r.final(T("fld", this, "direction")))
    ok = d.op == "new" and len(d.args) == 4 and d.args[1] is T("fld", this, "direction") and d.args[2] is mu and angle(d.args[3]) is not None
    C.ob(ok, "particle turns by the cosine at a uniform azimuth", loc(P, k), "new direction is %s" % show(d)[:300])
    g = r.final(T("fld", this, "energy"))
    C.ob(g is en, "particle takes the energy", loc(P, k), "new energy is %s" % show(g)[:200])
