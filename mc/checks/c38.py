"""Velocities of target nuclei."""
from fractions import Fraction
from ..freegas import *

RULE = ("value numbering of the target velocity in the continuous-energy elastic collision: speed x/beta with beta^2 = A m/(2 k T), T the temperature of the particle's cell at its position, y = beta v; with probability 2/(sqrt(pi) y + 2) x = sqrt(-ln(u1 u2)), otherwise "
        "x = sqrt(-ln u1 - ln(u2) cos^2(pi u3/2)); the cosine about the incident direction uniform, accepted with probability sqrt(x^2 + y^2 - 2 x y mu)/(x + y), everything drawn anew after a rejection; the azimuth uniform")
MINIMUM = 8


def run(P, C):
    k, p, r, ev = collision(P)
    where = loc(P, k)
    C.ob(len(ev) >= 1, "collision scatters the particle", where)
    V = Env(P, p)
    Tm = T("call", "ScalarField::at", T("deref", T("fld", T("deref", T("fld", p, "cell")), "temperature")), T("fld", p, "position"))
    for e in ev:
        at = r.loc(e)
        kinds = set()
        fl = Flow(r)
        for c in cases(P, r, e, p):
            C.count("cases")
            if not C.ob(len(c.old) == 1, "target direction found", at, "%d" % len(c.old)):
                continue
            D1 = c.old[0]
            mu, az = cosine(D1.args[2]), angle(D1.args[3])
            C.ob(mu is not None, "target cosine is uniform", at, show(D1.args[2])[:200])
            C.ob(az is not None and az is not mu, "target azimuth is uniform", at, show(D1.args[3])[:200])
            # the temperature in use
            ts = {x for x in subterms(c.en) if x.op == "call" and last(str(x.args[0])) == "at" and "ScalarField" in str(x.args[0])}
            temp = local(ts, p)
            if not C.ob(temp is not None, "temperature of the cell at the position of the particle", at, "temperatures in use: %s" % [show(x)[:120] for x in ts]):
                continue
            beta = spec("sqrt(A*m/(2*k*T))", A=V.A, m=V.m, k=V.k, T=temp)
            y = spec("b*sqrt(2*E/m)", b=beta, E=V.E, m=V.m)
            D2 = c.new[0] if len(c.new) == 1 else None
            if not C.ob(D2 is not None, "relative velocity found", at):
                continue
            relv = [aggfield(D2.args[1], n) for n in "xyz"]
            if any(x is None for x in relv):
                relv = [aggfield(D2.args[1].args[1], n) for n in "xyz"]
            if mu is None or az is None or any(x is None for x in relv):
                continue
            pool = [x for x in draws(T("seq", *relv)) if x not in (mu, az)]
            sel = None
            for kind, n in (("first", 2), ("second", 3)):
                if len(pool) != n:
                    continue
                for us in permutations(pool, n):
                    env = dict(zip("abc", us))
                    xs = ["sqrt(-log(a*b))", "sqrt(-log(a)-log(b))"] if n == 2 else ["sqrt(-log(a)-log(b)*cos(pi*c/2)**2)"]
                    for xe in xs:
                        x = spec(xe, **env)
                        if all(same(relv[j], spec("A/(1+A)*(v*d-x/b*w)", A=V.A, v=spec("sqrt(2*E/m)", E=V.E, m=V.m), d=V.d[j], x=x, b=beta, w=T("fld", D1, "xyz"[j]))) for j in range(3)):
                            sel = (kind, x, us)
            if not C.ob(sel is not None, "target speed is sampled from one of the two distributions", at, "relative velocity is %s" % show(relv[0])[:600]):
                continue
            kind, x, us = sel
            kinds.add(kind)
            # which of them
            ok = len(c.facts) == 1
            if ok:
                (cond, pol), = c.facts.items()
                ds = [d for d in draws(cond) if d not in us and d not in (mu, az)]
                ok = len(ds) == 1 and below(cond, pol == (kind == "first"), ds[0], spec("2/(sqrt(pi)*y+2)", y=y))
            C.ob(ok, "chosen with the right probability (%s)" % kind, at, "%s distribution is used when %s" % (kind, [(show(a)[:400], b) for a, b in c.facts.items()]))
            # acceptance
            cm = D1.args[2]
            acc = spec("sqrt(x*x+y*y-2*x*y*m)/(x+y)", x=x, y=y, m=cm)
            hit = [(q, v, d) for q, v in c.exit for d in draws(q) if d not in us + (mu, az) and below(q, v, d, acc)]
            C.ob(hit, "accepted in proportion to the relative speed (%s)" % kind, at, "conditions at the end of the loop: %s" % [(show(q)[:500], v) for q, v in c.exit if draws(q)])
            if hit:
                marks = {}
                for n, t in (("the cosine", D1.args[2]), ("the speed", x), ("the choice", T("seq", *c.facts))):
                    for z in draw_events(fl, t):
                        marks[z] = n
                accev = draw_events(fl, T("seq", hit[0][2]))
                missed = stale(r, fl, accev, set(marks), c.facts)
                C.ob(not missed, "drawn anew after a rejection (%s)" % kind, at, "not drawn again: %s" % sorted({marks[z] for z in missed}))
        C.ob(kinds == {"first", "second"}, "both distributions are used", at, "found %s" % sorted(kinds))


def local(ts, p):
    """the only temperature used, if it is the local one"""
    if len(ts) != 1:
        return None
    t = next(iter(ts))
    return t if len(t.args) == 3 and t.args[2] is T("fld", p, "position") and contains(t.args[1], lambda x: x is T("fld", p, "cell")) and contains(t.args[1], lambda x: x.op == "fld" and x.args[1] == "temperature") else None


def below(cond, pol, d, bound):
    """the condition says that the draw is below the bound"""
    if cond.op != "neg0":
        return False
    q = to_poly(cond.args[0])
    if not pol:
        q = Poly.c(-1) * q
    co, rest = Poly(), Poly()
    for mono, cf in q.m.items():
        e = dict(mono)
        n = e.pop(d, 0)
        m = Poly({tuple(sorted(e.items(), key=lambda z: z[0].uid)): cf})
        if any(contains(a, lambda x: x is d) for a in e) or n not in (0, 1):
            return False
        co, rest = (co + m, rest) if n else (co, rest + m)
    # co positive: a sum of positive multiples of positive quantities
    if co.zero() or any(cf <= 0 for cf in co.m.values()):
        return False
    return same((co * to_poly(bound)).term(), rest.scale(-1).term())


def stale(r, fl, accev, marks, facts):
    missed = set()

    def delta(q, e, f):
        if e in accev:
            g = {strip_rng(a): b for a, b in dict(f).items()}
            if all(g.get(a) == b for a, b in facts.items()):
                missed.update(marks - q)
            return frozenset()
        return q | {e} if e in marks else q
    fl.explore(frozenset(), delta)
    return missed
