"""Flight distances follow the macroscopic cross section."""
from ..transport import *

RULE = ("value numbering of the flight distances of one arbitrary step on every path of every transport method: a flight to a collision must be a fresh exponential number divided by (number density of the current "
        "cell x current microscopic total or majorant), it must be chosen only where it is the shorter one, any other flight must be the distance to the nearest surface plus the nudge, along the direction")
MINIMUM = 6


def run(P, C):
    for cls in concrete(P, "TransportMethod"):
        m = Method(P, cls)
        r, p = m.r, m.p
        q = "Material::GetMicroscopicTotal" if m.kind == "surface" else "Material::GetMicroscopicMajorant"
        D = surface_distance(m)
        n = {}
        for s in m.steps:
            ev, fs, dr = s.stream
            C.count("paths between flights")
            what = plain_step(s, m)
            n[what] = n.get(what, 0) + 1
            facts = {}
            for a, pol in dict(fs).items():
                add_fact(facts, strip_rng(a), pol)
            d = strip_rng(under(deep_under(r.c, ev.args[0], fs), facts))
            if what == "surface":
                g = (to_poly(d) - to_poly(D)).term()
                C.ob(positive_constant(P, g), cls + ":just across the nearest surface", r.loc(ev), "distance is %s" % show(d)[:300])
                C.ob(compared(m, facts, q, False), cls + ":surface when it is nearer", r.loc(ev), "nothing on the path says that the surface is nearer than the collision")
            else:
                x = exponential(m, d, q)
                C.ob(x is not None, cls + ":exponential with the macroscopic cross section", r.loc(ev), "distance is %s" % show(d)[:300])
                if x is not None:
                    C.ob(any(contains(r.c(e.val), lambda y: y is x) for e in dr if isinstance(e.val, T)), cls + ":fresh random number for every flight", r.loc(ev),
                         "the flight distance is not drawn anew for the flight")
                    C.ob(compared(m, facts, q, True), cls + ":collision when it is nearer", r.loc(ev), "nothing on the path says that the collision is nearer than the surface")
        C.ob(n.get("surface", 0) >= 1 and n.get("collision", 0) >= 1, cls + ":both kinds of flights", loc(P, m.key), "kinds of flights: %s" % n)
        # the cell the first flight starts in
        for seq in m.before:
            ws = [x for x in seq if x[0].kind == "write" and x[0].places[0] is T("fld", p, "cell")]
            want = T("addr", T("deref", T("call", "World::FindCellContaining", m.w, T("fld", p, "position"))))
            C.ob(bool(ws) and r.c(ws[-1][0].val) is want, cls + ":first flight starts in the cell that contains the particle", loc(P, m.key),
                 "cell before the first flight: %s" % [show(r.c(x[0].val))[:200] for x in ws])
    # moving
    k = fn(P, "Particle::Stream")
    ps = P.fns[k]["params"]
    d = T("var", ps[0]["name"], "param", 0)
    th = T("this")
    r = Run(P, k, this=th, args=[d])
    pos = r.final(T("fld", th, "position"))
    for c in ("x", "y", "z"):
        v = r.c.fld(pos, c)
        ref = spec("a+b*d", a=T("fld", T("fld", th, "position"), c), b=T("fld", T("fld", th, "direction"), c), d=d)
        C.ob(same(v, ref), "Particle::Stream:position moves along the direction (%s)" % c, loc(P, k), "%s becomes %s" % (c, show(v)[:200]))
    dr = r.final(T("fld", th, "direction"))
    C.ob(dr is T("fld", th, "direction"), "Particle::Stream:direction unchanged", loc(P, k), "direction becomes %s" % show(dr)[:200])


def positive_constant(P, g):
    if isnum(g):
        return 0 < g.args[0] < 1e-2
    if g.op in ("glob", "named"):
        v = P.vars.get("g:" + g.args[0], {})
        return v.get("const") is True and (v.get("val") is None or 0 < v["val"] < 1e-2)
    return False


def compared(m, facts, q, collision):
    """the facts order the flight to a collision and that to the surface"""
    D = to_poly(surface_distance(m))
    for a, pol in facts.items():
        if a.op != "neg0":
            continue
        t = to_poly(a.args[0])
        for sg in (1, -1):
            # t = sg * (d - D)
            d = (t + D if sg == 1 else D - t).term()
            if exponential(m, d, q) is not None:
                first = pol if sg == 1 else not pol        # d < D
                if first is collision:
                    return True
    return False
