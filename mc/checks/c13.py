"""Every transport step is offered to the tallies once."""
from ..transport import *

RULE = ("typestate over all paths of every transport method, particle state at each offer by value numbering of one arbitrary step: after a flight that ends at a surface or a real collision the tallies "
        "must be offered the particle exactly once before the next flight or the end, with cell, event and surface of the end of that flight; the offer must reach every tally and every sensitivity once")
MINIMUM = 8
EV = "Particle::Event::"


def run(P, C):
    for cls in concrete(P, "TransportMethod"):
        m = Method(P, cls)
        r, p = m.r, m.p
        sc = "EstimatorSetProxy::Score"
        kinds = {"surface": 0, "collision": 0}
        for s in m.steps:
            C.count("paths between flights")
            offers = s.has(sc)
            cross = s.cellwrites(p) or [x for x in s.seq if x[0].kind == "call" and x[0].name == "World::FindCellContaining"]
            coll = s.has("Nuclide::Interact")
            where = r.loc(offers[0][0] if offers else s.stream[0])
            if len(offers) > 1:
                C.ob(False, cls + ":offered at most once", r.loc(offers[1][0]), "a step is offered %d times to the tallies" % len(offers))
            if not cross and not coll:
                # virtual collision
                for ev, fs in offers:
                    v = r.c.fld(m.arg(ev, fs), "event")
                    C.ob(v is T("enum", EV + "virtual_collision"), cls + ":virtual collisions are marked", r.loc(ev), "event is %s" % show(v)[:200])
                continue
            what = "surface" if cross else "collision"
            kinds[what] += 1
            C.ob(len(offers) >= 1, "%s:%s offered" % (cls, what), r.loc(s.stream[0]), "a step that ends at a %s is not offered to the tallies on some path" % what)
            for ev, fs in offers[:1]:
                i = s.seq.index((ev, fs))
                after = [x for x in s.seq[:i]]
                facts = dict(fs)
                v = m.arg(ev, fs)
                if what == "collision":
                    ok = v.op == "after" and v.args[0] == "Nuclide::Interact"
                    C.ob(ok and any(x in after for x in coll), cls + ":collision done before the offer", r.loc(ev), "offered with state %s" % show(v)[:300])
                    continue
                cell, event, surf, pos = (r.c.fld(v, f) for f in ("cell", "event", "current_surface", "position"))
                found = T("addr", T("deref", T("call", "World::FindCellContaining", m.w, pos)))
                C.ob(strip_rng(cell) is strip_rng(found), cls + ":cell of the end of the step", r.loc(ev), "cell is %s" % show(cell)[:300])
                mat = T("fld", r.c(T("deref", cell)), "material")
                event = strip_rng(event)
                lv = list(leaves(event))
                isnone = strip_rng(r.c(T("bin", "==", *sorted((T("const", None), mat), key=lambda t: t.uid))))
                want = r.c(T("ite", isnone, T("enum", EV + "leak"), T("enum", EV + "surface_cross")))
                sf = {}
                for a, pol in facts.items():
                    add_fact(sf, strip_rng(a), pol)
                C.ob(under(want, sf) is under(event, sf), cls + ":crossing or leak by the new cell's material", r.loc(ev), "event is %s" % show(event)[:300])
                n = [x for x in subterms(surf) if x.op == "call" and x.args[0] == "Cell::NearestSurface"]
                now = T("now", p)
                ns = T("call", "Cell::NearestSurface", T("deref", T("now", T("fld", p, "cell"))), T("now", T("fld", p, "position")), T("now", T("fld", p, "direction")))
                C.ob(strip_rng(surf) is T("fld", ns, "$0"), cls + ":surface that was crossed", r.loc(ev), "surface is %s" % show(surf)[:300])
        for seq in m.before:
            C.ob(not any(x[0].name == sc for x in seq), cls + ":nothing offered before the first flight", loc(P, m.key), "tallies are offered the particle before it has moved")
        for what, n in kinds.items():
            C.ob(n >= 1, "%s:%s steps exist" % (cls, what), loc(P, m.key), "no path ends a flight at a %s" % what)
    # the offer reaches every tally and every sensitivity
    k = fn(P, "EstimatorSetProxy::Score")
    each(P, C, k, "EstimatorProxy::Score", "every tally is offered the step once")
    k = fn(P, "EstimatorProxy::Score")
    each(P, C, k, "ScorableProxy::Score", "every tally and sensitivity is offered the step once", own=True)
    proxies(P, C)


def each(P, C, k, callee, what, own=False):
    """the callee is run once on every element of one member container (and once on the object itself)"""
    f = P.fns[k]
    r = Run(P, k, this=T("this"), inline=lambda k2, f2: short(f2["q"]) != callee)
    evs = [e for e in r.events("call") if e.name == callee]
    elems, self_ = [], []
    for e in evs:
        t = r.c(e.this) if isinstance(e.this, T) else T("this")
        (elems if contains(t, lambda x: x.op in ("elem", "idx")) else self_).append((e, t))
    want = 1
    C.ob(len(elems) == want and all(whole(r, e, t) for e, t in elems), "%s:%s" % (short(f["q"]), what), loc(P, k),
         "%s is called on %s" % (callee, [show(t)[:80] for e, t in elems]))
    if own:
        C.ob(len(self_) == 1 and uncond(r, self_[0][0]), "%s:the tally itself once" % short(f["q"]), loc(P, k), "%d calls on the tally itself" % len(self_))


def whole(r, e, t):
    """the call is made for every element: an unconditional statement of a loop over the whole container"""
    if t.op != "elem":
        return False
    fs = [a for a, pol in (e.facts or ())]
    # conditions other than the loop's own
    for a, pol in (e.facts or ()):
        c = r.c(a)
        if contains(c, lambda x: x.op in ("iterator", "iterator?", "iter", "counter", "counter?")) or isconst(c):
            continue
        if c.op == "eq" and any(x.op == "call" and x.args[0] in ("end", "begin") for x in subterms(c)):
            continue
        return False
    return True


def uncond(r, e):
    return all(isconst(r.c(a)) for a, pol in (e.facts or ()))


def proxies(P, C):
    """a proxy is made for every tally, and for every sensitivity of a tally"""
    for cls, src, made in (("EstimatorSetProxy", "estimators", "EstimatorProxy"), ("EstimatorProxy", "sensitivities", "ScorableProxy")):
        for k in ctors(P, cls):
            f = P.fns[k]
            o = Obj(P, k, inline=lambda k2, f2: True)
            ok, got = False, []
            for fl in P.recs[cls]["fields"]:
                if "vector" not in fl["t"]:
                    continue
                v = o.field(fl["name"])
                got.append(v)
                base = T("fld", o.args[0], src)
                if v.op == "vec" and v.args[0] is T("call", "size", base):
                    e = v.args[1]
                    ok = contains(e, lambda x: x is T("deref", T("idx", base, v.args[2])) or x is T("idx", base, v.args[2]))
            C.ob(ok, "%s:one %s for every element of %s" % (cls, made, src), loc(P, k), "proxies are %s" % [show(x)[:200] for x in got])
