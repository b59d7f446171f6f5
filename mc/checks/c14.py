"""Fate of a particle after a collision or a crossing."""
from ..kine import *
from ..docs import allows
from ..transport import Method
from ..select import Loops
from ..interp import snapshot
from .c31 import place_of, judge_dir, yields, collision

RULE = ("decision table of the predicate that ends a history over all events; on every path through a transport method a flight needs that predicate to hold and the end of the history needs it not to hold; "
        "on every path through a reaction the last event written is the one of the reaction that the factory creates it for (or that was selected), scattering hands a new direction and energy to the particle exactly once, "
        "and whatever is banked carries the position and cell of the collision")
MINIMUM = 40
EV = "Particle::Event::"
DEAD = ("capture", "leak", "fission")


def run(P, C):
    alive = lifecycle(P, C)
    for cls in concrete(P, "TransportMethod"):
        transport(P, C, cls, alive)
    made = created(P, C)
    for cls in concrete(P, "ContinuousReaction"):
        if C.ob(cls in made, cls + ":created for a reaction", loc(P, virtual_impl(P, cls, "ContinuousReaction", "Interact"))):
            reaction(P, C, cls, made[cls])
    multigroup(P, C)
    delegates(P, C)
    scatter(P, C)
    C.assumptions += ["particles are handed to a transport method newly born", "nuclear data hold the reactions' own names (ToReaction throws otherwise)"]


def lifecycle(P, C):
    k = fn(P, "Particle::IsAlive")
    r = Run(P, k, this=T("this"))
    ev = T("fld", T("this"), "event")

    def alive(v):
        return Canon()(rsub(r.value, {ev: v}))
    for n in constants(P, "Particle::Event"):
        v = alive(T("enum", EV + n))
        C.count("events")
        C.ob(isconst(v) and v.args[0] is (n not in DEAD), "IsAlive:%s %s" % (n, "ends the history" if n in DEAD else "does not end the history"), loc(P, k), "is %s" % show(v)[:200])
    return alive


def decided(facts, alive, v):
    """truth value of the predicate for the event v under the facts"""
    t = alive(v)
    if isconst(t):
        return t.args[0]
    facts = settled(facts)
    x = known(facts, t)
    if x is not None:
        return x
    poss = which_values(facts, v)
    vals = {alive(T("enum", EV + n)) for n in poss}
    if len(vals) == 1:
        x = vals.pop()
        return x.args[0] if isconst(x) else None
    return None


def which_values(facts, v):
    from .. import prog
    out = None
    for c, pol in facts.items():
        if c.op == "eq" and v in c.args:
            e = [a for a in c.args if a.op == "enum"]
            if e:
                n = last(e[0].args[0])
                out = out if out is not None else set(NAMES)
                out = out & {n} if pol else out - {n}
    return out if out is not None else set(NAMES)


NAMES = []


def transport(P, C, cls, alive):
    NAMES[:] = constants(P, "Particle::Event")
    m = Method(P, cls)
    r, p = m.r, m.p
    C.count("transport methods")
    cur = T("now", T("fld", p, "event"))
    L = Loops(m.flow)
    done = set()
    for s in m.steps:
        e, fs = s.stream[0], dict(s.stream[1])
        v = decided({**cfacts(r, e.facts), **fs}, alive, cur)
        ok = v is True
        if not ok:
            # tested where the loop is closed
            ok = closed(m, alive)
        key = (e, ok)
        if key not in done:
            done.add(key)
            C.ob(ok, cls + ":flies only while alive", r.loc(e), "not tested on a path")
    n = 0
    seen = set()
    for q, dec in m.flow.explore(0, lambda q, e, f: q):
        n += 1
        facts = dict(dec)
        v = strip_rng(deep_under(r.c, snapshot(r.st, T("fld", p, "event")), facts))
        x = decided({strip_rng(a): b for a, b in {**cfacts(r), **facts}.items()}, alive, v)
        if (v, x) not in seen:
            seen.add((v, x))
            C.ob(x is False, cls + ":a history ends only with its particle", loc(P, m.key), "ends with event %s" % show(v)[:200])
    C.ob(n >= 1, cls + ":histories end", loc(P, m.key))


def closed(m, alive):
    """every way around the loop of flights leads through the predicate holding for the event the particle then has"""
    r = m.r
    ev = [ph for ph in r.I.phi if ph.op == "loopphi" and ph.args[2] is T("fld", m.p, "event")]
    backs = {v for ph in ev for v in r.I.phi[ph][1]}
    if len(ev) != 1 or len(backs) != 1:
        return False
    raw = backs.pop()
    got = []

    def onback(edge, q, facts):
        v = strip_rng(deep_under(r.c, raw, facts))
        got.append(decided({strip_rng(a): b for a, b in facts.items()}, alive, v))
    m.flow.explore(0, lambda q, e, f: q, onback=onback)
    return bool(got) and all(x is True for x in got)


def created(P, C):
    """class -> event name, from what the factory does for each reaction name"""
    out = {}
    for k in fns(P, "ContinuousReaction::Create"):
        r = Run(P, k)
        for pth, l in leaves(r.value):
            hs = [x for x in subterms(l) if x.op == "heap"] + [x for x in subterms(l) if x.op == "new" and x.args[0] in P.recs and is_subclass(P, x.args[0], "ContinuousReaction")]
            if not hs:
                continue
            cls = hs[0].args[0]
            asked = {x for c, _ in pth for x in subterms(c) if x.op == "call" and x.args[0] == "pugi::xml_node::name"}
            said = {x.args[0] for c, _ in pth for x in subterms(c) if isconst(x) and isinstance(x.args[0], str)}
            names = {n for n in said | set(constants(P, "Reaction")) if allows({x: n for x in asked}, pth)}
            if not names:
                continue
            C.count("reactions created")
            if C.ob(len(names) == 1, "factory:one reaction for each class", loc(P, k), "%s for %s" % (cls, names)):
                out[cls] = names.pop()
    return out


def reaction(P, C, cls, name):
    k = virtual_impl(P, cls, "ContinuousReaction", "Interact")
    p = T("var", "p", "param", 0)
    opq = ["Particle::Scatter", "ThermalScattering::SampleAlpha", "ThermalScattering::SampleBeta", "ScalarField::at"]
    if name != "fission":
        opq.append("Direction::Direction")
    r = Run(P, k, this=T("this"), args=[p], inline=lambda k2, f: short(f["q"]) not in opq and not table(f))
    fl, outs = outcomes(r, p, calls=("Particle::Scatter",))
    where = loc(P, k)
    C.ob(len(outs) >= 1, cls + ":returns", where)
    for o in outs:
        C.count("paths through reactions")
        event(C, r, cls, o, p, {name}, where)
        sc = [e for e, f in o.seq if e.kind == "call" and e.name == "Particle::Scatter"]
        wd = [e for e, f in o.seq if e.kind == "write" and place_of(e, p) in ("direction", "energy")]
        if name == "scatter":
            C.ob(len(sc) == 1 and not wd, cls + ":scattered exactly once", where, "%d times" % len(sc))
        else:
            C.ob(not sc and not wd, cls + ":direction and energy are those of the collision", where)
        bk = [(e, f) for e, f in o.seq if banks(e)]
        C.ob(name == "fission" or not bk, cls + ":only fission banks", where)
    if name == "fission":
        bk = {(e, f) for o in outs for e, f in o.seq if banks(e)}
        C.ob(bool(bk), cls + ":banks", where)
        for e, f in bk:
            new = banked(C, r, cls, e, dict(f), p)
            if new is None:
                continue
            ns = integer_of({strip_rng(a): b for a, b in dict(f).items()})
            E = T("fld", T("fld", p, "energy"), "$get@double")
            ok = any(mean_yield(P, n, q, E) for n, q in ns)
            C.ob(ok, cls + ":number of secondaries is the integer part of the yield plus a uniform number", r.loc(e), "counted loops: %s" % [show(n)[:200] for n, q in ns])
            d = direction_of(new)
            judge_dir(C, r, cls + ":secondary", e, d, {x for c in f for x in draws(strip_rng(c[0]))})
            marks = draw_events(fl, d)
            miss = fresh_between(fl, e, marks)
            C.ob(len(marks) >= 1 and not miss, cls + ":every secondary has its own direction", r.loc(e))
        C.ob(len({e for e, f in bk}) == 1, cls + ":one secondary per unit of the yield", where)
        L = Loops(fl)
        for n in fl.nodes:
            for e in fl.nodes[n]:
                if any(e is b for b, _ in bk):
                    C.ob(bool(L.of(n)), cls + ":one secondary for each", r.loc(e))


def table(f):
    return short(f["q"]).startswith("ContinuousMap") and last(short(f["q"])) == "at"


def mean_yield(P, n, q, E):
    """the loop bound is trunc(yield table at the incident energy + u)"""
    if n.op != "trunc":
        return False
    x = to_poly(n.args[0])
    ds = [d for d in draws(n.args[0]) if any(k == ((d, 1),) for k in x.m)]
    if len(ds) != 1:
        return False
    y = x - Poly.a(ds[0])
    if contains(y.term(), lambda z: z is ds[0]):
        return False
    y = y.term()
    return y.op == "call" and y.args[0].startswith("ContinuousMap") and y.args[-1] is E and contains(y.args[1], lambda z: z.op == "fld" and z.args[0] is T("this"))


def direction_of(new):
    d = aggfield(new, "direction")
    if d is None:
        d = T("agg", T("none"), tuple(((n,), aggfield(new, "direction", n)) for n in ("x", "y", "z") if aggfield(new, "direction", n) is not None))
    return d


def event(C, r, key, o, p, names, where):
    w = o.writes(T("fld", p, "event"))
    if not C.ob(bool(w), key + ":event is recorded", where, "a path leaves the event alone"):
        return
    e, f = w[-1]
    v = deep_under(r.c, e.val, {**dict(f), **o.facts})
    C.ob(any(v is T("enum", EV + n) for n in names), key + ":event is the one of the reaction", r.loc(e), "event %s after %s" % (show(v)[:150], "/".join(sorted(names))))


def banked(C, r, key, e, facts, p):
    new = strip_rng(deep_under(r.c, e.val, facts))
    new = new.args[-1] if new.op == "upd" else new
    C.count("banked secondaries")
    get = lambda n: field_of(new, n)
    C.ob(get("position") is T("fld", p, "position"), key + ":secondaries start at the collision", r.loc(e), "position %s" % show(get("position"))[:200])
    C.ob(get("cell") is T("fld", p, "cell"), key + ":secondaries start in the current cell", r.loc(e), "cell %s" % show(get("cell"))[:200])
    C.ob(get("event") is T("enum", EV + "birth"), key + ":secondaries are newly born", r.loc(e), "event %s" % show(get("event"))[:200])
    t = get("type")
    C.ob(t is T("enum", "Particle::Type::neutron"), key + ":fission secondaries are neutrons", r.loc(e), "type %s" % show(t)[:200])
    return new


def field_of(new, n):
    v = aggfield(new, n)
    return v if v is not None else Canon().fld(new, n)


def multigroup(P, C):
    k, p, r = collision(P)
    fl, outs = outcomes(r, p)
    where = loc(P, k)
    key = lambda x: x.op == "fld" and x.args[1] == "first" or x.op == "first"
    seen = set()
    done = set()
    for o in outs:
        rk = which(P, "Reaction", o.facts, key)
        for e, f in o.seq:
            for kk, vv in which(P, "Reaction", dict(f), key).items():
                rk[kk] = rk.get(kk, vv) & vv
        sel = {next(iter(v)) for v in rk.values() if len(v) == 1}
        C.count("paths through multigroup collisions")
        if not C.ob(len(sel) == 1, "Multigroup:one reaction happens", where, "selected %s" % sel):
            continue
        seen |= sel
        event(C, r, "Multigroup:" + next(iter(sel)), o, p, sel, where)
        for e, f in o.seq:
            if banks(e) and (e, f) not in done:
                done.add((e, f))
                C.ob(sel == {"fission"}, "Multigroup:only fission banks", r.loc(e))
                banked(C, r, "Multigroup", e, dict(f), p)
    C.ob(seen == set(constants(P, "Reaction")), "Multigroup:every reaction has an outcome", where, "found %s" % seen)
    C.ob(bool(done), "Multigroup:banks", where)


def delegates(P, C):
    k = fn(P, "Nuclide::Interact")
    p = T("var", "p", "param", 0)
    r = Run(P, k, this=T("this"), args=[p], inline=lambda k2, f: last(short(f["q"])) != "Interact")
    fl, outs = outcomes(r, p, calls=("Interaction::Interact",) + tuple(c + "::Interact" for c in concrete(P, "Interaction")))
    maps = [f["name"] for f in P.recs["Nuclide"]["fields"] if "Interaction" in f["t"]]
    for o in outs:
        calls = [(e, f) for e, f in o.seq if e.kind == "call"]
        ok = len(calls) == 1 and len(o.seq) == 1
        if C.ob(ok, "Nuclide:a collision happens once", loc(P, k), "%d" % len(calls)):
            e, f = calls[0]
            w = strip_rng(deep_under(r.c, e.this, dict(f)))
            C.ob(any(contains(w, lambda x: x is T("fld", T("this"), n)) for n in maps) and contains(w, lambda x: x is T("fld", p, "type")), "Nuclide:with the data of the particle's own type", r.loc(e), "is %s" % show(w)[:200])
            C.ob(strip_rng(r.c(e.args[0])) is p, "Nuclide:of the colliding particle", r.loc(e))
    C.ob(bool(outs), "Nuclide:returns", loc(P, k))
    # the selection of a continuous-energy collision does not touch the particle itself
    for cls in concrete(P, "Interaction"):
        if cls == "Multigroup":
            continue
        k = virtual_impl(P, cls, "Interaction", "Interact")
        r = Run(P, k, this=T("this"), args=[p], inline=lambda k2, f: short(f["q"]) not in ("ContinuousReaction::Interact", "ContinuousReaction::GetCrossSection"))
        fl, outs = outcomes(r, p, calls=("ContinuousReaction::Interact", short(P.fns[k]["q"])))
        for o in outs:
            w = [e for e, f in o.seq if e.kind == "write"]
            n = [e for e, f in o.seq if e.kind == "call"]
            C.ob(not w, cls + ":only the selected reaction changes the particle", r.loc(w[0]) if w else loc(P, k))
            C.ob(len(n) == 1, cls + ":one reaction happens", loc(P, k), "%d" % len(n))


def scatter(P, C):
    """the particle takes the energy it is given"""
    k = fn(P, "Particle::Scatter")
    this = T("this")
    mu, E = T("var", "mu", "param", 0), T("var", "E", "param", 1)
    r = Run(P, k, this=this, args=[mu, E], inline=lambda k2, f: short(f["q"]) != "Direction::Direction")
    v = r.final(T("fld", this, "energy"))
    C.ob(strip_rng(v) is E, "Particle::Scatter:takes the new energy", loc(P, k), "energy %s" % show(strip_rng(v))[:200])
    d = strip_rng(r.final(T("fld", this, "direction")))
    C.ob(d is not T("fld", this, "direction") and contains(d, lambda x: x is mu), "Particle::Scatter:takes a new direction", loc(P, k), "direction %s" % show(d)[:200])
    C.ob(strip_rng(r.final(T("fld", this, "event"))) is T("fld", this, "event"), "Particle::Scatter:leaves the event alone", loc(P, k))
