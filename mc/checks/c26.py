"""What a tally scores, and in which bin."""
from ..spec import *
from .c34 import node_attr

RULE = ("value numbering of the score and the bin of an offered particle: the score of a current tally, as a decision table over all events and over "
        "whether the particle's last surface is the tally's, must be one for crossings and leaks at that surface and zero otherwise; the surface is the one "
        "the input names; the cosine axis is asked for the inner product of the given reference direction and the particle's direction exactly where the input has such an axis, "
        "the energy axis for the particle's energy or group; both axes are those the input describes under their names")
MINIMUM = 12


def run(P, C):
    score(P, C)
    surface(P, C)
    bins(P, C)


def decide(t, env):
    """follow the conditions of a term whose truth is given; what is left"""
    while t.op == "ite":
        c = t.args[0]
        v = env(c)
        if v is None:
            return t
        t = t.args[1] if v else t.args[2]
    return t


def score(P, C):
    k = virtual_impl(P, "CurrentEstimator", "Scorable", "GetScore")
    f = P.fns[k]
    r = Run(P, k, this=T("this"))
    p = T("var", f["params"][0]["name"], "param", 0)
    v = r.value
    mine = surface_field(P)
    ev, sf = T("fld", p, "event"), T("fld", p, "current_surface")
    names = events(P)
    for name in names:
        for on in (True, False):
            C.count("cases")

            def env(c):
                if c.op == "eq" and ev in c.args:
                    o = c.args[1] if c.args[0] is ev else c.args[0]
                    if o.op == "enum":
                        return last(str(o.args[0])) == name
                if c.op == "eq" and sf in c.args:
                    o = c.args[1] if c.args[0] is sf else c.args[0]
                    if o is T("fld", T("this"), mine):
                        return on
                if c.op == "eq" and all(x.op in ("addr", "deref", "fld", "call") for x in c.args):
                    # the objects behind the two pointers
                    if {strip(x) for x in c.args} == {sf, T("fld", T("this"), mine)}:
                        return on
                if c.op == "ite":
                    x = decide(c, env)
                    if isconst(x):
                        return bool(x.args[0])
                    return env(x) if x.op != "ite" else None
                return None
            got = decide(v, env)
            if got.op != "ite" and not isnum(got) and env(got) is not None:
                got = const(int(env(got)))
            want = 1 if on and name in ("surface_cross", "leak") else 0
            C.ob(isnum(got) and got.args[0] == want, "score of event %s %s the tally's surface" % (name, "at" if on else "elsewhere than at"), loc(P, k),
                 "scores %s instead of %d" % (show(got)[:300], want))


def strip(x):
    while x.op in ("addr", "deref") or x.op == "call" and last(str(x.args[0])) == "get" and len(x.args) == 2:
        x = x.args[-1]
    return x


def events(P):
    for q, e in P.enums.items():
        if q.endswith("Particle::Event"):
            return [x["name"] for x in e["consts"]]
    raise AnalysisError("enumeration of events not found")


def surface_field(P):
    fs = [x["name"] for x in P.recs["CurrentEstimator"]["fields"] if "CSGSurface" in x["t"]]
    if len(fs) != 1:
        raise AnalysisError("surface of CurrentEstimator not found")
    return fs[0]


def surface(P, C):
    for k in ctors(P, "CurrentEstimator"):
        o = Obj(P, k, inline=lambda k2, f: short(f["q"]) != "World::FindSurfaceByName" and "ParticleBins" not in f["q"])
        v = o.field(surface_field(P))
        nm = attr(o.args[0], "surface", "string")
        ok = v.op == "call" and v.args[0] == "World::FindSurfaceByName" and any(isinstance(x, T) and named(x, o.args[0], "surface") for x in v.args[1:])
        C.ob(ok, "the tally's surface is the one the input names", loc(P, k), "is %s" % show(v)[:200])
        ok = named(o.field("name"), o.args[0], "name")
        C.ob(ok, "the tally's name is the one in the input", loc(P, k), "is %s" % show(o.field("name"))[:200])


def named(t, node, a):
    """text of attribute a of the node"""
    w = T("call", "pugi::xml_node::attribute", node, const(a))
    while t.op in ("new", "call") and (t.op == "new" and "basic_string" in str(t.args[0]) or last(str(t.args[0])) in ("as_string", "value", "c_str", "basic_string", "string")) and any(isinstance(x, T) for x in t.args[1:]):
        t = next(x for x in t.args[1:] if isinstance(x, T))
    return t is w


def leaves_of(t, conds=()):
    if t.op == "ite":
        return leaves_of(t.args[1], conds + ((t.args[0], True),)) + leaves_of(t.args[2], conds + ((t.args[0], False),))
    return [(conds, t)]


def bins(P, C):
    cs = [k for k in ctors(P, "ParticleBins") if "xml_node" in P.fns[k]["params"][0]["t"]]
    if len(cs) != 1:
        raise AnalysisError("constructor of ParticleBins not found")
    o = Obj(P, cs[0], inline=lambda k, f: bool(f.get("lambda")) or f.get("cls") == "ParticleBins" and not f["ctor"])
    node = o.args[0]
    cos, en = child(node, "cosine"), child(node, "energy")
    mk = {n: T("call", "Bins::Create", T("call", "pugi::xml_node::first_child", x)) for n, x in (("cosine", cos), ("energy", en))}
    k = fn(P, "ParticleBins::GetIndex")
    p = T("var", "p", "pt")
    has = T("call", "exists", cos)
    r = o.call(k, [p], inline=lambda k2, f: short(f["q"]) not in ("Bins::GetIndex", "Direction::Direction") and last(short(f["q"])) != "GetIndex")
    v = r.value
    for n, x in mk.items():
        ok = any(o.field(fl["name"]) is x for fl in P.recs["ParticleBins"]["fields"])
        C.ob(ok, "%s bins are those described under that name" % n, loc(P, cs[0]), "members are %s" % [show(o.field(fl["name"]))[:150] for fl in P.recs["ParticleBins"]["fields"]])
    u = [node_attr(cos, c) for c in "uvw"]
    d = T("new", "Direction", *u)
    pd = T("fld", p, "direction")
    dots = Poly()
    for c in "xyz":
        dots = dots + Poly.a(T("fld", d, c)) * Poly.a(T("fld", pd, c))

    def calls(t, n):
        out = []
        for x in subterms(t):
            if x.op == "call" and last(str(x.args[0])) == "GetIndex" and len(x.args) == 3 and strip(x.args[1]) is strip(mk[n]):
                out.append(x)
        return out
    nleaf = 0
    for conds, leaf in leaves_of(v):
        axis = next((pol for c, pol in conds if c is has), None)
        if any(c.op == "call" and "GetIndex" in str(c.args[0]) for c, _ in conds):
            C.ob(False, "index of a particle", loc(P, k), "depends on %s" % [show(c)[:100] for c, _ in conds])
            continue
        nleaf += 1
        e = calls(leaf, "energy")
        C.ob(len(e) == 1 and energy(P, r, e[0].args[2], p, conds), "the energy axis is asked for the particle's energy", loc(P, k), "index is %s" % show(leaf)[:300])
        c = calls(leaf, "cosine")
        # without such an axis the reference direction must not be used at all
        if axis is False:
            C.ob(not any(x is d for y in c for x in subterms(y)), "no cosine without a cosine axis", loc(P, k), "index is %s" % show(leaf)[:300])
        elif axis is True:
            ok = len(c) == 1 and clear(to_poly(c[0].args[2]) - dots).zero()
            C.ob(ok, "the cosine axis is asked for the cosine to the reference direction", loc(P, k), "index is %s, expected cosine %s" % (show(leaf)[:400], show(dots.term())[:300]))
        else:
            C.ob(False, "the cosine axis is used where the input has one", loc(P, k), "index is %s" % show(leaf)[:300])
    C.count("index expressions", nleaf)


def energy(P, r, t, p, conds):
    """t is the number the particle's energy holds, whatever it holds"""
    E = T("fld", p, "energy")
    if t.op == "call" and last(str(t.args[0])) == "visit":
        xs = [x for x in t.args[1:] if isinstance(x, T)]
        if E not in xs:
            return False
        fs = [x for x in xs if x is not E]
        if any(x.op == "fld" and x.args[0] is E and x.args[1] == "$visit" for x in fs):
            return len(fs) == 1
        if len(fs) == 1 and fs[0].op in ("new", "agg"):
            cls = fs[0].args[0] if fs[0].op == "new" else fs[0].args[0].args[0]
            ks = [k for k in P.fns if P.fns[k].get("cls") == cls and P.fns[k]["name"] == "operator()"]
            C = 0
            for k in ks:
                r2 = Run(P, k, this=T("this"))
                q = T("var", P.fns[k]["params"][0]["name"], "param", 0)
                if r2.value is not q:
                    return False
                C += 1
            return C > 0
        if len(fs) == 1:
            return contains(fs[0], lambda x: x.op == "fld" and x.args[0] is E and x.args[1] == "$visit") and fs[0].op == "fld"
        return False
    # one of the alternatives, chosen by what the variant holds
    if t.op == "fld" and t.args[0] is E:
        return True
    if t.op == "ite":
        return all(energy(P, r, x, p, conds) for x in t.args[1:])
    return False
