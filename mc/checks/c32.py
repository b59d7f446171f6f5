"""Source particles."""
from ..kine import *
from ..docs import allows
from .c34 import heap_class, node_attr

RULE = ("value numbering of the source: its sampling function is analysed with opaque distributions, its constructor and the distribution factory with symbolic input. Position, direction, energy and type of the particle must each be drawn once from the distribution "
        "built from the input element of that name, all from one generator seeded with the given seed and with no state of it used twice; for every alternative an element offers, the object that is built must sample the given value, a uniform cosine and azimuth, or, "
        "about the given reference, a cosine that is the square root of a uniform number and a uniform azimuth")
MINIMUM = 16
WHAT = (("position", "position"), ("direction", "direction"), ("energy", "energy"), ("type", "particletype"))


def run(P, C):
    k = fn(P, "Source::Sample")
    seed = T("var", "seed", "param", 0)
    opaque = lambda k2, f: not (last(short(f["q"])) == "Sample" and len(f["params"]) == 1 and f["params"][0]["t"].rstrip().endswith("&"))
    r = Run(P, k, this=T("this"), args=[seed], inline=opaque)
    part = r.value
    where = loc(P, k)
    ks = [x for x in ctors(P, "Source") if "xml_node" in P.fns[x]["params"][0]["t"]]
    node = T("var", "node", "carg", 0)
    o = Obj(P, ks[0], args=[node], inline=lambda k2, f: last(short(f["q"])) != "Create")
    states = []
    for part_field, elem in WHAT:
        C.count("sampled quantities")
        v = aggfield(part, part_field)
        if not C.ob(v is not None and v.op == "call" and last(v.args[0]) == "Sample", "%s:is sampled" % part_field, where, "%s of the particle is %s" % (part_field, show(v)[:200] if v is not None else "unknown")):
            continue
        src = v.args[1]
        while src.op in ("deref", "load"):
            src = src.args[0]
        ok = src.op == "fld" and src.args[0] is T("this")
        got = o.field(src.args[1]) if ok else src
        want = child(node, elem)
        ok = ok and got.op == "call" and last(got.args[0]) == "Create" and got.args[-1] is want
        C.ob(ok, "%s:from its own distribution" % part_field, where, "%s is sampled from %s, built from %s" % (part_field, show(src), show(got)[:200]))
        if ok:
            t = [f["t"] for f in P.recs["Source"]["fields"] if f["name"] == src.args[1]][0]
            alternatives(P, C, part_field, t)
        states.append((part_field, v.args[2]))
    rng = aggfield(part, "rng")
    sd = [x for x in subterms(rng) if x.op == "call" and "engine::operator()" in str(x.args[0])] if rng is not None else []
    if rng is not None:
        if sd and rng.op == "new":
            states.append(("its own generator's seed", sd[0].args[1]))
        else:
            states.append(("its own generator", rng))
    for n, s in states:
        base = s
        while base.op == "after":
            base = base.args[1]
        C.ob(base.op == "new" and len(base.args) == 2 and base.args[1] is seed, "%s:generator seeded with the given seed" % n, where, "generator is %s" % show(base)[:200])
    for i in range(len(states)):
        for j in range(i):
            a, b = states[i][1], states[j][1]
            ok = a is not b and (contains(a, lambda x: x is b) or contains(b, lambda x: x is a))
            C.ob(ok, "random numbers are not shared", where, "%s and %s are sampled from the same state of the generator" % (states[i][0], states[j][0]))


def alternatives(P, C, what, t):
    """what is built and sampled for every alternative"""
    el = t[t.index("Distribution<"):]
    depth = 0
    for n, ch in enumerate(el):
        depth += (ch == "<") - (ch == ">")
        if ch == ">" and depth == 0:
            el = el[:n + 1]
            break
    ks = [k for k in P.fns if P.fns[k]["q"] == el + "::Create"]
    if not C.ob(ks, "%s:factory found" % what, "src", "no function %s::Create" % el):
        return
    k = ks[0]
    prop = T("var", "property_node", "param", 0)
    r = Run(P, k, args=[prop])
    node = T("call", "pugi::xml_node::first_child", prop)
    nm = T("call", "pugi::xml_node::name", node)
    names = ["constant"] + (["isotropic", "isotropic-flux"] if what == "direction" else [])
    mode = T("call", "pugi::xml_node::name", T("call", "pugi::xml_node::first_child", child(child(T("call", "pugi::xml_node::root", prop), "minimc"), "nuclides")))
    for n in names:
        for m in (["multigroup", "continuous"] if what == "energy" else [None]):
            C.count("alternatives")
            who = "%s:%s%s" % (what, n, " " + m if m else "")
            hit = []
            for pth, l in leaves(r.value):
                f = dict(pth)
                if possible(f, nm, n) and (m is None or possible(f, mode, m)):
                    hit.append(l)
            if not C.ob(len(hit) == 1 and hit[0].op in ("addr", "heap"), who + ":is built", loc(P, k), "results: %s" % [show(x)[:100] for x in hit]):
                continue
            h = hit[0].args[0] if hit[0].op == "addr" else hit[0]
            mk = [e for e in r.events("make") if e.name == h.args[0] and (m is None or possible(cfacts(r, e.facts), mode, m)) and possible(cfacts(r, e.facts), nm, n)]
            if not C.ob(len(mk) == 1, who + ":one object", loc(P, k), "%d candidates" % len(mk)):
                continue
            args = [r.c(a) for a in mk[0].args]
            rng = T("var", "rng", "param", 0)
            kS = virtual_impl(P, h.args[0], el, "Sample")
            cs = [x for x in ctors(P, h.args[0]) if len(P.fns[x]["params"]) == len(args)]
            if cs:
                v = Obj(P, cs[0], args=args).call(kS, [rng]).value
            else:
                v = Run(P, kS, this=T("this"), args=[rng]).value
            v = strip_rng(v)
            judge(P, C, who, what, n, m, v, node, loc(P, kS))


def possible(facts, nm, n):
    return allows({nm: n}, facts.items())


def vector(node):
    return [node_attr(node, c) for c in "xyz"]


def judge(P, C, who, what, n, m, v, node, where):
    said = "sampled value is %s" % show(v)[:500]
    if what == "position":
        cs = components(v)
        C.ob(cs is not None and all(same(a, b) for a, b in zip(cs, vector(node))), who + ":the given point", where, said)
    elif what == "direction" and n == "constant":
        cs = components(v)
        want = [spec("a/sqrt(x*x+y*y+z*z)", a=a, x=vector(node)[0], y=vector(node)[1], z=vector(node)[2]) for a in vector(node)]
        C.ob(cs is not None and all(same(a, b) for a, b in zip(cs, want)), who + ":the given direction", where, said)
    elif what == "direction" and n == "isotropic":
        C.ob(isotropic(v) is not None, who + ":uniform cosine and azimuth", where, said)
    elif what == "direction":
        kd = [k for k in ctors(P, "Direction") if len(P.fns[k]["params"]) == 3 and "Direction" in P.fns[k]["params"][0]["t"]]
        kx = [k for k in ctors(P, "Direction") if len(P.fns[k]["params"]) == 1 and "xml_node" in P.fns[k]["params"][0]["t"]]
        if not C.ob(kd and kx, "direction constructors found", where):
            return
        ref = Obj(P, kx[0], args=[node])
        d = Run(P, kx[0], this=ref.place, args=[node])
        agg = T("agg", T("none"), tuple(((c,), ref.field(c)) for c in ("x", "y", "z")))
        got = components(v)
        ok = False
        if got is not None:
            ds = draws(T("seq", *got))
            for a, b in permutations(ds, 2):
                for mu in ("sqrt(a)", "sqrt(1-a)"):
                    for phi in ("2*pi*b", "pi*(2*b-1)", "-2*pi*b"):
                        w = Obj(P, kd[0], args=[agg, spec(mu, a=a), spec(phi, b=b)])
                        if all(same(g, w.field(c)) for g, c in zip(got, ("x", "y", "z"))):
                            ok = True
        C.ob(ok, who + ":cosine is the square root of a uniform number about the reference", where, said)
    elif what == "energy":
        s = T("call", "pugi::xml_attribute::as_string", T("call", "pugi::xml_node::attribute", node, const("energy")), const(""))
        want = [node_attr(node, "energy"), T("call", "std::stod", s, const(None))] if m == "continuous" else \
            [T("call", "std::stoull", s, const(None), const(10)), T("call", "std::stoul", s, const(None), const(10)), attr(node, "energy", "ullong"), attr(node, "energy", "uint")]
        C.ob(any(v is w for w in want), who + ":the given energy", where, said)
    else:
        s = T("call", "pugi::xml_attribute::as_string", T("call", "pugi::xml_node::attribute", node, const("type")), const(""))
        names = constants(P, "Particle::Type")
        for x in names:
            hit = {l for pth, l in leaves(v) if possible(dict(pth), s, x)}
            C.ob(len(hit) == 1 and next(iter(hit)).op == "enum" and last(next(iter(hit)).args[0]) == x, who + ":%s is a %s" % (x, x), where, said)
