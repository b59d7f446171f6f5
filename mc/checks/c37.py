"""Sensitivities follow the particle's indirect effects."""
from ..worker import *
from ..interp import root
from .c26 import named, strip, leaves_of

RULE = ("value numbering of every place that touches the indirect effects: a particle starts its transport with the effect zero for every perturbation of the "
        "input (typestate over the worker loop), every flight and every scatter adds for every perturbation, exactly once, that perturbation's own contribution for "
        "the particle as it is before the step, nothing else changes an effect; the score of a sensitivity is the tally's score times the effect of the perturbation it was "
        "made for, in the tally's own bins; one perturbation is made for every entry of the input and one sensitivity, of the tally it stands under, for every entry of a tally's list; "
        "a perturbation of a nuclide has no effect where the material does not contain it")
MINIMUM = 14


def run(P, C):
    updates(P, C)
    start(P, C)
    score(P, C)
    made(P, C)


def field_of(P):
    fs = [x["name"] for x in P.recs["Particle"]["fields"] if "map" in x["t"] and "Perturbation" in x["t"]]
    if len(fs) != 1:
        raise AnalysisError("indirect effects of a particle not found")
    return fs[0]


def updates(P, C):
    n = field_of(P)
    th = T("this")
    own = T("fld", th, n)
    writers = set()
    for q, callee in (("Particle::Stream", "Perturbation::Stream"), ("Particle::Scatter", "Perturbation::Scatter")):
        k = fn(P, q)
        f = P.fns[k]
        writers.add(k)
        r = Run(P, k, this=th, inline=lambda k2, f2: bool(f2.get("lambda")) or f2.get("cls") == "Particle")
        v = r.final(own)
        what = q + ":adds every perturbation's contribution once"
        if not (v.op == "map" and v.args[0] is own):
            C.ob(False, what, loc(P, k), "effects become %s" % show(v)[:300])
            continue
        ch = [x for x in v.args[1:]]
        ups = [y for x in ch for y in x]
        ok = len(ups) == 1
        if ok:
            path, w = ups[0]
            el = T("elem", own)
            old = T("fld", el, "second")
            d = to_poly(w) - Poly.a(old)
            t = d.term()
            ps = [T("var", p["name"], "param", i) for i, p in enumerate(f["params"])]
            ok = tuple(path) == ("second",) and t.op == "call" and t.args[0] == callee and strip(t.args[1]) is T("fld", el, "first") and len(t.args) == 3 + len(ps) and all(a is b for a, b in zip(t.args[3:], ps))
            if ok:
                # the particle as it is before the step
                for fl in P.recs["Particle"]["fields"]:
                    if fl["name"] == n:
                        continue
                    x = Canon().fld(t.args[2], fl["name"])
                    C.ob(x is T("fld", th, fl["name"]), "%s:contribution of the particle before the step" % q, loc(P, k), "%s is already %s" % (fl["name"], show(x)[:200]))
        C.ob(ok, what, loc(P, k), "effects become %s" % show(v)[:400])
    # nothing else changes them
    for k, f in sorted(P.fns.items()):
        if f.get("cls") != "Particle" or f["ctor"] or f["dtor"] or f.get("implicit") or k in writers or f.get("lambda"):
            continue
        if not any(m.get("name") == n for m in f["nodes"].values()):
            continue
        C.count("other functions that use the effects")
        r = Run(P, k, this=th, inline=lambda k2, f2: bool(f2.get("lambda")))
        v = r.final(own)
        if v is own:
            continue
        C.ob(zero_map(P, r, v, f), "%s:starts with zero for every perturbation" % short(f["q"]), loc(P, k), "effects become %s" % show(v)[:300])


def zero_map(P, r, v, f):
    """a map from every perturbation of the set handed in to zero"""
    p = T("var", f["params"][0]["name"], "param", 0) if f["params"] else None
    if v.op == "call" and p is not None:
        # made by a function of the set
        ks = P.byq.get(v.args[0]) or ()
        if len(ks) != 1 or len(v.args) != 2 or v.args[1] is not p:
            return False
        r2 = Run(P, ks[0], this=T("this"))
        return all_zero(r2.value, T("this"))
    return p is not None and all_zero(v, p)


def all_zero(v, owner):
    ins = inserted(v)
    kv = []
    for k, w in ins:
        if k.op in ("new", "agg"):
            kv.append((Canon().fld(k, "first"), Canon().fld(k, "second")))
        else:
            kv.append((k, w))
    if v.op in ("map", "agg") and v.args[0].op == "new" and str(v.args[0].args[0]).startswith("std::map"):
        # set by subscript: entries made are zero, or become zero
        keys = []
        for path, w in (y for x in v.args[1:] for y in x):
            if len(path) != 1 or not isinstance(path[0], T) or path[0].op != "ix":
                return False
            key = path[0].args[0]
            if w.op == "idx" and w.args[0] is v.args[0]:
                continue
            if w.op == "loop" and w.args[0].op == "idx" and w.args[0].args[0] is v.args[0]:
                w = w.args[1]
            if not (isnum(w) and w.args[0] == 0):
                return False
            keys.append(strip(key))
        return any(el.op == "elem" and el.args[0].op == "fld" and el.args[0].args[0] is owner for el in keys)
    if v.op == "map" or v.op == "agg":
        return False
    if v.op != "loop" or len(v.args) != 2 or not (v.args[0].op == "new" and str(v.args[0].args[0]).startswith("std::map")):
        return False
    if v.args[1].op == "ite" or not kv:
        # left out under a condition, or set by subscript
        x = v.args[1]
        if x.op == "agg" and x.args[0] is T("acc") and len(x.args[1]) == 1:
            path, w = x.args[1][0]
            if len(path) == 1 and isinstance(path[0], T) and path[0].op == "ix":
                kv = [(path[0].args[0], w)]
        if not kv or v.args[1].op == "ite":
            return False
    return all(el.op == "elem" and el.args[0].op == "fld" and el.args[0].args[0] is owner and isnum(w) and w.args[0] == 0 for el, w in [(strip(a), b) for a, b in kv])


def start(P, C):
    """typestate of the worker loop: effects are set right before the transport"""
    W = Worker(P)
    r, k = W.r, W.key
    bad = {}

    def note(what, e, msg):
        bad.setdefault(what, (r.loc(e), msg))
    n = [0]

    def delta(q, e, facts):
        nm = e.name or ""
        if e.kind == "call":
            if nm == "Particle::SetPerturbations":
                a = [r.c(x) for x in (e.places or e.args) if isinstance(x, T)]
                if not any(x.op == "fld" and x.args[1] == perturbations_field(P) for x in a):
                    note("effects of the driver's perturbations", e, "set from %s" % [show(x)[:100] for x in a])
                return ("set", r.c(e.this) if isinstance(e.this, T) else None)
            if nm == "Particle::Transport":
                n[0] += 1
                if not (isinstance(q, tuple) and q[0] == "set" and (not isinstance(e.this, T) or q[1] is None or same_particle(q[1], r.c(e.this)))):
                    note("effects are set before the transport", e, "a particle is transported whose effects are not set")
                return "moved"
            if nm in ("Bank::pop_back", "Bank::pop_front", "Bank::emplace_back"):
                return "other"
        return q
    W.flow.explore("none", delta)
    C.count("paths explored", W.flow.visited)
    C.ob(n[0] > 0, "particles are transported", loc(P, k), "no transport found")
    for what in ("effects of the driver's perturbations", "effects are set before the transport"):
        C.ob(what not in bad, what, *(bad.get(what, (loc(P, k), ""))))


def same_particle(a, b):
    def name(t):
        return [x.args[0] for x in subterms(t) if x.op == "call" and x.args[0] in ("Bank::back", "Bank::front")][:1]
    return a is b or name(a) == name(b)


def perturbations_field(P):
    fs = [x["name"] for c in ("Driver", "FixedSource") for x in P.recs[c]["fields"] if x["t"].replace("const ", "").strip().startswith("PerturbationSet")]
    if len(fs) != 1:
        raise AnalysisError("perturbations of the driver not found")
    return fs[0]


def score(P, C):
    for cls in concrete(P, "Sensitivity"):
        k = virtual_impl(P, cls, "Scorable", "GetScore")
        th = T("this")
        p = T("var", P.fns[k]["params"][0]["name"], "param", 0)
        n = field_of(P)
        for kc in ctors(P, cls):
            f = P.fns[kc]
            ie = [i for i, x in enumerate(f["params"]) if strip_type(x["t"]) == "Estimator"]
            ip = [i for i, x in enumerate(f["params"]) if strip_type(x["t"]) == "Perturbation"]
            if len(ie) != 1 or len(ip) != 1:
                C.ob(False, "%s:made of a tally and a perturbation" % cls, loc(P, kc), "parameters %s" % [x["t"] for x in f["params"]])
                continue
            o = Obj(P, kc)
            est, per = o.args[ie[0]], o.args[ip[0]]
            r = o.call(k, [p])
            v = r.value

            def is_effect(a):
                return a.op == "idx" and a.args[0] is T("fld", p, n) and strip(a.args[1]) is per

            def is_score(a):
                return a.op == "call" and last(str(a.args[0])) == "GetScore" and strip(a.args[1]) is est and a.args[2] is p
            ok = True
            for conds, leaf in leaves_of(v):
                if isnum(leaf) and leaf.args[0] == 0 and any(c.op == "zero" and pol and (is_effect(c.args[0]) or is_score(c.args[0])) for c, pol in conds):
                    continue
                fs = list(to_poly(leaf).m.items())
                ok = ok and len(fs) == 1 and fs[0][1] == 1 and len(fs[0][0]) == 2 and all(e == 1 for _, e in fs[0][0])
                if ok:
                    at = [a for a, _ in fs[0][0]]
                    ok = len([a for a in at if is_effect(a)]) == 1 and len([a for a in at if is_score(a)]) == 1
            C.ob(ok, "%s:score is the tally's times the perturbation's effect" % cls, loc(P, k), "score is %s" % show(v)[:300])
            b = [x for x in P.recs["Scorable"]["fields"] if "ParticleBins" in x["t"]]
            bv = o.field(b[0]["name"]) if b else None
            C.ob(bv is not None and bv is T("fld", est, b[0]["name"]), "%s:has the tally's bins" % cls, loc(P, kc), "bins are %s" % (show(bv)[:200] if bv is not None else None))


def made(P, C):
    # one perturbation per entry
    for k in ctors(P, "PerturbationSet"):
        o = Obj(P, k, inline=lambda k2, f: bool(f.get("lambda")))
        fl = [x["name"] for x in P.recs["PerturbationSet"]["fields"] if "vector" in x["t"]]
        v = o.field(fl[0]) if fl else T("void")
        node = o.args[0]
        ok = v.op == "vec" and v.args[0] is T("call", "size", node) and v.args[1].op == "call" and v.args[1].args[0] == "Perturbation::Create" and any(x is T("idx", node, v.args[2]) for x in v.args[1].args[1:])
        C.ob(ok, "one perturbation for every entry", loc(P, k), "perturbations are %s" % show(v)[:300])
    # one sensitivity per entry, of this tally
    for k in ctors(P, "Estimator"):
        f = P.fns[k]
        if not any("xml_node" in x["t"] for x in f["params"]):
            continue
        o = Obj(P, k, inline=lambda k2, f2: bool(f2.get("lambda")) or f2.get("cls") == "Estimator")
        fl = [x["name"] for x in P.recs["Estimator"]["fields"] if "Sensitivity" in x["t"]]
        v = o.field(fl[0]) if fl else T("void")
        node = child(o.args[0], "sensitivities")
        ok = v.op == "vec" and v.args[0] is T("call", "size", node) and v.args[1].op == "call" and v.args[1].args[0] == "Sensitivity::Create" and any(x is T("idx", node, v.args[2]) for x in v.args[1].args[1:])
        C.ob(ok, "one sensitivity for every entry of a tally", loc(P, k), "sensitivities are %s" % show(v)[:300])
        ev = [e for e in o.r.events("call") if e.name == "Sensitivity::Create"]
        for e in ev:
            pl = [x for x in (e.places or ()) if isinstance(x, T)]
            C.ob(any(root(x) is o.place or x is o.place for x in pl), "a sensitivity belongs to its tally", o.r.loc(e), "made for %s" % [show(x)[:80] for x in pl])
    k = fn(P, "Sensitivity::Create")
    r = Run(P, k, inline=lambda k2, f: False)
    ps = [T("var", x["name"], "param", i) for i, x in enumerate(P.fns[k]["params"])]
    v = r.value
    ok = v.op == "call" and last(str(v.args[0])) == "CreateSensitivity" and v.args[2] is ps[0] and v.args[3] is ps[2]
    if ok:
        t = strip(v.args[1])
        ok = t.op == "call" and last(str(t.args[0])) == "FindPerturbationByName" and t.args[1] is ps[1] and named(t.args[2], ps[0], "name")
    C.ob(ok, "a sensitivity is to the perturbation of its name", loc(P, k), "is %s" % show(v)[:300])
    for cls in concrete(P, "Perturbation"):
        k = virtual_impl(P, cls, "Perturbation", "CreateSensitivity")
        f = P.fns[k]
        r = Run(P, k, this=T("this"), inline=lambda k2, f2: False)
        est = T("var", f["params"][1]["name"], "param", 1)
        ev = [e for e in r.events("make") if e.name in P.recs and is_subclass(P, e.name, "Sensitivity")]
        ok = bool(ev)
        for e in ev:
            a = [x for x in e.args if isinstance(x, T)] + [x for x in (e.places or ()) if isinstance(x, T)]
            ok = ok and any(strip(r.c(x)) is est for x in a) and any(x is T("this") or strip(x) is T("this") for x in a)
        C.ob(ok, "%s:sensitivity of the given tally to this perturbation" % cls, loc(P, k), "makes %s" % [(e.name, [show(x) for x in e.args if isinstance(x, T)]) for e in ev])
        # no effect outside the materials concerned
        ks = virtual_impl(P, cls, "Perturbation", "Stream")
        nf = [x["name"] for x in P.recs[cls]["fields"] if "Nuclide" in x["t"]]
        if not nf:
            continue
        p = T("var", P.fns[ks]["params"][0]["name"], "param", 0)
        r = Run(P, ks, this=T("this"))
        nu = T("fld", T("this"), nf[0])
        for conds, leaf in leaves_of(r.value):
            if isnum(leaf) and leaf.args[0] == 0:
                continue
            ok = any(contained(c, pol, p, nu) for c, pol in conds)
            C.ob(ok, "%s:no effect where the nuclide is absent" % cls, loc(P, ks), "%s under %s" % (show(leaf)[:150], [show(c)[:150] for c, _ in conds]))
        for kc in ctors(P, cls):
            o = Obj(P, kc, inline=lambda k2, f2: short(f2["q"]) != "World::FindNuclideByName")
            v = o.field(nf[0])
            ok = v.op == "call" and v.args[0] == "World::FindNuclideByName" and named(v.args[2], o.args[0], "nuclide")
            C.ob(ok, "%s:perturbs the nuclide it names" % cls, loc(P, kc), "nuclide is %s" % show(v)[:200])
            C.ob(named(o.field("name"), o.args[0], "name"), "%s:has the name of its entry" % cls, loc(P, kc), "name is %s" % show(o.field("name"))[:200])


def contained(c, pol, p, nu):
    """the condition says that the nuclide is in the particle's material"""
    if not contains(c, lambda x: x is T("fld", p, "cell")) or not contains(c, lambda x: x is nu):
        return False
    if c.op == "eq" and any(x.op == "call" and last(str(x.args[0])) == "find" for x in c.args) and any(x.op == "call" and x.args[0] in ("end", "cend") for x in c.args):
        return not pol
    if c.op == "zero" and contains(c, lambda x: x.op == "call" and last(str(x.args[0])) == "count"):
        return not pol
    if c.op in ("exists", "call"):
        return pol
    return False
