"""Surface tracking needs a constant temperature."""
from ..spec import *
from ..effects import written
from .c34 import heap_class

RULE = ("the driver's constructor is analysed with symbolic input: every transport method that is built without the input naming 'cell delta', and every surface tracking method, is built under the condition that the temperature field of the driver's world "
        "is constant; paths with a surface tracking request (or none) and a varying field end in an exception; nothing else sets the method; the world's cells get the very field that is tested or a constant of their own; "
        "a field reports itself constant only if its value does not depend on position")
MINIMUM = 9
BASE, WORLD = "TransportMethod", "World"


def run(P, C):
    roots = []
    for k, f in nonimplicit(P).items():
        C.count("functions searched for assignments")
        for i, n in f["nodes"].items():
            if n["k"] in ("DeclRefExpr", "MemberExpr") and (n.get("glob") or n.get("field")) and BASE in n.get("t", "") and "ptr<" in n.get("t", "") and written(f, i):
                roots.append((k, n["name"] if n.get("glob") else last(n["field"])))
    if not C.ob(roots, "someone chooses the transport method", "src", "no function sets a transport method"):
        return
    stop = {WORLD, "EstimatorSet", "PerturbationSet"}
    for k, m in sorted(set(roots)):
        f = P.fns[k]
        cls = short(f["q"]).rsplit("::", 1)[0]
        if not C.ob(f.get("ctor") and len(f["params"]) == 1 and "xml_node" in f["params"][0]["t"], "chosen where a model is built", loc(P, k), "%s changes the transport method" % short(f["q"])):
            continue
        C.count("constructors")
        this = T("this")
        r = Run(P, k, this=this, inline=lambda k2, g: short(g["q"]).rsplit("::", 1)[0] not in stop or not g.get("ctor"))
        wf = [x["name"] for x in P.recs[cls]["fields"] if short(strip_type(x["t"])) == WORLD]
        tf = [x["name"] for x in P.recs[WORLD]["fields"] if "ScalarField" in x["t"]]
        if not C.ob(len(wf) == 1 and len(tf) == 1, "world and temperature found", loc(P, k), "%s %s" % (wf, tf)):
            continue
        world = r.final(T("fld", this, wf[0]))

        def constant(facts):
            for c, v in facts.items():
                if c.op == "call" and last(c.args[0]) == "IsConstant" and len(c.args) == 2 and fieldof(c.args[1], world, tf[0]):
                    return v
            return None
        methods = set(concrete(P, BASE))
        seen = 0
        for e in r.events("make"):
            if e.name not in methods:
                continue
            C.count("methods built")
            seen += 1
            facts = cfacts(r, e.facts)
            con = constant(facts)
            if surface(P, e.name):
                C.ob(con is True, "guard:%s" % e.name, r.loc(e), "%s is built although the temperature field of the world may vary; conditions on the way: %s" % (e.name, conds(facts)))
            else:
                C.ob(con is True or delta(facts), "guard:%s" % e.name, r.loc(e),
                     "%s is built without being asked for although the temperature field may vary; conditions on the way: %s" % (e.name, conds(facts)))
        C.ob(seen >= 2, "methods are built", loc(P, k), "%d" % seen)
        # a request for surface tracking ends in an exception
        thr = [e for e in r.events("throw") if constant(cfacts(r, e.facts)) is False]
        C.ob(thr, "varying fields are rejected", loc(P, k), "no exception under the condition that the field varies")
        # the value of the member: every alternative was built here
        w = [r.c(e.val) for e in r.events("write") if isinstance(e.val, T) and wrote(e, m)]
        for x in w or [r.final(T("fld", this, m))]:
            for pth, l in leaves(x):
                C.ob(heap_class(l) in methods or l.op == "bot", "method comes from the factory", loc(P, k), "transport method may be %s" % show(l)[:200])
    # the world hands the tested field to its cells
    stopc = ("Cell", "Material", "Nuclide", "CSGSurface")
    for k in ctors(P, WORLD):
        if not P.fns[k]["params"] or "xml_node" not in P.fns[k]["params"][0]["t"]:
            continue
        o = Obj(P, k, inline=lambda k2, g: short(g["q"]).split("::")[0] not in stopc)
        tf = [x["name"] for x in P.recs[WORLD]["fields"] if "ScalarField" in x["t"]]
        cf = [x["name"] for x in P.recs[WORLD]["fields"] if "Cell" in x["t"]]
        t = o.field(tf[0])
        for n in cf:
            cells = o.field(n)
            mk = {x for x in subterms(cells) if x.op == "new" and x.args[0] == "Cell"}
            C.ob(mk, "cells found", loc(P, k), show(cells)[:200])
            for x in mk:
                C.ob(x.args[-1] is t, "cells get the tested field", loc(P, k), "cells are given %s, the world tests %s" % (show(x.args[-1])[:200], show(t)[:200]))
    for k in ctors(P, "Cell"):
        f = P.fns[k]
        if len(f["params"]) != 4:
            continue
        o = Obj(P, k)
        C.count("constructors")
        tf = [x["name"] for x in P.recs["Cell"]["fields"] if "ScalarField" in x["t"]]
        for pth, l in leaves(o.field(tf[0])):
            ok = l is o.args[-1] or heap_class(l) and always_constant(P, heap_class(l))
            C.ob(ok, "own temperature of a cell is constant", loc(P, k), "the temperature of a cell may be %s" % show(l)[:200])
    # the guard means constancy
    p1, p2 = T("var", "p", "pt"), T("var", "q", "pt")
    for cls in concrete(P, "ScalarField"):
        for k in ctors(P, cls):
            o = Obj(P, k)
            kat, kc = virtual_impl(P, cls, "ScalarField", "at"), virtual_impl(P, cls, "ScalarField", "IsConstant")
            C.count("queries", 2)
            con = o.call(kc).value
            val = o.call(kat, [p1]).value
            for pth, l in leaves(con):
                facts = dict(pth)
                if l is FALSE:
                    continue
                if l is not TRUE:
                    add_fact(facts, l, True)
                v = assume_zero(val, facts)
                C.ob(not contains(v, lambda x: x is p1), "%s:constant means independent of position" % cls, loc(P, kc),
                     "%s reports itself constant when %s, but its value there is %s" % (cls, conds(facts), show(v)[:200]))


def fieldof(t, world, f):
    """t is the object the world's field member points to"""
    w = T("fld", world, f)
    while t.op in ("deref", "addr", "load"):
        t = t.args[0]
    if t is w:
        return True
    return t.op == "fld" and t.args[1] == f and t.args[0] is world


def conds(facts):
    return ", ".join("%s%s" % ("" if v else "not ", show(c)[:120]) for c, v in facts.items()) or "none"


def named(facts):
    out = []
    for c, v in facts.items():
        if c.op == "eq" and v:
            out += [x.args[0] for x in c.args if isconst(x) and isinstance(x.args[0], str)]
    return out


def delta(facts):
    return "cell delta" in named(facts)


def surface(P, cls):
    """methods that do not sample flights with a majorant"""
    k = virtual_impl(P, cls, BASE, "Transport")
    own = {x for x in reach(P, [k])[0] if short(P.fns[x]["q"]).split("::")[0] == cls} | {k}
    for x in own:
        if any(last(short(P.fns[c]["q"])) == "GetMicroscopicMajorant" for c in callgraph(P).get(x, ()) if c in P.fns):
            return False
    return True


def always_constant(P, cls):
    kc = virtual_impl(P, cls, "ScalarField", "IsConstant")
    return all(Obj(P, k).call(kc).value is TRUE for k in ctors(P, cls))


def assume_zero(t, facts):
    z = set()
    for c, v in facts.items():
        if c.op == "zero" and v:
            z.add(c.args[0])
        elif c.op == "eq" and v:
            for a, b in ((0, 1), (1, 0)):
                if isconst(c.args[b]) and c.args[b].args[0] == 0:
                    z.add(c.args[a])
    p = to_poly(t)
    q = Poly()
    for mono, co in p.m.items():
        if not any(a in z for a, n in mono):
            q = q + Poly({mono: co})
    return q.term()


def wrote(e, m):
    return any(isinstance(x, T) and (x.op == "fld" and x.args[1] == m or x.op != "fld" and last(show(x)) == m) for x in (e.places or ())) or e.name == m
