"""Totals of materials and nuclides."""
from ..spec import *

RULE = ("value numbering of the totals: a material's total and majorant must be the sum over all its nuclides of the stored fraction times the nuclide's own total or majorant, "
        "a nuclide's total and majorant must be the sum of the same quantity over all its reactions (or the tabulated total), and every reaction of the input must be among those")
MINIMUM = 8


def run(P, C):
    this, p = T("this"), T("var", "p", "pt")
    # material: sum over nuclides
    for q, nq in (("Material::GetMicroscopicTotal", "Nuclide::GetTotal"), ("Material::GetMicroscopicMajorant", "Nuclide::GetMajorant")):
        k, nk = fn(P, q), fn(P, nq)
        r = Run(P, k, args=[p], inline=lambda k2, f: k2 != nk)
        s = summand(r.value)
        C.count("aggregates")
        ok = False
        for f in P.recs["Material"]["fields"]:
            e = T("elem", T("fld", this, f["name"]))
            nuc = T("deref", T("fld", e, "first"))
            want = to_poly(T("fld", e, "second")) * Poly.a(T("call", nq, nuc, p))
            ok = ok or s is not None and (to_poly(s) - want).zero()
        C.ob(ok, q + ":sum of fraction times the nuclide's own quantity", loc(P, k), "is %s" % show(r.value)[:300])
    # nuclide: the data of the particle's type
    for q in ("GetTotal", "GetMajorant"):
        k = fn(P, "Nuclide::" + q)
        v = Run(P, k, args=[p]).value
        C.count("aggregates")
        ok = v.op == "call" and v.args[0] == "Interaction::" + q and v.args[2] is p and \
            contains(v.args[1], lambda x: x.op == "idx" and x.args[1] is T("fld", p, "type"))
        C.ob(ok, "Nuclide::%s:quantity of the particle's own type" % q, loc(P, k), "is %s" % show(v)[:300])
    # one kind of nuclide: data evaluated point by point
    base = "Interaction"
    for cls in concrete(P, base):
        rb = [f for f in P.recs[cls]["fields"] if "ContinuousReaction" in f["t"]]
        if rb:
            for q, rq in (("GetTotal", "ContinuousReaction::GetCrossSection"), ("GetMajorant", "ContinuousReaction::GetMajorant")):
                k = virtual_impl(P, cls, base, q)
                r = Run(P, k, args=[p], inline=lambda k2, f: short(f["q"]) not in ("ContinuousMap::at", "ContinuousEvaluation::IsValid"))
                C.count("aggregates")
                n = 0
                for pth, l in leaves(r.value):
                    if l.op == "call" and last(l.args[0]) == "at":
                        continue      # tabulated total, C21
                    n += 1
                    s = summand(l)
                    want = [T("call", rq, T("deref", T("elem", T("fld", this, f["name"]))), p) for f in rb]
                    C.ob(s in want, "%s::%s:sum over all reactions" % (cls, q), loc(P, k), "is %s" % show(l)[:300])
                C.ob(n >= 1, "%s::%s:sum exists" % (cls, q), loc(P, k), "is %s" % show(r.value)[:300])
            for kc in ctors(P, cls):
                o = Obj(P, kc, inline=lambda k2, f: short(f["q"]) != "ContinuousReaction::Create" and "ContinuousEvaluation" not in f["q"])
                for f in rb:
                    v = o.field(f["name"])
                    C.ob(all_children(v, o.args[0], lambda x: x.op == "call" and x.args[0] == "ContinuousReaction::Create", ("total",)),
                         cls + ":every reaction of the input is among those summed", loc(P, kc), "reactions are %s" % show(v)[:300])
        else:
            for kc in ctors(P, cls):
                o = Obj(P, kc)
                g = T("fld", T("fld", p, "energy"), "$get@unsigned long")
                for q in ("GetTotal", "GetMajorant"):
                    k = virtual_impl(P, cls, base, q)
                    v = o.call(k, [p]).value
                    C.count("aggregates")
                    s = summand(v)
                    ok = False
                    # the table of each reaction at the particle's group
                    for f in P.recs[cls]["fields"]:
                        if "Reaction" not in f["t"]:
                            continue
                        xs = T("fld", T("elem", o.field(f["name"])), "second")
                        for at in fns(P, cls + "::OneDimensional::at"):
                            w = Run(P, at, this=T("deref", T("var", "one", "ot")), args=[g]).value
                            w = Canon()(rsub(w, {T("deref", T("var", "one", "ot")): xs}))
                            ok = ok or s is not None and same(s, w)
                    C.ob(ok, "%s::%s:sum over all reactions" % (cls, q), loc(P, k), "is %s" % show(v)[:300])
    C.assumptions.append("real arithmetic")


def all_children(v, node, made, skip=()):
    """vector with one element for every child of node except the named ones"""
    e = T("elem", node)
    nm = T("call", "pugi::xml_node::name", e)
    if v.op == "vec":
        n = T("idx", node, v.args[2])
        return not skip and v.args[0] is T("call", "size", node) and made(v.args[1]) and n in v.args[1].args
    if v.op != "loop" or len(v.args) != 2:
        return False
    acc = T("acc")
    for pth, l in leaves(v.args[1]):
        sk = any(c.op == "eq" and nm in c.args and any(isconst(x) and x.args[0] in skip for x in c.args) and pol for c, pol in pth)
        if sk:
            continue
        if not (l.op == "upd" and l.args[1] is acc and any(isinstance(x, T) and made(x) and e in x.args for x in l.args[2:])):
            return False
    return True
