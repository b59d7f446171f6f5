"""Cells contain the points whose surface senses they ask for."""
from ..spec import *

RULE = ("value numbering of the quantified predicates: containment must be 'on the required side of every surface of the cell', the search for a cell must "
        "return one that contains the point or throw, the nearest surface must be the arg-min of the distances over all the cell's surfaces with that distance, "
        "and the required sides must be those of the input")
MINIMUM = 7


def run(P, C):
    this = T("this")
    p = T("var", "p", "pt")
    d = T("var", "d", "di")
    # containment
    k = fn(P, "Cell::Contains")
    r = Run(P, k, args=[p])
    v = r.value
    C.count("predicates")
    ok, why, senses = contains_form(v, p)
    C.ob(ok, "containment is 'required side of every surface'", loc(P, k), "containment is %s" % show(v)[:400])
    # search for the cell
    for k in fns(P, "World::FindCellContaining"):
        r = Run(P, k, args=[p])
        C.count("searches")
        v = r.value
        f = cfacts(r)
        good = False
        if v.op == "first" and r.st is not None:
            okc, _, _ = contains_form(v.args[1], p)
            good = okc and (known(f, T("exists", *v.args)) is True)
        elif v.op == "elem":
            good = any(pol is True and contains_form(a, p, v)[0] or pol is False and contains_form(negate(a), p, v)[0] for a, pol in f.items())
        C.ob(good, "cell found contains the point", loc(P, k), "returns %s knowing %s" % (show(v)[:300], [(show(a)[:200], b) for a, b in f.items()]))
        throws = [e for e in r.events("throw")]
        C.ob(bool(throws), "no cell is an error", loc(P, k), "a point outside every cell must raise")
    # nearest surface
    for k in fns(P, "Cell::NearestSurface"):
        r = Run(P, k, args=[p, d])
        v = r.value
        C.count("searches")
        s, dist = aggfield(v, "$0"), aggfield(v, "$1")
        am = [x for x in subterms(v) if x.op == "argmin"]
        ok = len(am) == 1
        C.ob(ok, "nearest surface is the minimum over all surfaces", loc(P, k), "result is %s" % show(v)[:500])
        if not ok or s is None or dist is None:
            continue
        am = am[0]
        cont, key = am.args
        el = T("elem", cont)
        C.ob(cont is T("fld", this, senses or cont.args[1]), "all the cell's surfaces are considered", loc(P, k), "searches %s" % show(cont))
        C.ob(key is T("call", "CSGSurface::Distance", T("deref", T("fld", el, "first")), p, d), "ordered by distance", loc(P, k), "ordered by %s" % show(key)[:200])
        C.ob(s is T("fld", am, "first"), "surface of the smallest distance is returned", loc(P, k), "surface %s" % show(s)[:200])
        C.ob(same(dist, subst(key, {el: am})), "its own distance is returned", loc(P, k), "distance %s" % show(dist)[:200])
        thr = [e for e in r.events("throw")]
        C.ob(bool(thr), "a cell without surfaces is an error", loc(P, k), "searching the nearest of no surfaces must raise")
    # required sides
    n = 0
    for k in ctors(P, "Cell", lambda f: any("xml_node" in q["t"] for q in f["params"])):
        o = Obj(P, k)
        r = o.r
        field = o.field(senses) if senses else None
        for key, val, e in map_inserts(r):
            if not contains(val, lambda x: x.op == "const" and x.args[0] == "sense"):
                continue
            n += 1
            C.count("insertions")
            sv = [x for x in subterms(val) if x.op == "call" and str(x.args[0]).startswith("pugi::xml_attribute::as_string")]
            m1 = decide(val, sv, "-1")
            p1 = decide(val, sv, "+1")
            C.ob(m1 is TRUE and p1 is FALSE, "sense -1 is inside, +1 is outside", r.loc(e), "'-1' gives %s, '+1' gives %s" % (show(m1)[:100], show(p1)[:100]))
            nm = [x for x in subterms(key) if x.op == "call" and x.args[0] == "pugi::xml_attribute::as_string"]
            node = {x.args[1].args[1] for x in nm + sv if x.args[1].op == "call"}
            ok = key.op == "first" and key.args[1].op == "eq" and len(node) == 1 and T("fld", T("deref", T("elem", key.args[0])), "name") in key.args[1].args
            C.ob(ok, "sense is stored for the surface it is written for", r.loc(e), "stored for %s" % show(key)[:300])
    C.ob(n >= 1, "required sides are read from the input", loc(P, fn(P, "Cell::Contains")), "no insertion into the cell's surface senses found")


def decide(v, vars_, s):
    """value with all string variables equal to s"""
    def go(x):
        if x.op == "ite":
            c = go(x.args[0])
            if isconst(c):
                return go(x.args[1] if c.args[0] else x.args[2])
            return T("ite", c, go(x.args[1]), go(x.args[2]))
        if x.op == "eq":
            for a, b in (x.args, x.args[::-1]):
                if a in vars_ and isconst(b) and isinstance(b.args[0], str):
                    return const(b.args[0] == s)
        return x
    return go(v)


def map_inserts(r):
    """(key, value, event) of insertions into maps"""
    for e in r.events("ext"):
        nm = last(e.name)
        if e.name and e.name.startswith("std::map::") and nm in ("emplace", "try_emplace", "insert_or_assign", "emplace_hint") and len(e.args) >= 2:
            yield r.c(e.args[-2]), r.c(e.args[-1]), e
        elif e.name and e.name.startswith("std::map::") and nm == "insert" and len(e.args) == 1:
            v = r.c(e.args[0])
            a, b = aggfield(v, "first"), aggfield(v, "second")
            if a is not None and b is not None:
                yield a, b, e
    for e in r.events("write"):
        pl = e.places[0]
        if pl.op == "idx" and e.val is not None:
            yield r.c(pl.args[1]), r.c(e.val), e


def contains_form(v, p, cell=None):
    """not exists(s in senses: Contains(s.surface, p) != s.sense)"""
    if not (v.op == "ite" and v.args[1] is FALSE and v.args[2] is TRUE and v.args[0].op == "exists"):
        return False, "", None
    c, b = v.args[0].args
    el = T("elem", c)
    ins = T("call", "CSGSurface::Contains", T("deref", T("fld", el, "first")), p)
    want = negate(Canon().eq(ins, T("fld", el, "second")))
    ok = b is want and c.op == "fld"
    if cell is not None:
        ok = ok and c.args[0] is cell
    return ok, "", c.args[1] if c.op == "fld" else None
