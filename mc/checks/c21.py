"""Evaluated cross sections are used near their temperature."""
from ..spec import *
from fractions import Fraction as Fr

RULE = ("value numbering of the acceptance predicate: it must be |requested - evaluated| < tolerance * scale with a symmetric left side and a positive constant tolerance; "
        "a nuclide's tabulated total must be used only where the predicate accepts the temperature that is asked for (at the particle's position for the total, the field's upper bound for the majorant)")
MINIMUM = 7
MAP_AT = "ContinuousMap::at"


def lookups_opaque(k, f):
    return short(f["q"]) != MAP_AT


def accept_form(v, req, ev):
    """|req - ev| < tol * ev^n in any equivalent writing; returns the tolerance term"""
    def margin(c, sign=None):
        return to_poly(c.args[0]) if c.op == "neg0" else None
    conds = []
    if v.op == "neg0":
        conds = [(margin(v), True)]
    elif v.op == "ite" and v.args[2] is FALSE and v.args[0].op == "neg0" and v.args[1].op == "neg0":
        conds = [(margin(v.args[0]), True), (margin(v.args[1]), True)]
    if len(conds) == 1:
        p = clear(conds[0][0])
        ab = {a for k in p.m for a, e in k if a.op == "abs"}
        if len(ab) != 1:
            return None
        a = ab.pop()
        d = to_poly(a.args[0])
        if not ((d - (Poly.a(req) - Poly.a(ev))).zero() or (d + (Poly.a(req) - Poly.a(ev))).zero()):
            return None
        # p = x*|d| - tol*y with x, y free of the requested temperature
        x, y = Poly(), Poly()
        for k, c in p.m.items():
            dd = dict(k)
            e = dd.pop(a, Fr(0))
            m = Poly({tuple(sorted(dd.items(), key=lambda z: z[0].uid)): c})
            if e == 0:
                y = y - m
            elif e == 1:
                x = x + m
            else:
                return None
        if any(contains(t, lambda z: z is req) for t in x.atoms() | y.atoms()):
            return None
        return (y * x.pow(-1)).term() if x.mono() and x.lead() > 0 else None
    if len(conds) == 2:
        p, q = clear(conds[0][0]), clear(conds[1][0])
        s = p + q     # the requested temperature cancels
        df = p - q
        if any(contains(t, lambda z: z is req) for t in s.atoms()):
            return None
        for sg in (1, -1):
            g = df.scale(Fr(sg, 2))
            if (g - (Poly.a(req) - Poly.a(ev))).zero():
                return s.scale(Fr(-1, 2)).term()
    return None


def run(P, C):
    this = T("this")
    req = T("var", "requested", "rq")
    cls = "ContinuousEvaluation"
    k = fn(P, cls + "::IsValid")
    r = Run(P, k, args=[req])
    v = r.value
    ev = T("fld", this, "temperature")
    tol = accept_form(v, req, ev)
    C.count("predicates")
    C.ob(tol is not None, "accepted in both directions alike", loc(P, k), "acceptance is %s" % show(v)[:300])
    if tol is not None:
        # tolerance: positive constant times the evaluated temperature (or a power of it)
        p = to_poly(tol)
        val = None
        if p.mono():
            val = p.lead()
            for a, e in list(p.m)[0]:
                if a is ev:
                    continue
                cst = named_value(P, a)
                if cst is None:
                    val = None
                    break
                val = val * (cst if e == 1 else 0)
        C.ob(val is not None and 0 < val <= Fr(1, 10), "fixed positive tolerance", loc(P, k), "tolerance is %s" % show(tol)[:200])
    # the temperature is the one the data were evaluated at
    for kc in ctors(P, cls):
        o = Obj(P, kc, inline=lambda k2, f: short(f["q"]) in (cls,) or "Point" in f["q"])
        t = o.field("temperature")
        want = T("call", "pugi::xml_attribute::as_double", T("call", "pugi::xml_node::attribute", o.args[0], const("temperature")), const(0))
        C.ob(same(t, want), "evaluated temperature is read from the input", loc(P, kc), "is %s" % show(t)[:200])
    # where a nuclide's table is looked up
    p = T("var", "p", "pt")
    pred = k
    for q, what in (("Continuous::GetTotal", "total"), ("Continuous::GetMajorant", "majorant")):
        k = fn(P, q)
        r = Run(P, k, args=[p], inline=lambda k2, f: lookups_opaque(k2, f) and k2 != pred)
        cell = T("fld", p, "cell")
        field = T("deref", T("fld", T("deref", cell), "temperature"))
        want = T("call", "ScalarField::at", field, T("fld", p, "position")) if what == "total" else T("fld", field, "upper_bound")
        n = 0
        for e in r.events("call", name="at"):
            tab = r.c(e.this) if e.this is not None else None
            if tab is None or tab.op != "fld" or tab.args[0].op != "fld" or tab.args[0].args[0] is not this:
                continue
            n += 1
            C.count("table lookups")
            f = cfacts(r, e.facts)
            g = T("call", cls + "::IsValid", tab.args[0], want)
            ok = known(f, g) is True
            C.ob(ok, "%s table used only near its temperature" % what, r.loc(e), "looked up knowing only %s" % [(show(a)[:160], b) for a, b in f.items()])
            mod = [a for a, b in f.items() if a.op == "exists" and b is False]
            C.ob(any(x.args[1].op == "call" and last(x.args[1].args[0]) == "ModifiesTotal" for x in mod), "%s table not used when a reaction replaces its data" % what, r.loc(e),
                 "looked up although a reaction may modify the total")
        C.ob(n >= 1, "%s table lookup found" % what, loc(P, k), "no lookup of a tabulated %s" % what)
    C.assumptions.append("real arithmetic")


def named_value(P, a):
    if a.op == "named":
        for v in P.vars.values() if isinstance(P.vars, dict) else P.vars:
            if v.get("q") == a.args[0] and v.get("val") is not None:
                return Fr(v["val"]).limit_denominator(10**12)
    if isnum(a):
        return Fr(a.args[0])
    return None
