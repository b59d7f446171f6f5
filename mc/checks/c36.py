"""Vector algebra."""
from ..spec import *
from ..interp import snapshot

RULE = "value numbering of every public vector operation, component by component, against its mathematical definition"
MINIMUM = 18
XYZ = ("x", "y", "z")


def run(P, C):
    pt = "Point"
    ops = {}

    def isv(t):
        return is_subclass(P, strip_type(t), pt)
    for q in ("operator+", "operator-", "operator*", "operator/"):
        for k in P.byq.get(q, ()):
            f = P.fns[k]
            ts = [p["t"] for p in f["params"]]
            if not any(isv(t) for t in ts) or not isv(f["ret"]):
                continue
            r = Run(P, k)
            ps = [T("var", p["name"], "param", j) for j, p in enumerate(f["params"])]
            for n in XYZ:
                o = [T("fld", p, n) if isv(t) else p for p, t in zip(ps, ts)]
                if len(o) == 1:
                    ref = spec("-a", a=o[0])
                else:
                    ref = spec("a %s b" % q[-1], a=o[0], b=o[1])
                got = value_comp(r, r.ret, n)
                C.ob(got is not None and same(got, ref), "%s(%s) component %s" % (q, ", ".join(short(strip_type(t)) for t in ts), n), loc(P, k), "is %s" % (show(got)[:200] if got is not None else "?"))
            C.count("operations")
    th = T("this")
    for k in fns(P, "Point::Dot"):
        r = Run(P, k)
        o = T("var", P.fns[k]["params"][0]["name"], "param", 0)
        C.count("operations")
        C.ob(same(r.value, spec("a.x*b.x+a.y*b.y+a.z*b.z", a=th, b=o)), "inner product", loc(P, k), "is %s" % show(r.value)[:200])
    for k in fns(P, "Point::Cross"):
        r = Run(P, k)
        o = T("var", P.fns[k]["params"][0]["name"], "param", 0)
        C.count("operations")
        for n, (a, b) in zip(XYZ, (("y", "z"), ("z", "x"), ("x", "y"))):
            got = value_comp(r, r.ret, n)
            C.ob(got is not None and same(got, spec("a.%s*b.%s-a.%s*b.%s" % (a, b, b, a), a=th, b=o)), "cross product component %s" % n, loc(P, k), "is %s" % (show(got)[:200] if got is not None else "?"))
    for q, op in (("Point::operator+=", "+"), ("Point::operator-=", "-"), ("Point::operator*=", "*"), ("Point::operator/=", "/")):
        for k in P.byq.get(q, ()):
            f = P.fns[k]
            r = Run(P, k)
            o = T("var", f["params"][0]["name"], "param", 0)
            C.count("operations")
            for n in XYZ:
                ref = spec("a %s b" % op, a=T("fld", th, n), b=T("fld", o, n) if isv(f["params"][0]["t"]) else o)
                C.ob(same(r.final(T("fld", th, n)), ref), "%s component %s" % (last(q), n), loc(P, k), "becomes %s" % show(r.final(T("fld", th, n)))[:200])
    for k in fns(P, "Point::Normalize"):
        r = Run(P, k)
        C.count("operations")
        for n in XYZ:
            ref = spec("a.%s/sqrt(a.x*a.x+a.y*a.y+a.z*a.z)" % n, a=th)
            C.ob(same(r.final(T("fld", th, n)), ref), "normalisation component %s" % n, loc(P, k), "becomes %s" % show(r.final(T("fld", th, n)))[:200])
    for k in fns(P, "Point::operator==", lambda f: not f["implicit"] and not f["defaulted"]):
        r = Run(P, k)
        o = T("var", P.fns[k]["params"][0]["name"], "param", 0)
        C.count("operations")
        eqs = [spec("a.%s == b.%s" % (n, n), a=th, b=o) for n in XYZ]
        C.ob(conj_is(r.value, eqs), "equality compares all components", loc(P, k), "is %s" % show(r.value)[:200])
    for k in P.byq.get("Point::Point", ()):
        f = P.fns[k]
        if f["implicit"] or f["defaulted"] or f.get("copyctor") or f.get("movector"):
            continue
        r = Run(P, k)
        if len(f["params"]) == 3:
            C.count("operations")
            for j, n in enumerate(XYZ):
                C.ob(r.final(T("fld", th, n)) is T("var", f["params"][j]["name"], "param", j), "component %s as given" % n, loc(P, k), "becomes %s" % show(r.final(T("fld", th, n)))[:200])
        elif not f["params"]:
            for n in XYZ:
                C.ob(isconst(r.final(T("fld", th, n)), 0) or isconst(r.final(T("fld", th, n)), 0.0), "default component %s" % n, loc(P, k), "becomes %s" % show(r.final(T("fld", th, n)))[:200])
        elif len(f["params"]) == 1 and "xml_node" in f["params"][0]["t"]:
            for n in XYZ:
                v = r.final(T("fld", th, n))
                at = [x for x in subterms(v) if x.op == "call" and last(x.args[0]) == "attribute"]
                C.ob(v.op == "call" and last(v.args[0]) == "as_double" and len(at) == 1 and at[0].args[-1] is const(n), "component %s from the input" % n, loc(P, k), "becomes %s" % show(v)[:200])


def conj_is(v, eqs):
    """v is the conjunction of exactly these atoms"""
    rest = list(eqs)
    while rest:
        if v.op == "ite":
            c, a, b = v.args
            if b is not FALSE:
                return False
            m = [e for e in rest if same(e, c)]
            if not m:
                return False
            rest.remove(m[0])
            v = a
        else:
            m = [e for e in rest if same(e, v)]
            return len(m) == 1 and len(rest) == 1
    return v is TRUE


def value_comp(r, v, n):
    return aggfield(r.value, n)
