"""Temperature fields."""
from ..spec import *

RULE = ("value numbering: every field class is constructed symbolically from its input and queried on the resulting object; value, bounds and constancy "
        "must be the formulas of the input, and the factories must build the class the input names")
MINIMUM = 14


def node_attr(n, name):
    return T("call", "pugi::xml_attribute::as_double", T("call", "pugi::xml_node::attribute", n, const(name)), const(0))


def run(P, C):
    base = "ScalarField"
    p = T("var", "p", "pt")
    got = {}
    for cls in concrete(P, base):
        for k in ctors(P, cls):
            o = Obj(P, k)
            C.count("constructors")
            f = P.fns[k]
            isnode = "xml_node" in f["params"][0]["t"]
            a = o.args[0]
            kat, kc = virtual_impl(P, cls, base, "at"), virtual_impl(P, cls, base, "IsConstant")
            val, con = o.call(kat, [p]).value, o.call(kc).value
            up, lo = o.field("upper_bound"), o.field("lower_bound")
            C.count("queries", 4)
            who = "%s(%s)" % (cls, short(strip_type(f["params"][0]["t"])))
            if cls == "LinearField":
                g, b = T("call", "pugi::xml_node::child", a, const("gradient")), T("call", "pugi::xml_node::child", a, const("intercept"))
                bo = T("call", "pugi::xml_node::child", a, const("bounds"))
                G = [node_attr(g, n) for n in "xyz"]
                ref = Poly()
                for n, gi in zip("xyz", G):
                    ref = ref + Poly.a(gi) * Poly.a(T("fld", p, n))
                ref = ref + Poly.a(node_attr(b, "b"))
                C.ob(same(val, ref.term()), who + ":value", loc(P, kat), "value at p is %s" % show(val)[:400])
                c = Canon()
                z = [c.eq(x, const(0)) for x in G]
                want = c.ite(c.ite(z[0], z[1], FALSE), z[2], FALSE)
                C.ob(con is want, who + ":constant iff the gradient is zero", loc(P, kc), "IsConstant is %s" % show(con)[:300])
                C.ob(same(up, node_attr(bo, "upper")), who + ":upper bound", loc(P, k), "is %s" % show(up)[:200])
                C.ob(same(lo, node_attr(bo, "lower")), who + ":lower bound", loc(P, k), "is %s" % show(lo)[:200])
            else:
                want = node_attr(a, "c") if isnode else a
                C.ob(same(val, want), who + ":value", loc(P, kat), "value at p is %s" % show(val)[:300])
                C.ob(con is TRUE, who + ":is constant", loc(P, kc), "IsConstant is %s" % show(con)[:200])
                C.ob(same(up, want), who + ":upper bound", loc(P, k), "is %s" % show(up)[:200])
                C.ob(same(lo, want), who + ":lower bound", loc(P, k), "is %s" % show(lo)[:200])
            got[cls] = 1
    # what is built for an input node
    for k in fns(P, "ScalarField::Create"):
        r = Run(P, k, inline=lambda k2, f: not P.fns[k2].get("ctor"))
        v = r.value
        nm = T("call", "pugi::xml_node::name", T("var", P.fns[k]["params"][0]["name"], "param", 0))
        for s, cls in (("constant", "ConstantField"), ("linear", "LinearField")):
            x = select(v, nm, s)
            C.ob(heap_class(x) == cls, "factory:%s" % s, loc(P, k), "node <%s> builds %s" % (s, show(x)[:200] if x is not None else "nothing"))
    # a cell's own temperature takes precedence over the global one
    for k in ctors(P, "Cell"):
        f = P.fns[k]
        if len(f["params"]) != 4:
            continue
        o = Obj(P, k)
        t = o.field("temperature")
        node, glob = o.args[0], o.args[3]
        has = T("call", "exists", T("call", "pugi::xml_node::attribute", node, const("temperature")))
        ls = list(leaves(t))
        own = [l for pth, l in ls if dict(pth).get(has) is True]
        oth = [l for pth, l in ls if dict(pth).get(has) is False]
        ok = len(own) == 1 and heap_class(own[0]) == "ConstantField" and len(oth) == 1 and oth[0] is glob and len(ls) == 2
        C.ob(ok, "cell:own temperature or the global one", loc(P, k), "cell temperature is %s" % show(t)[:300])
        if own and heap_class(own[0]) == "ConstantField":
            want = node_attr(node, "temperature")
            v = [e for e in o.r.events("make") if e.name == "ConstantField"]
            C.ob(len(v) == 1 and len(v[0].args) == 1 and same(o.r.c(v[0].args[0]), want), "cell:own temperature value", loc(P, k), "constant field of %s" % [show(o.r.c(a)) for e in v for a in e.args])


def select(v, var, s):
    """value of a decision tree where var equals the literal s"""
    while v is not None and v.op == "ite":
        c = v.args[0]
        if c.op == "eq" and var in c.args:
            o = c.args[0] if c.args[1] is var else c.args[1]
            if isconst(o) and isinstance(o.args[0], str):
                v = v.args[1] if o.args[0] == s else v.args[2]
                continue
        return None
    return v


def heap_class(t):
    if t is None:
        return None
    if t.op == "addr":
        t = t.args[0]
    return t.args[0] if t.op == "heap" else None
