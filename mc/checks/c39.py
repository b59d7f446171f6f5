"""The model simulated is the one the input describes."""
from ..spec import *
from .c18 import substitute, rationalise
from .c26 import strip
from .c08 import number_of, is_text

RULE = ("value numbering of every constructor that turns input into the model: the inside test of each surface kind, evaluated on the object made from an input node, is the polynomial of its shape in the "
        "attributes of that node; every tabulated quantity comes from the one file its element names, together with that element's temperature; densities, mass ratios, cutoffs, seed, threads and cycle numbers "
        "are the attributes of the element they belong to; every cell element makes one cell; the document's root is the element the schema declares; the constants of nature have their values")
MINIMUM = 30


def run(P, C):
    shapes(P, C)
    densities(P, C)
    tables(P, C)
    thermal(P, C)
    driver(P, C)
    world(P, C)
    document(P, C)
    nature(P, C)


def num(node, name, as_="double"):
    return T("call", "pugi::xml_attribute::as_" + as_, T("call", "pugi::xml_node::attribute", node, const(name)), const(0))


def isnum_of(x, node, name):
    """the number the attribute holds; the schema requires all of these, so that defaults are never used"""
    while x.op == "call" and str(x.args[0]) in ("static_cast", "conv") and len(x.args) == 2:
        x = x.args[1]
    if x.op == "call" and str(x.args[0]) in ("std::stod", "std::stof", "std::atof", "std::stoul", "std::stoi") and len(x.args) >= 2:
        x = x.args[1]
        return x.op == "call" and str(x.args[0]).startswith("pugi::xml_attribute::") and x.args[1] is T("call", "pugi::xml_node::attribute", node, const(name))
    return x.op == "call" and str(x.args[0]).startswith("pugi::xml_attribute::as_") and x.args[1] is T("call", "pugi::xml_node::attribute", node, const(name))


def owner(n):
    return T("call", "pugi::xml_node::parent", n)


def one_field(P, cls, pred, what):
    fs = [x["name"] for x in P.recs[cls]["fields"] if pred(x["t"].replace("const ", "").strip())]
    if len(fs) != 1:
        raise AnalysisError("%s of %s not found: %s" % (what, cls, fs))
    return fs[0]


REALS = ("Real", "double", "Temperature", "NumberDensity", "MicroscopicCrossSection", "MacroscopicCrossSection", "ContinuousEnergy")


def real(t):
    return last(t) in REALS


# -- surfaces ---------------------------------------------------------------------
def shapes(P, C):
    base = "CSGSurface"
    for cls in concrete(P, base):
        for k in ctors(P, cls):
            o = Obj(P, k)
            n = o.args[0]
            kc = virtual_impl(P, cls, base, "Contains")
            p = T("var", "p", "pt")
            v = o.call(kc, [p]).value
            S = None
            if v.op == "neg0":
                S = rationalise(to_poly(v.args[0]))
            c = [T("fld", p, a) for a in "xyz"]
            if cls == "Sphere":
                want = Poly()
                for a, x in zip("xyz", c):
                    d = Poly.a(x) - Poly.a(num(child(n, "center"), a))
                    want = want + d * d
                r = Poly.a(num(child(n, "radius"), "r"))
                want = want - r * r
            elif cls == "PlaneX":
                want = Poly.a(c[0]) - Poly.a(num(n, "x"))
            elif cls == "CylinderX":
                r = Poly.a(num(n, "r"))
                want = Poly.a(c[1]) * Poly.a(c[1]) + Poly.a(c[2]) * Poly.a(c[2]) - r * r
            else:
                continue
            C.count("surfaces")
            C.ob(S is not None and multiple(S, want), "%s:inside is the inside of the shape described" % cls, loc(P, kc), "inside test of the surface made from its element is %s" % show(v)[:500])


def multiple(a, b):
    """a is a positive multiple of b"""
    plain = {}
    for k in a.m:
        for x, _ in k:
            if x.op == "call" and str(x.args[0]).startswith("pugi::xml_attribute::as_") and len(x.args) == 3:
                plain[x] = Poly.a(T("call", x.args[0], x.args[1], const(0)))
    a = substitute(a, plain)
    if a.zero() or b.zero():
        return False
    k = next(iter(b.m))
    if k not in a.m:
        return False
    f = a.m[k] / b.m[k]
    return f > 0 and (a - b.scale(f)).zero()


# -- materials, data ----------------------------------------------------------------
def files(t):
    """nodes and names of the attributes a value is made of"""
    out = set()
    for x in subterms(t):
        if x.op == "call" and x.args[0] == "pugi::xml_node::attribute":
            out.add((x.args[1], x.args[2].args[0] if x.args[2].op in ("const", "str") else show(x.args[2])))
    return out


def fmt(s):
    return sorted("%s of %s" % (n, show(x)[-80:]) for x, n in s)


def densities(P, C):
    f = one_field(P, "Material", real, "number density")
    for k in ctors(P, "Material"):
        o = Obj(P, k)
        v = o.field(f)
        ok = False
        for x in subterms(v):
            if x.op == "call" and x.args[0] == "pugi::xml_node::attribute":
                nd = x.args[1]
                ok = isnum_of(v, nd, "aden") and nd.op == "call" and last(nd.args[0]) == "find_child_by_attribute" and nd.args[1] is child(o.args[0], "materials") and \
                    nd.args[2] is const("name") and contains(nd.args[3], lambda y: y is o.args[1])
                break
        C.ob(ok, "number density is that of the material named", loc(P, k), "is %s" % show(v)[:300])


def outside(*classes):
    """everything is looked into except these classes"""
    def keep(k2, f):
        c = short(f.get("cls") or f["q"].rsplit("::", 1)[0])
        return bool(f.get("lambda")) or c.split("::")[0].split("<")[0] not in classes
    return keep


TABLES = ("HDF5DataSet", "ContinuousMap")


def evaluation(P, C, who, field, node, k):
    """an evaluation is read from the element it belongs to"""
    fx = one_field(P, "ContinuousEvaluation", lambda t: "ContinuousMap" in t, "table")
    ft = one_field(P, "ContinuousEvaluation", real, "temperature")
    xs, te = field(fx), field(ft)
    C.ob(files(xs) == {(node, "file")}, who + ":table is the file of its element", loc(P, k), "made of %s" % fmt(files(xs)))
    C.ob(isnum_of(te, node, "temperature"), who + ":temperature is that of its element", loc(P, k), "is %s" % show(te)[:200])


def tables(P, C):
    def evals(cls):
        fe = [x["name"] for x in P.recs[cls]["fields"] if last(x["t"].replace("const ", "")) == "ContinuousEvaluation"]
        if len(fe) != 1:
            raise AnalysisError("evaluation of %s not found" % cls)
        return fe[0]
    fe = evals("ContinuousReaction")
    for cls in concrete(P, "ContinuousReaction"):
        for k in ctors(P, cls):
            o = Obj(P, k, inline=outside("ThermalScattering", *TABLES))
            n = o.args[0]
            C.count("reactions")
            # elements that hold more than the table keep it in an element of its own
            node = n if cls == "ContinuousCapture" else child(n, "xs")
            evaluation(P, C, cls, lambda f: o.field(fe, f), node, k)
            for x in P.recs[cls]["fields"]:
                t = x["t"].replace("const ", "").strip()
                v = o.field(x["name"])
                if "ContinuousMap" in t:
                    C.ob(files(v) == {(child(n, "nubar"), "file")}, "%s:yield is the file of its element" % cls, loc(P, k), "made of %s" % fmt(files(v)))
                elif "ThermalScattering" in t:
                    mk = [y for y in subterms(v) if y.op == "new" and y.args[0] == "ThermalScattering"]
                    C.ob(bool(mk) and all(y.args[1] is child(n, "tsl") for y in mk), "%s:thermal scattering is that of its element" % cls, loc(P, k), "is %s" % show(v)[:200])
                elif real(t):
                    C.ob(isnum_of(v, owner(owner(n)), "awr"), "%s:mass ratio is that of its nuclide" % cls, loc(P, k), "is %s" % show(v)[:200])
    for k in ctors(P, "Continuous"):
        f = evals("Continuous")
        o = Obj(P, k, inline=outside("ThermalScattering", "ContinuousReaction", "ContinuousCapture", "ContinuousScatter", "ContinuousFission", *TABLES))
        evaluation(P, C, "total", lambda x: o.field(f, x), child(o.args[0], "total"), k)


# -- thermal scattering -----------------------------------------------------------
def thermal(P, C):
    for k in ctors(P, "ThermalScattering"):
        o = Obj(P, k, inline=lambda k2, f: bool(f.get("lambda")) or short(f["q"]).split("::")[0] not in TABLES + ("ThermalScattering",))
        n = o.args[0]
        for x in P.recs["ThermalScattering"]["fields"]:
            t, f = x["t"].replace("const ", "").strip(), x["name"]
            if not (real(t) or "ContinuousMap" in t or "HDF5DataSet" in t or "Partition" in t):
                continue
            v = o.field(f)
            fs = files(v)
            if "Partition" in t:
                g = [y for y in ("beta_partitions", "alpha_partitions") if y[:4] in f]
                cls = short(strip_type(t)).split("<")[-1]
                node = child(n, g[0]) if g else None
                ok = node is not None and v.op == "vec" and v.args[0] is T("call", "size", node) and v.args[1].op == "new" and v.args[1].args[1] is T("idx", node, v.args[2])
                if node is not None and v.op == "new" and str(v.args[0]) == "std::vector" and len(v.args) >= 3:
                    # made from the range of the elements
                    ok = [(x.op, x.args[-1] is node) for x in v.args[1:3]] in ([("begin", True), ("end", True)], [("call", True), ("call", True)])
                C.ob(ok, "thermal scattering:one of %s for every partition" % f, loc(P, k), "is %s" % show(v)[:200])
            elif real(t) and not any(a in ("total_E", "majorant", "total_T", "total_S") for _, a in fs):
                want = owner(owner(owner(n))) if f == "awr" else n
                C.ob(isnum_of(v, want, f), "thermal scattering:%s is the attribute of its name" % f, loc(P, k), "is %s" % show(v)[:200])
            elif real(t):
                C.ob(fs == {(n, "total_E")}, "thermal scattering:%s is read from the energies" % f, loc(P, k), "made of %s" % fmt(fs))
            else:
                want = {"majorant": "majorant"}.get(f) or "total_" + f[-1]
                C.ob(fs == {(n, want)}, "thermal scattering:%s is read from the file of its name" % f, loc(P, k), "made of %s" % fmt(fs))
    for cls in sorted(c for c in P.recs if short(c).startswith("ThermalScattering::")):
        for k in ctors(P, cls):
            if "xml_node" not in P.fns[k]["params"][0]["t"]:
                continue
            o = Obj(P, k, inline=lambda k2, f: False)
            n = o.args[0]
            for x in P.recs[cls]["fields"]:
                want = {"CDF_modes": "CDF", "singular_values": "S", "E_T_modes": "E_T", "beta_T_modes": "beta_T"}.get(x["name"])
                if not want:
                    continue
                C.count("partition tables")
                v = o.field(x["name"])
                C.ob(files(v) == {(n, want)}, "%s:%s is read from the file of its name" % (short(cls), x["name"]), loc(P, k), "made of %s" % fmt(files(v)))


# -- driver -----------------------------------------------------------------------
def driver(P, C):
    k = fn(P, "Driver::Driver", lambda f: not f["implicit"] and f["params"])
    keep = lambda k2, f: short(f["q"]).split("::")[0] not in ("World", "PerturbationSet", "EstimatorSet", "TransportMethod")
    root = T("var", P.fns[k]["params"][0]["name"], "param", 0)
    th = T("this")
    r = Run(P, k, this=th, args=[root], inline=keep)
    g = child(root, "general")
    sn = child(g, "seed")
    S = r.final(T("fld", th, "seed"))
    # given: that number; left out: one
    inner = S
    while inner.op == "call" and len(inner.args) >= 2:
        inner = inner.args[1]
    ok = inner.op == "ite"
    if ok:
        a, b = (None if x is None else strip_num(x) for x in given(inner, sn))
        ok = a is not None and is_text(a, sn) and (isnum(b) and b.args[0] == 1 or b.op in ("const", "str") and str(b.args[0]) == "1")
    C.ob(ok, "seed is the input's, or one", loc(P, k), "seed is %s" % show(S)[:300])
    N = r.final(T("fld", th, "threads"))
    C.ob(number_of(N, lambda x: is_text(x, child(g, "threads"))), "number of threads is the input's", loc(P, k), "is %s" % show(N)[:200])
    # the source of a fixed source problem
    for k in ctors(P, "FixedSource"):
        f = one_field(P, "FixedSource", lambda t: last(t) == "Source", "source")
        o = Obj(P, k, inline=lambda k2, f2: False)
        v = o.field(f)
        node = child(child(o.args[0], "problemtype"), "fixedsource")
        C.ob(any(x is node for x in getattr(v, "args", ())), "source is the one described", loc(P, k), "is %s" % show(v)[:300])
    for k in ctors(P, "KEigenvalue"):
        o = Obj(P, k, inline=lambda k2, f2: False)
        node = child(child(o.args[0], "problemtype"), "keigenvalue")
        i, a = o.field("last_inactive"), o.field("last_active")
        act = num(node, "active", "uint")
        C.ob(isnum_of(i, node, "inactive"), "number of inactive cycles is the input's", loc(P, k), "is %s" % show(i)[:200])
        C.ob(same(a, (to_poly(i) + Poly.a(act)).term()), "number of cycles is the input's", loc(P, k), "is %s" % show(a)[:200])


def strip_num(a):
    while a.op == "call" and str(a.args[0]) in ("std::stoi", "std::stoul", "static_cast", "conv", "std::basic_string") and len(a.args) >= 2:
        a = a.args[1]
    return a


def given(t, node):
    """value where the element exists, value where it does not"""
    c = t.args[0]
    pol = True
    while c.op in ("not", "zero"):
        c, pol = c.args[0], not pol
    if c.op in ("exists", "call") and c.args[-1] is node and (c.op == "exists" or c.args[0] in ("exists", "bool", "pugi::xml_node::operator bool")):
        return (t.args[1], t.args[2]) if pol else (t.args[2], t.args[1])
    if contains(c, lambda x: x is node) and (c.op == "call" and last(str(c.args[0])) == "empty" or c.op == "eq"):
        # no text
        return (t.args[2], t.args[1]) if pol else (t.args[1], t.args[2])
    return None, None


# -- world ------------------------------------------------------------------------
def world(P, C):
    for k in ctors(P, "World"):
        o = Obj(P, k, inline=lambda k2, f2: bool(f2.get("lambda")) or short(f2["q"]).split("::")[0] in ("World", "ConstantField"))
        n = o.args[0]
        f = one_field(P, "World", lambda t: "vector<Cell" in t, "cells")
        v = o.field(f)
        cells = child(n, "cells")
        ok = v.op == "vec" and v.args[0] is T("call", "size", cells) and contains(v.args[1], lambda x: x is T("idx", cells, v.args[2]))
        C.ob(ok, "one cell for every cell element", loc(P, k), "cells are %s" % show(v)[:300])
        f = one_field(P, "World", lambda t: "ScalarField" in t, "temperature")
        v = o.field(f)
        tn = child(n, "temperature")
        a, b = given(v, tn) if v.op == "ite" else (None, None)
        C.ob(a is not None and b is not None, "temperature is the input's where it has one", loc(P, k), "is %s" % show(v)[:300])
        if b is not None:
            val = value(P, fieldvalue(P, o, strip(b), tn))
            C.ob(val is not None and 273 <= val <= 310, "room temperature otherwise", loc(P, k), "is %s" % val)


def fieldvalue(P, o, h, tn):
    """value of the constant field made where no temperature is given"""
    fs = [x["name"] for x in P.recs["ConstantField"]["fields"] if real(x["t"].replace("const ", ""))]
    v = o.r.final(T("fld", h, fs[0]))
    if v.op == "ite":
        v = given(v, tn)[1] or v
    return v


def value(P, t):
    if isnum(t):
        return float(t.args[0])
    if t.op == "named":
        v = P.vars.get("g:" + t.args[0])
        return v.get("val") if v else None
    return None


# the constants of nature, in the units the code states
NATURE = {"pi": 3.14159265358979, "boltzmann": 8.617333262e-11, "neutron_mass": 1.0454e-18}


def nature(P, C):
    for n, want in NATURE.items():
        v = P.vars.get("g:constants::" + n)
        if v is None:
            continue
        C.count("constants of nature")
        got = v.get("val")
        C.ob(got is not None and abs(got / want - 1) < 1e-4, "constant %s" % n, v.get("loc"), "is %s instead of %g" % (got, want))


def document(P, C):
    """the root of the document is the element the schema declares"""
    for k in ctors(P, "XMLDocument"):
        o = Obj(P, k, inline=lambda k2, f: False)
        f = one_field(P, "XMLDocument", lambda t: "xml_node" in t, "root")
        v = o.field(f)
        ok = v.op == "call" and (last(v.args[0]) == "child" and v.args[2] is const("minimc") or last(v.args[0]) in ("document_element", "first_child"))
        C.ob(ok, "root of the document", loc(P, k), "is %s" % show(v)[:200])
