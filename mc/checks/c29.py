"""Atom fractions are normalised."""
from ..spec import *

RULE = ("value numbering of the material constructor: the stored fraction of a nuclide must be the fraction given for it divided by the sum of the given fractions of all "
        "nuclides of the material, stored under the nuclide the fraction is written for")
MINIMUM = 3


def is_given(v):
    """fraction read from a material's nuclide node; returns the node"""
    if v.op == "call" and v.args[0] == "pugi::xml_attribute::as_double" and len(v.args) >= 2:
        a = v.args[1]
        if a.op == "call" and a.args[0] == "pugi::xml_node::attribute" and isconst(a.args[2], "afrac"):
            return a.args[1]
    return None


def run(P, C):
    n = 0
    for k in ctors(P, "Material", lambda f: any("xml_node" in q["t"] for q in f["params"])):
        o = Obj(P, k)
        l = loc(P, k)
        fs = [f["name"] for f in P.recs["Material"]["fields"] if "Nuclide" in f["t"] and "double" in f["t"]]
        if len(fs) != 1:
            raise AnalysisError("material has %d members holding nuclide fractions" % len(fs))
        v = o.field(fs[0])
        C.count("constructors")
        n += 1
        base, done = v, False
        if v.op == "map" and len(v.args[1]) == 1:
            (path, w), = v.args[1]
            base = v.args[0]
            e = T("fld", T("elem", base), "second")
            ok = path == ("second",)
            s = [x for x, y in sums(w) if same(y, e)]
            ok = ok and len(s) >= 1 and same(w, (to_poly(e) * to_poly(s[0]).pow(-1)).term())
            C.ob(ok, "fraction divided by the sum of all fractions", l, "stored fraction is %s" % show(w)[-400:])
            done = True
        if base.op == "loopx" or base.op == "loop":
            ins = inserted(base)
            C.count("insertions", len(ins))
            C.ob(len(ins) >= 1, "fractions are read", l, "no insertion found in %s" % show(base)[:300])
            for key, val in ins:
                if done:
                    node = is_given(val)
                    C.ob(node is not None, "given fraction is stored", l, "stores %s" % show(val)[:300])
                else:
                    g = [x for x in subterms(val) if is_given(x) is not None]
                    g = sorted(set(g), key=lambda x: x.uid)
                    node = is_given(g[0]) if len(g) == 1 else None
                    s = [x for x, y in sums(val) if g and y is g[0]]
                    ok = node is not None and len(s) >= 1 and same(val, (to_poly(g[0]) * to_poly(s[0]).pow(-1)).term())
                    C.ob(ok, "fraction divided by the sum of all fractions", l, "stored fraction is %s" % show(val)[:400])
                # the nuclide of the same entry
                nm = [x.args[1].args[1] for x in subterms(key) if x.op == "call" and x.args[0] == "pugi::xml_attribute::as_string" and isconst(x.args[1].args[2], "name")]
                C.ob(node is not None and node in nm, "stored for the nuclide it is given for", l, "stored for %s" % show(key)[:300])
        else:
            C.ob(False, "fractions are read", l, "fractions are %s" % show(v)[:400])
    C.ob(n >= 1, "constructor analysed", "", "")
    C.assumptions.append("real arithmetic; names of a material's nuclides are unique (schema)")
