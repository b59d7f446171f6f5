"""Directions are unit vectors; scattering keeps the requested cosine."""
from ..spec import *
from ..algebra import Relations

RULE = ("value numbering of every constructor of a direction: on each branch x^2+y^2+z^2 must reduce to 1 and, for the scattering constructor, the inner product with the "
        "old direction to the requested cosine, modulo |old direction| = 1 and sin^2+cos^2 = 1; each branch's divisor must be bounded away from zero by its guard; "
        "no function other than constructors and normalisation may change the components of a direction")
MINIMUM = 10
XYZ = ("x", "y", "z")


def comps(P, r, place):
    from ..interp import snapshot
    v = snapshot(r.st, place)
    c = [r.c(snapshot(r.st, T("fld", place, n))) for n in XYZ]
    return c


def field_of(t, n):
    return t


def split(cs):
    """joint leaves of several terms: (path, [leaf..])"""
    todo = [((), tuple(cs))]
    while todo:
        path, ts = todo.pop()
        cond = next((t.args[0] for t in ts if t.op == "ite"), None)
        if cond is None:
            yield path, ts
            continue
        for pol in (True, False):
            nt = tuple((t.args[1] if pol else t.args[2]) if t.op == "ite" and t.args[0] is cond else t for t in ts)
            todo.append((path + ((cond, pol),), nt))


def bound(P, path, d, comp):
    """does the path bound |d.comp| below 1 (2: from both sides), or away from zero"""
    x = T("fld", d, comp)
    lo = hi = None        # lo < x, x < hi known
    away = False
    for c, pol in path:
        if c.op != "neg0":
            continue
        p = to_poly(c.args[0])       # pol: p<0, not pol: p>=0
        if not pol:
            p = p.scale(-1)          # p<=0
        ab = [a for a in p.atoms() if a.op in ("abs",) or (a.op == "call" and a.args[0] in ("abs", "fabs", "std::abs", "std::fabs"))]
        ab = [a for a in ab if x in a.args]
        at = ab[0] if ab else x
        cx = p.m.get(((at, Fraction(1)),))
        if cx is None:
            sqk = p.m.get(((x, Fraction(2)),))
            if sqk is not None and len(p.m) == 2:
                rest = p - Poly({((x, Fraction(2)),): sqk})
                v = number(P, rest.term())
                if v is not None:
                    b = -v / float(sqk)
                    if sqk > 0 and b < 1:
                        lo, hi = -1.0, b
                        lo = -abs(b)
                    elif sqk < 0 and b > 0:
                        away = True
            continue
        rest = p - Poly({((at, Fraction(1)),): cx})
        v = number(P, rest.term())
        if v is None:
            continue
        b = -v / float(cx)
        if cx > 0:
            hi = b if hi is None else min(hi, b)
            if ab:
                lo = -b
            elif b < 0:
                away = True
        else:
            if ab:
                away = away or b > 0
            else:
                lo = b if lo is None else max(lo, b)
                if b > 0:
                    away = True
    return lo, hi, away


from fractions import Fraction


def number(P, t):
    """numeric value of a term over named constants"""
    p = to_poly(t)
    s = 0.0
    for k, v in p.m.items():
        x = float(v)
        for a, e in k:
            c = constant(P, a)
            if c is None:
                return None
            x *= c ** float(e)
        s += x
    return s


def constant(P, a):
    if a.op == "const":
        return float(a.args[0])
    if a.op in ("named", "gconst"):
        for v in P.vars.values():
            if v.get("q") == a.args[0] and v.get("val") is not None:
                return float(v["val"])
        if a.args[0] == "constants::pi":
            return 3.14159
    return None


def run(P, C):
    th = T("this")
    cls = "Direction"
    for m in P.recs[cls]["methods"]:
        k = m["key"]
        if not m["ctor"] or k not in P.fns:
            continue
        f = P.fns[k]
        if f["implicit"] or f["defaulted"] or f.get("copyctor") or f.get("movector"):
            continue
        r = Run(P, k)
        ps = [(p["name"], strip_type(p["t"])) for p in f["params"]]
        sig = ", ".join(short(t) for _, t in ps)
        cs = comps(P, r, th)
        C.count("constructors of a direction")
        old = [T("var", n, "param", j) for j, (n, t) in enumerate(ps) if t == cls]
        scalars = [T("var", n, "param", j) for j, (n, t) in enumerate(ps) if is_float(t)]
        for path, leaf in split(cs):
            C.count("branches")
            sq = {}
            for d in old:
                sq[T("fld", d, "x")] = Poly.c(1) - Poly.a(T("fld", d, "y"), Fraction(2)) - Poly.a(T("fld", d, "z"), Fraction(2))
            R = Relations(sq)
            pl = [R.reduce(to_poly(t)) for t in leaf]
            n2 = pl[0] * pl[0] + pl[1] * pl[1] + pl[2] * pl[2]
            C.ob(R.zero(n2 - Poly.c(1)), "direction from (%s) is a unit vector" % sig, loc(P, k), "components %s" % "; ".join(show(t)[:160] for t in leaf))
            if len(old) == 1 and len(scalars) == 2:
                d = old[0]
                dot = Poly()
                for n, p in zip(XYZ, pl):
                    dot = dot + p * Poly.a(T("fld", d, n))
                hit = [s for s in scalars if R.zero(dot - to_poly(s))]
                C.ob(bool(hit), "scattered direction encloses the requested cosine", loc(P, k), "inner product with the old direction reduces to %s" % show(R.reduce(dot).term())[:300])
                if hit:
                    phi = [s for s in scalars if s is not hit[0]][0]
                    full_circle(C, P, k, R, pl, d, hit[0], phi)
                # divisors
                for t in leaf:
                    for e in subterms(t):
                        if e.op != "P":
                            continue
                degenerate(P, C, k, R, leaf, path, d)
    # nobody else changes components
    allowed = {k for m in P.recs[cls]["methods"] for k in [m["key"]] if m["ctor"]}
    pt = next(iter(P.recs[cls]["bases"]), None)
    bad_methods = {}
    for m in P.recs[pt]["methods"]:
        if m["ctor"] or m["static"] or m["key"] not in P.fns:
            continue
        f = P.fns[m["key"]]
        if m["const"] or m["name"].startswith("~") or f["implicit"] or f["defaulted"]:
            continue
        r = Run(P, m["key"])
        w = [e for e in r.events("write") if e.places and root_is_this(e.places[0])]
        if not w:
            continue
        # normalising an object keeps it a unit vector
        cs = comps(P, r, th)
        R = Relations({})
        n2 = Poly()
        for t in cs:
            n2 = n2 + R.reduce(to_poly(t)) * R.reduce(to_poly(t))
        ok = R.zero(n2 - Poly.c(1))
        C.count("mutating vector operations")
        if not ok:
            bad_methods[m["key"]] = m["name"]
    for k, f in sorted(P.fns.items()):
        for n in f["nodes"].values():
            if n.get("fn") in bad_methods and n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.get("ops"):
                o = f["nodes"].get(n["ops"][0])
                o = object_of(f, n)
                t = underived(f, o)
                C.count("calls of mutating vector operations")
                okc = not is_subclass(P, t, cls) or k in allowed
                C.ob(okc, "%s does not change a direction in place" % short(f["q"]), "src/" + n.get("loc", f["loc"]), "calls %s on a direction" % bad_methods[n["fn"]])
    # direct writes to components
    for k, f in sorted(P.fns.items()):
        if f.get("cls") == cls and not f["ctor"] and not f["implicit"] and not f["defaulted"] and not f["const"] and not f["static"]:
            r = Run(P, k)
            w = [e for e in r.events("write") if e.places and root_is_this(e.places[0])]
            if w:
                cs = comps(P, r, th)
                R = Relations({})
                n2 = Poly()
                for t in cs:
                    n2 = n2 + to_poly(t) * to_poly(t)
                C.ob(R.zero(n2 - Poly.c(1)), "%s keeps a unit vector" % short(f["q"]), loc(P, k), "changes components to %s" % "; ".join(show(t)[:100] for t in cs))
    fs = [f for c in (pt, cls) for f in P.recs[c]["fields"]]
    C.ob(all(f.get("access", 1) != 0 for f in fs), "components are not public", loc(P, fn(P, "Point::Normalize")), "components of vectors are public members")
    C.assumptions.append("vectors given in the input are not zero; equalities hold in real arithmetic")


def root_is_this(p):
    while p.op in ("fld", "idx"):
        p = p.args[0]
    return p.op == "this"


def object_of(f, n):
    o = f["nodes"].get(n["ops"][0])
    if n["k"] == "CXXMemberCallExpr" and o and o["k"] == "MemberExpr" and o.get("ops"):
        return f["nodes"].get(o["ops"][0])
    return o


def underived(f, o):
    """static class of the object before conversions to a base"""
    t = strip_type((o or {}).get("t", ""))
    while o and o.get("ops") and (o["k"].endswith("CastExpr") or o["k"] in ("ParenExpr", "MaterializeTemporaryExpr")):
        o = f["nodes"].get(o["ops"][0])
        if o:
            t = strip_type(o.get("t", t))
    if o and o["k"] == "UnaryOperator" and o.get("ops"):
        q = f["nodes"].get(o["ops"][0])
        if q and q["k"] == "CXXThisExpr":
            t = strip_type(q.get("t", "").rstrip("* "))
    if o and o["k"] == "CXXThisExpr":
        t = strip_type(o.get("t", "").rstrip("* "))
    return t


def full_circle(C, P, k, R, pl, d, mu, phi):
    """the part orthogonal to the old direction turns with the azimuth"""
    names = set()
    for p in pl:
        for a in subterms(p.term()):
            if a.op == "call" and phi in a.args and len(a.args) == 2:
                names.add(last(a.args[0]))
    C.ob({"sin", "cos"} & names != set(), "scattered direction depends on the azimuth", loc(P, k), "azimuth is unused")


def degenerate(P, C, k, R, leaf, path, d):
    """divisors made of old direction components cannot vanish on this branch"""
    seen = set()
    for t in leaf:
        for s in subterms(t):
            if s.op not in ("P", "poly"):
                continue
            for key, v in s.args[0]:
                for a, e in key:
                    if a.op == "poly" and e < 0 and a not in seen:
                        seen.add(a)
                        q = R.reduce(Poly({((a, Fraction(1)),): Fraction(1)}).expand())
                        # up to a constant it may be a fraction that is constant
                        if any(R.zero(q - Poly.c(c)) for c in (Fraction(1, 2), Fraction(2))):
                            continue
                        if R.zero(q - Poly.c(1)):
                            continue
                        # q is 1 - c^2 for a component c?
                        ok = False
                        for n in XYZ:
                            c = T("fld", d, n)
                            if R.zero(q - (Poly.c(1) - Poly.a(c, Fraction(2)))):
                                lo, hi, away = bound(P, path, d, n)
                                if lo is not None and hi is not None and lo > -1 and hi < 1:
                                    ok = True
                                for n2 in XYZ:
                                    if n2 != n and bound(P, path, d, n2)[2]:
                                        ok = True
                        if q.constv() is not None and q.constv() > 0:
                            ok = True
                        atoms = {x for x in subterms(q.term()) if x.op == "fld"}
                        if not all(x.args[0] is d for x in atoms) or not atoms:
                            # depends on other things (already normalised vectors): covered by the norm identity
                            continue
                        C.ob(ok, "branch excludes the degenerate axis", loc(P, k), "divisor %s can vanish under the branch's guard %s" % (show(q.term())[:120], "; ".join(("" if pol else "not ") + show(c)[:80] for c, pol in path)))
