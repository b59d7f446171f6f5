"""Inside test and distance of every surface describe the same boundary."""
from ..lib import *
from fractions import Fraction as Fr

RULE = ("value numbering of every surface's inside test and distance function into real-arithmetic normal form; "
        "the inside test must be S(p)<0, every finite distance t must satisfy S(origin+t*direction)=0 identically and be "
        "returned only under t>0, the nearer root first, infinity only when no root is ahead")
MINIMUM = 8


def run(P, C):
    base = "CSGSurface"
    for cls in concrete(P, base):
        kc = virtual_impl(P, cls, base, "Contains")
        kd = virtual_impl(P, cls, base, "Distance")
        if not kc or not kd:
            raise AnalysisError("surface %s has no inside test or distance" % cls)
        C.count("surfaces")
        I1 = Interp(P)
        p = T("var", "p", "pt")
        inside, _ = I1.run(kc, args=[p])
        can1 = Canon(I1)
        inside = can1(inside)
        lc, ld = loc(P, kc), loc(P, kd)
        ls = list(leaves(inside))
        if inside.op == "neg0":
            S = to_poly(inside.args[0])
        elif inside.op == "ite" and inside.args[0].op == "neg0" and len(ls) == 2:
            S = to_poly(inside.args[0].args[0])
        else:
            # conjunctions or unions are not a single boundary function
            C.ob(False, "%s:inside test is one boundary function" % cls, lc, "inside test is not of the form S(p)<0: %s" % show(inside)[:300])
            continue
        # rationalise: a single square root compared with something is not the boundary polynomial of the distance
        I2 = Interp(P)
        o, d = T("var", "origin", "or"), T("var", "direction", "di")
        dist, _ = I2.run(kd, args=[o, d])
        can2 = Canon(I2)
        dist = can2(dist)
        S = rationalise(S)
        t = T("var", "t", "t")
        sub = {}
        for ax in ("x", "y", "z"):
            sub[T("fld", p, ax)] = (Poly.a(T("fld", o, ax)) + Poly.a(t) * Poly.a(T("fld", d, ax)))
        # unit direction: y^2 + z^2 = 1 - x^2 is applied through dz^2
        St = substitute(S, sub)
        roots = []
        orient = C.ob(inside.op == "neg0" and True, "%s:inside is the negative side" % cls, lc, "inside test accepts the negative side of its boundary function")
        At, Bt, Ct = coeffs(St, t)
        if At is None:
            C.ob(False, "%s:boundary function is polynomial" % cls, lc, "boundary function of the inside test is not quadratic along a ray: %s" % show(inside)[:300])
            continue
        fin = []
        inf = []
        for path, leaf in leaves(dist):
            if leaf.op == "call" and "infinity" in str(leaf.args[0]):
                inf.append(path)
            else:
                fin.append((path, leaf))
        cands = {}
        for path, leaf in fin:
            C.count("distance formulas")
            cands.setdefault(leaf, None)
        if not fin:
            C.ob(False, "%s:some finite distance" % cls, ld, "no finite distance is ever returned")
        A0 = unit(At, d)
        lin = A0.zero()
        for leaf in list(cands):
            val = unit(clear(substitute(St, {t: to_poly(leaf)})), d)
            ok = val.zero()
            C.ob(ok, "%s:returned point lies on boundary" % cls, ld, "t=%s inserted into the boundary function leaves %s" % (show(leaf)[:200], "0" if ok else show(val.term())[:200]))
            # classify
            if lin:
                cands[leaf] = "only"
            else:
                D = Bt * Bt - At.scale(Fr(4)) * Ct
                sq = D.pow(Fr(1, 2))
                den = At.scale(Fr(2)).pow(-1)
                cls_ = None
                for name, sg in (("near", -1), ("far", 1)):
                    r = (Bt.scale(Fr(-1)) + sq.scale(Fr(sg))) * den
                    for sqv in (sq, unit(D, d).pow(Fr(1, 2))):
                        r = (Bt.scale(Fr(-1)) + sqv.scale(Fr(sg))) * den
                        if unit(clear(to_poly(leaf) - r), d).zero():
                            cls_ = name
                if cls_ is None:
                    # same polynomial in t, written over another multiple of the boundary function
                    cls_ = classify_by_quadratic(leaf, At, Bt, Ct, d)
                cands[leaf] = cls_
        kinds = set(cands.values())
        if not lin:
            C.ob({"near", "far"} <= kinds, "%s:both crossings are considered" % cls, ld, "distance candidates recognised as: %s" % sorted(map(str, kinds)))
        for path, leaf in fin:
            lits = dict(path)
            pos = can2.lt(const(0), leaf)
            C.ob(lits.get(pos) is True or implied(lits, pos), "%s:returned distance is ahead" % cls, ld, "finite distance %s must be returned only where it is > 0" % show(leaf)[:120])
            if cands[leaf] == "far":
                ok = any(k == "near" and lits.get(can2.lt(const(0), c)) is False for c, k in cands.items())
                C.ob(ok, "%s:nearest crossing first" % cls, ld, "the farther crossing is returned without the nearer one being behind the origin")
        for path in inf:
            lits = dict(path)
            ok = True
            why = ""
            for c, k in cands.items():
                if excluded(lits, c, can2, cands, k):
                    continue
                ok = False
                why = "candidate %s is not excluded where infinity is returned" % show(c)[:160]
            C.ob(ok, "%s:infinite only if nothing ahead" % cls, ld, why)


def implied(lits, pos):
    return False


def excluded(lits, c, can, cands, kind):
    # itself not ahead
    if lits.get(can.lt(const(0), c)) is False:
        return True
    # an equal crossing, written differently, not ahead
    for c2, k2 in cands.items():
        if k2 == kind and k2 is not None and lits.get(can.lt(const(0), c2)) is False:
            return True
    # no real crossing: the radicand is not positive
    for a in subterms(c):
        if a.op == "poly":
            pass
    for k, v in to_poly(c).m.items():
        for a, e in k:
            for b, eb in radicals(a, e):
                lt = can.lt(const(0), b.term())
                if lits.get(lt) is False:
                    return True
                lt = can.lt(b.term(), const(0))
                if lits.get(lt) is True:
                    return True
    return False


def radicals(a, e):
    from ..canon import unpoly
    if a.op == "poly":
        if e.denominator == 2:
            yield unpoly(a), e
        for k, v in a.args[0]:
            for b, eb in k:
                yield from radicals(b, eb)


def substitute(p, sub):
    from ..canon import unpoly
    out = Poly()
    for k, v in p.m.items():
        r = Poly({(): v})
        for a, e in k:
            if a in sub:
                q = sub[a]
                r = r * q.pow(e) if not (e.denominator == 1 and e > 0) else mulpow(r, q, int(e))
            elif a.op == "poly":
                q = substitute(unpoly(a), sub)
                r = r * q.pow(e)
            else:
                r = r * Poly({((a, e),): Fr(1)})
        out = out + r
    return out


def mulpow(r, q, n):
    for _ in range(n):
        r = r * q
    return r


def coeffs(p, t):
    out = [Poly(), Poly(), Poly()]
    for k, v in p.m.items():
        d = dict(k)
        e = d.pop(t, Fr(0))
        if e not in (0, 1, 2):
            return None, None, None
        # t hidden in another atom?
        if any(contains(a, lambda x: x is t) for a in d):
            return None, None, None
        out[2 - int(e)] = out[2 - int(e)] + Poly({tuple(sorted(d.items(), key=lambda x: x[0].uid)): v})
    return out


def unit(p, d):
    """use |direction| = 1"""
    z = T("fld", d, "z")
    x, y = T("fld", d, "x"), T("fld", d, "y")
    from ..canon import unpoly
    for _ in range(12):
        hit = False
        out = Poly()
        for k, v in p.m.items():
            dd = dict(k)
            e = dd.get(z, Fr(0))
            if e >= 2 and e.denominator == 1:
                hit = True
                dd[z] = e - 2
                if dd[z] == 0:
                    del dd[z]
                m = Poly({tuple(sorted(dd.items(), key=lambda q: q[0].uid)): v})
                out = out + m * (Poly.c(1) - Poly.a(x) * Poly.a(x) - Poly.a(y) * Poly.a(y))
            else:
                out = out + Poly({k: v})
        p = out
        if not hit:
            break
    return p


def classify_by_quadratic(leaf, A, B, Cc, d):
    """near: 2*A*t + B = -sqrt(.) ; far: 2*A*t + B = +sqrt(.)"""
    # multiply numerators: v = (2At+B); compare with each square root atom of the leaf
    tl = to_poly(leaf)
    for k, v in tl.m.items():
        # roots of numbers, left where the polynomial below the root is normalised
        num = [Poly.c(1)] + [Poly({((a, e),): Fr(1)}) for a, e in k if a.op == "num"]
        for a, e in k:
            for s in [P_.pow(Fr(1, 2)) * n for P_, eb in radicals(a, e) for n in num]:
                for sg, name in ((-1, "near"), (1, "far")):
                    for mult in (Fr(1), Fr(2), Fr(1, 2)):
                        w = unit(clear((unit(A, d).scale(Fr(2)) * tl + B) - s.scale(Fr(sg) * mult)), d)
                        if w.zero():
                            return name
    return None


def rationalise(S):
    """a*sqrt(Q) - R < 0 with R > 0 (a size) is a^2*Q - R^2 < 0"""
    from ..canon import unpoly
    rad = [(k, v) for k, v in S.m.items() if any(a.op == "poly" and e == Fr(1, 2) for a, e in k)]
    rest = Poly({k: v for k, v in S.m.items() if not any(a.op == "poly" and e.denominator != 1 for a, e in k)})
    if len(rad) == 1 and len(rest.m) == len(S.m) - 1 and rest.mono() and rest.lead() < 0 and rad[0][1] > 0:
        k, v = rad[0]
        sq = Poly({k: v})
        return sq * sq - rest * rest
    return S
