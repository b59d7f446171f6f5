"""Tally bin index functions."""
from ..spec import *
from .c18 import substitute

RULE = ("value numbering of every bin kind's index, size and printed boundaries: below the first printed boundary the index is 0, from the "
        "last one on it is size-1, and in between the index expression is affine with value i+1 at printed boundary i (boundary kinds by "
        "number: position of the first greater boundary over a strictly increasing list); the combined index must be "
        "stride*outer+inner with stride = inner size and size = outer size*stride")
MINIMUM = 14


def run(P, C):
    for cls in concrete(P, "Bins"):
        C.count("bin kinds")
        ks = virtual_impl(P, cls, "Bins", "size")
        ki = virtual_impl(P, cls, "Bins", "GetIndex")
        kt = virtual_impl(P, cls, "Bins", "to_string")
        th = T("this")
        ctors = [m["key"] for m in P.recs[cls]["methods"] if m["ctor"] and m["key"] in P.fns and not P.fns[m["key"]]["implicit"] and not P.fns[m["key"]].get("copyctor") and not P.fns[m["key"]].get("movector")]
        fields = {}
        rc = None
        if ctors:
            rc = Run(P, ctors[0])
            for f in P.recs[cls]["fields"]:
                fields[T("fld", th, f["name"])] = rc.final(T("fld", th, f["name"]))
        rs, ri, rt = Run(P, ks), Run(P, ki), Run(P, kt)
        size, idx = rs.value, ri.value
        v = T("var", P.fns[ki]["params"][0]["name"], "param", 0)
        where = loc(P, ki)
        text = flat(rt.value)
        if idx.op == "const":
            C.ob(isconst(idx, 0) and isconst(size, 1), "%s: one bin" % cls, where, "index %s of %s bins" % (show(idx), show(size)))
            continue
        loops = [it for it in text if it[0] == "loop"]
        nums = [x[1] for it in loops for x in it[1] if x[0] == "val"]
        if len(loops) != 1 or len(nums) != 1:
            C.ob(False, "%s: prints its boundaries" % cls, loc(P, kt), "boundaries are printed as %r" % (text,))
            continue
        B = nums[0]
        el = [x for x in subterms(B) if x.op == "elem"]
        if el and B is el[0]:
            boundaries(P, C, cls, B.args[0], idx, size, v, where, rc)
            continue
        cnt = [x for x in subterms(B) if x.op == "counter"]
        if len(cnt) != 1:
            C.ob(False, "%s: boundaries enumerated from zero" % cls, loc(P, kt), "boundary %s" % show(B))
            continue
        n = cnt[0].args[0]
        i = T("var", "i", "i")
        Bi = subst(B, {cnt[0]: i})
        from ..lib import renorm
        Bi = renorm(Bi)
        C.ob(same(n, (to_poly(size) - Poly.c(1)).term()), "%s: one boundary fewer than bins" % cls, loc(P, kt), "%s boundaries are printed for %s bins" % (show(n), show(size)))

        def at(t, b):
            """t with the binned value replaced by a boundary, members by what the constructor stores"""
            t = renorm(subst(t, {v: b}))
            t = logs(t)
            return t

        def const_of(t):
            # members by their constructor values
            t = renorm(subst(Canon()(t), fields))
            return t
        w = [f for f in fields]
        under = over = mid = None
        lo_ok = hi_ok = False
        res = {}
        last_i = (to_poly(size) - Poly.c(2)).term()
        leafs = list(leaves(idx))
        kinds = set()
        for path, leaf in leafs:
            kinds.add("mid" if leaf.op == "trunc" else "zero" if isconst(leaf, 0) else "top" if same(leaf, (to_poly(size) - Poly.c(1)).term()) else "other")
        C.ob("other" not in kinds and {"mid", "zero", "top"} <= kinds, "%s: index values" % cls, where, "index is one of: %s" % ", ".join(show(l)[:80] for _, l in leafs))
        for path, leaf in leafs:
            d = dict(path)
            conds = []
            for c, pol in path:
                if c.op != "neg0":
                    conds.append(None)
                    continue
                p = to_poly(c.args[0])
                # x - bound < 0 where x grows with the value
                e0 = const_of(at(c.args[0], subst_i(Bi, i, const(0))))
                e1 = const_of(at(c.args[0], subst_i(Bi, i, last_i)))
                sg = sign(p, v)
                if clear(to_poly(e0)).zero():
                    conds.append(("first", (sg > 0) == pol, sg))
                elif clear(to_poly(e1)).zero():
                    conds.append(("last", (sg > 0) == pol, sg))
                else:
                    conds.append(None)
            if None in conds:
                C.ob(False, "%s: index switches at a printed boundary" % cls, where, "condition %s does not compare the value with the first or last printed boundary" % "; ".join(show(c) for c, _ in path)[:400])
                continue
            below_first = any(k == "first" and b for k, b, s_ in conds)
            above_first = any(k == "first" and not b for k, b, s_ in conds)
            below_last = any(k == "last" and b for k, b, s_ in conds)
            above_last = any(k == "last" and not b for k, b, s_ in conds)
            strict = all(s_ > 0 for k, b, s_ in conds)
            C.ob(strict, "%s: lower boundary belongs to its bin" % cls, where, "; ".join(show(c) for c, _ in path)[:300])
            if leaf.op == "trunc":
                C.ob(above_first and below_last, "%s: inner bins lie between the boundaries" % cls, where, "path %s" % "; ".join("%s%s" % ("" if p else "not ", show(c)) for c, p in path)[:400])
                g = const_of(at(leaf.args[0], Bi))
                ok = clear(to_poly(g) - to_poly(i) - Poly.c(1)).zero()
                C.ob(ok, "%s: printed boundary i starts bin i+1" % cls, where, "index at printed boundary i is %s" % show(g)[:300])
                C.ob(affine(leaf.args[0], v), "%s: index affine between boundaries" % cls, where, show(leaf)[:300])
            elif isconst(leaf, 0):
                C.ob(below_first, "%s: bin 0 is the underflow" % cls, where, "path %s" % "; ".join(show(c) for c, _ in path)[:300])
            else:
                C.ob(above_last, "%s: last bin is the overflow" % cls, where, "path %s" % "; ".join(show(c) for c, _ in path)[:300])
        # a degenerate or reversed range is refused
        lo, hi = [const_of(logs(subst_i(Bi, i, x))) for x in (const(0), last_i)]
        ok = False
        for e in rc.events("throw"):
            for a, pol in e.facts:
                c = rc.c(a if pol else T("un", "!", a))
                c2 = c
                for neg_, rel_ in ((False, c2),):
                    # hi <= lo  ==  not (lo < hi)
                    L, H = expo(lo), expo(hi)
                    want = rc.c.cond_not(rc.c.lt(L, H))
                    if want is c:
                        ok = True
        C.ob(ok, "%s: empty range refused" % cls, loc(P, ctors[0]), "the constructor must throw unless the first boundary is below the last")
    combined(P, C)


def expo(t):
    """compare powers of one base through their exponents"""
    if t.op == "call" and t.args[0] == "pow":
        return t.args[2]
    return t


def subst_i(B, i, val):
    return renorm(subst(B, {i: val}))


def logs(t):
    """log(pow(b, e)) = e*log(b)"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] == "log" and isinstance(x.args[1], T) and x.args[1].op == "call" and x.args[1].args[0] == "pow":
            b, e = x.args[1].args[1], x.args[1].args[2]
            m[x] = (to_poly(e) * Poly.a(T("call", "log", b))).term()
    if not m:
        return t
    # atoms inside polynomials become polynomials
    def go(p):
        out = Poly()
        for k, c in p.m.items():
            r = Poly({(): c})
            for a, e in k:
                r = r * (to_poly(m[a]).pow(e) if a in m else Poly.a(a, e) if a.op != "poly" else go(Poly({tuple(kk): vv for kk, vv in a.args[0]})).pow(e))
            out = out + r
        return out
    return go(to_poly(t)).term()


def sign(p, v):
    """+1: the polynomial grows with v (v itself or log v), -1: it falls"""
    s = 0
    for k, c in p.m.items():
        if any(contains(a, lambda x: x is v) for a, e in k):
            s = 1 if c > 0 else -1
    return s


def affine(t, v):
    p = to_poly(t)
    xs = {(a, e) for k in p.m for a, e in k if contains(a, lambda x: x is v)}
    return len(xs) == 1 and next(iter(xs))[1] == 1


def boundaries(P, C, cls, cont, idx, size, v, where, rc):
    b, e = T("call", "begin", cont), T("call", "end", cont)
    ub = T("call", "std::upper_bound", b, e, v)
    want = (to_poly(ub) - to_poly(b)).term()
    ok = same(idx, want)
    if not ok:
        # the number of boundaries not above the value, counted
        cn = idx
        ok = cn.op == "call" and cn.args[0] == "std::count_if" and False
    C.ob(ok, "%s: index counts the boundaries not above the value" % cls, where, "index is %s" % show(idx)[:300])
    C.ob(same(size, (Poly.a(T("call", "size", cont)) + Poly.c(1)).term()), "%s: one bin more than boundaries" % cls, where, "size is %s" % show(size))
    ok = False
    why = "no refusal of a non-increasing list found"
    for ev in rc.events("throw"):
        for a, pol in ev.facts:
            c = rc.c(a if pol else T("un", "!", a))
            # not (prev < value), prev being the value appended before
            if c.op == "ite" and c.args[0].op == "neg0" and c.args[1] is FALSE:
                p = to_poly(c.args[0].args[0])
                at = sorted(p.m.items(), key=lambda kv: kv[1])
                if len(at) == 2 and at[0][1] == -1 and at[1][1] == 1:
                    new, prev = at[0][0][0][0], at[1][0][0][0]
                    if new.op == "read" and prev.op in ("loop", "loopx") and prev.args[1] is new and "infinity" in str(prev.args[0]):
                        ok = True
                    elif new.op == "read":
                        why = "compared with %s" % show(prev)[:200]
    C.ob(ok, "%s: list is strictly increasing" % cls, where, why)
    # every value read and not refused is appended
    pushed = [ev for ev in rc.events("write") if ev.name in ("push_back", "emplace_back")]
    vals = [rc.c(ev.val).args[-1] for ev in pushed if rc.c(ev.val).op == "upd"]
    f = rc.final(cont)
    okp = f.op in ("loop", "loopx") and any(x.op == "upd" and x.args[0] in ("push_back", "emplace_back") and x.args[-1].op == "read" for x in f.args[1:])
    C.ob(okp, "%s: every boundary is kept" % cls, where, "list is %s" % show(f)[:200])


def combined(P, C):
    cls = "ParticleBins"
    th = T("this")
    ctor = [m["key"] for m in P.recs[cls]["methods"] if m["ctor"] and m["key"] in P.fns and not P.fns[m["key"]]["implicit"] and not P.fns[m["key"]].get("copyctor")][0]
    inl = lambda k, f: not f["q"].startswith("Bins::")
    rc = Run(P, ctor, inline=inl)
    axes = [f["name"] for f in P.recs[cls]["fields"] if "Bins" in f["t"]]
    C.need(1, "axes")
    if len(axes) != 2:
        raise AnalysisError("combined bins have %d axes, the rule knows 2" % len(axes))
    sizes = {}
    vals = {a: rc.final(T("fld", th, a)) for a in axes}
    m = {}
    other = {T("fld", th, f["name"]): rc.final(T("fld", th, f["name"])) for f in P.recs[cls]["fields"] if f["name"] not in axes}

    def closed(t):
        # members by what the constructor stored, axes by name again
        t2 = t
        for _ in range(2):
            t2 = renorm(Canon()(subst_fields(t2, other)))
        back = {T("deref", vals[a]): T("deref", T("fld", th, a)) for a in axes}
        back.update({vals[a]: T("fld", th, a) for a in axes})
        return renorm(Canon()(subst(t2, back)))
    rs = Run(P, fn(P, cls + "::size"))
    ri = Run(P, fn(P, cls + "::GetIndex"))
    size, idx = closed(rs.value), closed(ri.value)
    S = {a: T("call", "Bins::size", T("deref", T("fld", th, a))) for a in axes}
    where = loc(P, fn(P, cls + "::GetIndex"))
    C.ob(same(size, (Poly.a(S[axes[0]]) * Poly.a(S[axes[1]])).term()), "combined: size is the product of the axis sizes", loc(P, fn(P, cls + "::size")), "size is %s" % show(size)[:300])
    # index: one axis has stride 1, the other the size of the first; an axis that is absent contributes 0
    p = T("var", P.fns[fn(P, cls + "::GetIndex")]["params"][0]["name"], "param", 0)
    for path, leaf in leaves(idx):
        q = to_poly(leaf)
        terms = {}
        bad = []
        for k, c in q.m.items():
            ix = [a for a, e in k if a.op == "call" and a.args[0] == "Bins::GetIndex" and e == 1]
            rest = Poly({tuple(x for x in k if x[0] not in ix): c})
            if len(ix) != 1 or ix[0].args[1].op != "deref":
                bad.append(k)
                continue
            ax = ix[0].args[1].args[0].args[1] if ix[0].args[1].args[0].op == "fld" else None
            if ax not in axes or ax in terms:
                bad.append(k)
                continue
            terms[ax] = (rest, ix[0].args[2])
        ok = not bad
        inner = [a for a, (r, x) in terms.items() if r.constv() == 1]
        outer = [a for a in terms if a not in inner]
        ok = ok and len(inner) == 1 and len(outer) <= 1
        if ok and outer:
            ok = same(terms[outer[0]][0].term(), S[inner[0]])
        C.ob(ok, "combined: mixed radix index", where, "index is %s" % show(leaf)[:400])
        for a, (r, x) in terms.items():
            if a == "energy" or "energ" in a:
                okx = contains(x, lambda y: y.op == "fld" and y.args[1] == "energy" and y.args[0] is p)
                C.ob(okx, "combined: energy axis bins the particle energy", where, show(x)[:200])
            else:
                d = T("fld", p, "direction")
                D = [y for y in subterms(x) if y.op == "fld" and y.args[1] == "x" and y.args[0] is not d]
                okx = False
                if len(D) == 1:
                    D = D[0].args[0]
                    okx = same(x, spec("D.x*d.x+D.y*d.y+D.z*d.z", D=D, d=d))
                C.ob(okx, "combined: cosine axis bins the projection on the reference direction", where, show(x)[:300])
        if not outer:
            # the missing axis is only ignored when there is no reference direction
            okx = all((c.op == "call" and c.args[0] in ("has_value",)) and not pol or c.op == "call" and c.args[0] == "exists" and not pol for c, pol in path) and path
            C.ob(bool(okx), "combined: cosine axis ignored only without reference direction", where, "; ".join(show(c) for c, _ in path)[:200])
    # energy of either kind is binned by its number
    for m_ in P.recs.get("ParticleBins::VisitEnergy", {"methods": []})["methods"]:
        if m_["name"] == "operator()" and m_["key"] in P.fns:
            r = Run(P, m_["key"])
            f = P.fns[m_["key"]]
            a = T("var", f["params"][0]["name"], "param", 0)
            C.ob(same(r.value, a), "energy is binned by its own value (%s)" % strip_type(f["params"][0]["t"]), loc(P, m_["key"]), show(r.value))


def subst_fields(t, m):
    """replace this.member (also below) by its constructor value"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x in m and m[x].op in ("list",):
            r = m[x]
        elif x.op == "idx" and x.args[0] in m and m[x.args[0]].op == "list" and isconst(x.args[1]) and isinstance(x.args[1].args[0], int) and x.args[1].args[0] < len(m[x.args[0]].args):
            r = m[x.args[0]].args[x.args[1].args[0]]
        else:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else T(x.op, *na)
        memo[x] = r
        return r
    return go(t)
