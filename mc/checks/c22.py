"""Selections in proportion to weights."""
from ..select import *

RULE = ("typestate and value numbering of the selection loops: wherever a nuclide, reaction or outgoing group is chosen, the branch that chooses it must compare a running sum of the weights up to and including "
        "the chosen alternative's own with a uniform number times the total of these weights; the loop visits every alternative, compares in every iteration, stops at the first hit, "
        "the random number is drawn once per selection, and a selection that may fail is repeated")
MINIMUM = 20


def run(P, C):
    nuclide(P, C)
    for cls in concrete(P, "Interaction"):
        interaction(P, C, cls)
    C.assumptions += ["real arithmetic", "weights are not negative"]


def judge(C, r, fl, key, sel, total, weights, bound, where):
    """one selection"""
    C.count("selections")
    ok = C.ob(sel.problem is None, key + ":running sum of the weights", where, sel.problem or "")
    if sel.problem:
        return
    u, tot = uniform_times(sel.thr)
    C.ob(u is not None and any((tot - to_poly(x)).zero() for x in total), key + ":threshold is uniform times the total", where, "threshold is %s" % show(sel.thr.term())[:300])
    C.ob(any((sel.w - to_poly(x)).zero() for x in weights), key + ":weight of the chosen alternative", where, "weight is %s" % show(sel.w.term())[:300])
    if u is None:
        return
    prob, L = structure(fl, sel, u, bound)
    for p in prob:
        C.ob(False, key + ":" + p, where)
    C.ob(not prob, key + ":control flow", where, "; ".join(prob))
    return L


def ends(space):
    """edges on which an iteration over space has run out"""
    def f(fs):
        for c, pol in fs.items():
            for sp in space:
                d = Poly.a(T("iter", sp)) - to_poly(T("call", "size", sp))
                if c.op == "neg0" and not pol and (to_poly(c.args[0]) - d).zero() or c.op == "zero" and pol and ((to_poly(c.args[0]) - d).zero() or (to_poly(c.args[0]) + d).zero()):
                    return True
        return any(pol and c.op == "eq" and any(x.op == "iterator" and x.args[0] in space for x in c.args) and any(x.op == "call" and x.args[0] == "end" and x.args[1] in space for x in c.args) for c, pol in fs.items())
    return f


def upto(idx, sizes):
    """edges on which the position idx has passed the last alternative"""
    i = to_poly(idx)

    def f(fs):
        for c, pol in fs.items():
            for n in sizes:
                d = i - to_poly(n)
                if c.op == "neg0":
                    q = to_poly(c.args[0])
                    if not pol and (q - d).zero() or pol and (q + d + Poly.c(1)).zero():
                        return True
                if c.op == "zero" and pol:
                    q = to_poly(c.args[0])
                    if (q - d).zero() or (q + d).zero():
                        return True
                if c.op == "eq" and pol and len(c.args) == 2:
                    q = to_poly(c.args[0]) - to_poly(c.args[1])
                    if (q - d).zero() or (q + d).zero():
                        return True
        return False
    return f


def nuclide(P, C):
    k = fn(P, "Particle::SampleNuclide")
    this = T("this")
    opq = ("Material::GetMicroscopicTotal", "Nuclide::GetTotal")
    r = Run(P, k, this=this, inline=lambda k2, f: short(f["q"]) not in opq)
    fl = Flow(r)
    out = fl.explore(0, lambda q, e, facts: q)
    n = 0
    for q, dec in out:
        facts = dict(dec)
        v = strip_rng(deep_under(r.c, r.ret, facts))
        n += 1
        sels = [s for s in selections(facts) if s.atom in facts]
        where = loc(P, k)
        if not C.ob(len(sels) == 1, "SampleNuclide:a nuclide is returned only when selected", where, "returns %s under %s" % (show(v)[:200], ", ".join(show(c)[:80] for c in facts))):
            continue
        v = e = sels[0].at_element(v)
        while e.op in ("deref", "addr") and e.args[0].op in ("fld", "deref", "addr"):
            e = e.args[0]
        el = e.args[0] if e.op == "fld" and e.args[1] == "first" else None
        if not C.ob(el is not None and el.op == "elem", "SampleNuclide:the selected nuclide is returned", where, "returns %s" % show(v)[:300]):
            continue
        w = (to_poly(T("fld", el, "second")) * Poly.a(T("call", "Nuclide::GetTotal", v, this))).term()
        mat = container_owner(el)
        judge(C, r, fl, "SampleNuclide", sels[0], [T("call", "Material::GetMicroscopicTotal", mat, this)], [w], ends([el.args[0]]), where)
    C.ob(n >= 1, "SampleNuclide:returns", loc(P, k))


def container_owner(el):
    c = el.args[0]
    return c.args[0] if c.op == "fld" else c


def interaction(P, C, cls):
    k = virtual_impl(P, cls, "Interaction", "Interact")
    p = T("var", "p", "param", 0)
    this = T("this")
    where = loc(P, k)
    kt = virtual_impl(P, cls, "Interaction", "GetTotal")
    rcont = [f["name"] for f in P.recs[cls]["fields"] if "ContinuousReaction" in f["t"]]
    opq = ("ContinuousReaction::GetCrossSection", "ContinuousReaction::Interact", "Particle::BankSecondaries")
    inl = lambda k2, f: short(f["q"]) not in opq and (not rcont or k2 not in (kt,))
    r = Run(P, k, this=this, args=[p], inline=inl)
    tv = strip_rng(Run(P, kt, this=this, args=[p], inline=inl).value)
    total = [tv, T("call", short(P.fns[kt]["q"]), this, p)]
    fl = Flow(r)
    self_q = short(P.fns[k]["q"])
    sites = {}

    def note(e, kind, facts):
        d = cfacts(r, e.facts)
        d.update(facts)
        sites.setdefault((e, kind), set()).add(frozenset(d.items()))

    def delta(q, e, facts):
        if e.kind == "call" and e.name == "ContinuousReaction::Interact":
            note(e, "reaction", facts)
            return True
        if e.kind == "call" and e.name == self_q:
            return True       # drawn again
        if e.kind == "write" and e.places and isinstance(e.places[0], T):
            pl = e.places[0]
            if pl is T("fld", p, "event"):
                note(e, "reaction", facts)
                return True
            if pl.op == "fld" and pl.args[0] is p and pl.args[1] == "energy":
                note(e, "group", facts)
        if e.kind == "call" and e.name == "Particle::BankSecondaries":
            note(e, "group", facts)
        return q
    out = fl.explore(False, delta)
    for q, dec in out:
        C.ob(q, cls + ":every collision has an outcome", where, "a path returns without an interaction: %s" % ", ".join(show(c)[:100] for c, x in dec))
    G = T("fld", T("fld", p, "energy"), "$get@unsigned long")
    for (e, kind), fss in sites.items():
        for fs in fss:
            facts = dict(fs)
            sels = selections(facts)
            if rcont:
                who = strip_rng(deep_under(r.c, e.this, facts)) if isinstance(e.this, T) else None
                key = "%s:reaction" % cls
                if not C.ob(len(sels) == 1, key + " taken only when selected", r.loc(e), "%d selections" % len(sels)):
                    continue
                who = sels[0].at_element(who)
                ws = []
                for f in rcont:
                    el = T("deref", T("elem", T("fld", this, f)))
                    if who is el:
                        ws.append(T("call", "ContinuousReaction::GetCrossSection", el, p))
                C.ob(bool(ws), key + " selected is the one that happens", r.loc(e), "is %s" % show(who)[:200])
                judge(C, r, fl, key, sels[0], total, ws, ends([T("fld", this, f) for f in rcont]), r.loc(e))
                continue
            # data by group
            rea = [s for s in sels if s.w is None or over_reactions(P, cls, s.w, this)]
            grp = [s for s in sels if s not in rea]
            key = "%s:reaction" % cls
            if C.ob(len(rea) == 1, key + " taken only when selected", r.loc(e), "%d selections" % len(rea)):
                ws = []
                for f in P.recs[cls]["fields"]:
                    if "Reaction" in f["t"]:
                        ws += table_at(P, cls, T("fld", T("elem", T("fld", this, f["name"])), "second"), G)
                judge(C, r, fl, key, rea[0], total, ws, ends([T("fld", this, f["name"]) for f in P.recs[cls]["fields"]]), r.loc(e))
            if kind == "reaction":
                C.ob(not grp, key + " does not depend on a group selection", r.loc(e))
                continue
            key = "%s:%s" % (cls, "outgoing group" if e.kind == "write" else "fission group")
            if not C.ob(len(grp) == 1, key + " taken only when selected", r.loc(e), "%d selections" % len(grp)):
                continue
            s = grp[0]
            val = deep_under(r.c, e.val if e.kind == "write" else e.args[1], facts)
            g = group_of(val)
            w = s.w.term() if s.w is not None else None
            i = w.args[1] if w is not None and w.op == "idx" else None
            C.ob(i is not None and g is not None and (to_poly(g) - to_poly(i) - Poly.c(1)).zero(), key + ":the group selected is the one taken", r.loc(e), "takes %s with weight %s" % (show(val)[:100], show(w)[:200]))
            if i is None:
                C.ob(s.problem is None, key + ":running sum of the weights", r.loc(e), s.problem or "")
                continue
            sizes = [T("fld", this, f["name"]) for f in P.recs[cls]["fields"] if strip_type(f["t"]) in ("unsigned long", "size_t", "Group") or "Group" == strip_type(f["t"])] + [T("call", "size", w.args[0])]
            ok = False
            bnd = upto(i, sizes)
            start = to_poly(i)
            judge(C, r, fl, key, s, [const(1)], [w], bnd, r.loc(e))
            C.ob(starts_at_zero(i), key + ":every group is considered", r.loc(e), "positions are %s" % show(i)[:100])
    need = {"reaction"} | (set() if rcont else {"group"})
    C.ob(need <= {x for _, x in sites}, cls + ":selections found", where)


def starts_at_zero(i):
    """position that runs 0, 1, 2, ..."""
    if i.op in ("counter", "pos"):
        return True
    p = to_poly(i)
    for a in p.atoms():
        if a.op in ("loop", "loopx") and len(a.args) == 2 and isnum(a.args[0]):
            s = step(a.args[1])
            if s is not None and (s - Poly.c(1)).zero():
                return (p - Poly.a(a) + Poly.c(a.args[0].args[0])).zero()
    return False


def group_of(v):
    while v.op in ("variant", "new") and v.args and isinstance(v.args[-1], T):
        v = v.args[-1]
    return v


def over_reactions(P, cls, w, this):
    names = [f["name"] for f in P.recs[cls]["fields"] if "Reaction" in f["t"]]
    return any(contains(a, lambda x: x.op == "elem" and x.args[0] in [T("fld", this, n) for n in names]) for a in w.atoms())


def table_at(P, cls, table, g):
    out = []
    one = T("var", "one", "ot")
    for at in fns(P, cls + "::OneDimensional::at"):
        w = Run(P, at, this=T("deref", one), args=[g]).value
        out.append(Canon()(rsub(w, {T("deref", one): table})))
    return out
