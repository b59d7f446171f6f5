"""Outcomes of multigroup collisions."""
from ..kine import *
from ..select import selections, Loops
from .c30 import CLS, ONE, TWO, NORM, the_table
from .c22 import starts_at_zero, group_of, upto

RULE = ("paths through the multigroup collision with symbolic values of everything written: every path on which scattering was selected ends with a group and a direction, the group being the one selected from the incident group's row of the "
        "transfer probabilities (positions 0..groups-1 of the row, so a group between 1 and the number of groups), the direction having cosine 2u-1 and azimuth 2 pi u' with draws used for nothing else; "
        "on fission paths secondaries are banked one per iteration of a loop that runs trunc(yield of the incident group + u) times, each with a group selected from the incident group's row of the spectrum and an isotropic direction, "
        "all random numbers being drawn anew between two secondaries; nothing is banked otherwise")
MINIMUM = 15


def tables(P):
    """members holding yield, spectrum and transfer probabilities, by the node they are built from"""
    fromnode = lambda f: f["params"] and "xml_node" in f["params"][0]["t"]
    node = T("var", "node", "carg", 0)
    inl = lambda k, f: not (f.get("ctor") and fromnode(f) and short(f["q"]).rsplit("::", 1)[0] in (ONE, TWO, NORM))
    fis = child(node, "fission")
    want = {"nubar": child(fis, "nubar"), "chi": child(fis, "chi"), "scatter": child(node, "scatter")}
    got = {}
    for kc in ctors(P, CLS, fromnode):
        o = Obj(P, kc, args=[node], inline=inl)
        for f in P.recs[CLS]["fields"]:
            v = o.field(f["name"])
            if "map" in f["t"]:
                continue
            for n, w in want.items():
                if contains(v, lambda x: x.op == "new" and len(x.args) == 2 and x.args[1] is w):
                    got[n] = (f["name"], "optional" in f["t"])
    return got


def collision(P, bank=True):
    k = virtual_impl(P, CLS, "Interaction", "Interact")
    p = T("var", "p", "param", 0)
    r = Run(P, k, this=T("this"), args=[p])
    return k, p, r


def run(P, C):
    tab = tables(P)
    C.ob(set(tab) == {"nubar", "chi", "scatter"}, "tables found", loc(P, ctors(P, CLS)[0]), "found %s" % tab)
    if set(tab) != {"nubar", "chi", "scatter"}:
        return
    k, p, r = collision(P)
    this = T("this")
    G = T("fld", T("fld", p, "energy"), "$get@unsigned long")
    fl, outs = outcomes(r, p)
    where = loc(P, k)

    def member(n):
        t = T("fld", this, tab[n][0])
        return T("fld", t, "$val") if tab[n][1] else t

    def row(n):
        m = member(n)
        s1, s2 = the_table(P, ONE), the_table(P, TWO)
        if n == "nubar":
            return spec("e[g-1]", e=T("fld", m, s1), g=G)
        return T("fld", spec("e[g-1]", e=T("fld", m, s2), g=G), s1)
    key = lambda x: x.op == "fld" and x.args[1] == "first" or x.op == "first"
    done = set()
    kinds = set()
    for o in outs:
        rk = which(P, "Reaction", o.facts, key)
        for e, f in o.seq:
            for kk, vv in which(P, "Reaction", dict(f), key).items():
                rk[kk] = rk.get(kk, vv) & vv
        sel = {next(iter(v)) for v in rk.values() if len(v) == 1}
        kind = next(iter(sel)) if len(sel) == 1 else None
        kinds.add(kind)
        wg = o.writes(T("fld", p, "energy"))
        wd = [x for x in o.seq if x[0].kind == "write" and place_of(x[0], p) == "direction"]
        bk = [x for x in o.seq if banks(x[0])]
        if kind != "fission":
            C.ob(not bk, "only fission produces secondaries", r.loc(bk[0][0]) if bk else where, "selected reaction: %s" % kind)
        if kind == "scatter":
            C.count("scatter paths")
            C.ob(len(wg) == 1, "scatter:takes one outgoing group", where, "%d writes of the group" % len(wg))
            C.ob(len(wd) == 1, "scatter:takes one outgoing direction", where, "%d writes of the direction" % len(wd))
            for e, f in wg:
                if ("g", e, f) not in done:
                    done.add(("g", e, f))
                    judge_group(C, r, "scatter", e, e.val, dict(f), row("scatter"), P, this)
            for e, f in wd:
                if ("d", e, f) not in done:
                    done.add(("d", e, f))
                    v = deep_under(r.c, e.val, dict(f))
                    used = {x for w, g in wg for x in draws(strip_rng(deep_under(r.c, w.val, dict(g))))} | {x for c in f for x in draws(strip_rng(c[0]))}
                    judge_dir(C, r, "scatter", e, v, used)
        elif kind == "fission":
            C.count("fission paths")
            C.ob(not wg and not wd, "fission:leaves the incident particle alone", where)
            for e, f in bk:
                if (e, f) in done:
                    continue
                done.add((e, f))
                facts = dict(f)
                new = strip_rng(deep_under(r.c, e.val, facts))
                new = new.args[-1] if new.op == "upd" else new
                d, g = aggfield(new, "direction"), aggfield(new, "energy")
                if d is None:
                    d = T("agg", T("none"), tuple(((n,), aggfield(new, "direction", n)) for n in ("x", "y", "z") if aggfield(new, "direction", n) is not None))
                if not C.ob(g is not None, "fission:secondaries have a group", r.loc(e), show(new)[:200]):
                    continue
                judge_group(C, r, "fission", e, g, facts, row("chi"), P, this)
                used = {x for c in f for x in draws(strip_rng(c[0]))} | set(draws(g))
                judge_dir(C, r, "fission", e, d, used)
                ns = [(n, q) for n, q in integer_of({strip_rng(a): b for a, b in facts.items()})]
                ok = False
                for n, q in ns:
                    ok = ok or yields(n, q, row("nubar"))
                C.ob(ok, "fission:number of secondaries is the integer part of the yield plus a uniform number", r.loc(e), "counted loops: %s" % [show(n)[:150] for n, q in ns])
                # drawn anew for each
                sels = [s for s in selections(facts)]
                marks = draw_events(fl, d)
                for s in sels:
                    if s.w is not None and contains(s.w.term(), lambda x: x is row("chi")):
                        marks |= draw_events(fl, s.thr.term())
                C.ob(len(marks) >= 3, "fission:random numbers of a secondary", r.loc(e), "%d draws found" % len(marks))
                miss = fresh_between(fl, e, marks)
                C.ob(not miss, "fission:every secondary has its own random numbers", r.loc(e), "drawn once for several: %s" % ", ".join(sorted(show(strip_rng(r.c(m.val)))[:60] for m in miss)))
            if bk:
                L = Loops(fl)
                for n in fl.nodes:
                    for e in fl.nodes[n]:
                        if any(e is b for b, _ in bk):
                            C.ob(bool(L.of(n)), "fission:one secondary for each", r.loc(e))
                many = {x[0] for x in bk}
                C.ob(len(many) == 1, "fission:one secondary per unit of the yield", r.loc(bk[0][0]), "%d places bank" % len(many))
    C.ob({"scatter", "fission"} <= kinds, "outcomes of scatter and fission found", where, str(kinds))
    C.ob(any(banks(e) for o in outs for e, f in o.seq), "fission:banks", where)
    C.assumptions += ["real arithmetic", "rows of the tables have one entry per group and add up to one (C30)", "selections take the first alternative whose running sum exceeds the threshold (C22)"]


def place_of(e, p):
    pl = e.places[0]
    n = None
    while pl.op == "fld":
        n = pl.args[1]
        if pl.args[0] is p:
            return n
        pl = pl.args[0]
    return None


def judge_group(C, r, key, e, val, facts, row, P, this):
    v = deep_under(r.c, val, facts)
    g = group_of(v)
    sels = [s for s in selections(facts) if s.w is not None]
    hit = []
    for s in sels:
        w = s.w.term()
        if w.op == "idx" and w.args[0] is row or w.op == "elem" and w.args[0] is row:
            hit.append((s, w))
    if not C.ob(len(hit) == 1, key + ":group drawn from the incident group's probabilities", r.loc(e), "weights: %s" % [show(s.w.term())[:150] for s in sels]):
        return
    s, w = hit[0]
    i = w.args[1] if w.op == "idx" else T("iter", row)
    ok = g is not None and (to_poly(g) - to_poly(i) - Poly.c(1)).zero()
    C.ob(ok, key + ":the group drawn is the one taken", r.loc(e), "takes %s" % show(v)[:150])
    C.ob(w.op == "elem" or starts_at_zero(i), key + ":group at least 1", r.loc(e), "position %s" % show(i)[:100])
    sizes = [T("fld", this, f["name"]) for f in P.recs[CLS]["fields"] if strip_type(f["t"]) in ("unsigned long", "size_t", "Group")] + [T("call", "size", row)]
    C.ob(i.op in ("iter", "pos") or w.op == "elem" or below(facts, i, sizes), key + ":group at most the number of groups", r.loc(e), "under %s" % [show(c)[:100] for c in facts][:6])


def below(facts, i, sizes):
    """the facts say position i < one of the sizes"""
    for c, pol in facts.items():
        if c.op in ("neg0", "zero"):
            q = to_poly(c.args[0])
            for n in sizes:
                d = to_poly(i) - to_poly(n)
                if c.op == "neg0" and pol and (q - d).zero():
                    return True
                # not (n - 1 - i < 0), group <= n
                if c.op == "neg0" and not pol and (q + d + Poly.c(1)).zero():
                    return True
                if c.op == "zero" and not pol and ((q - d).zero() or (q + d).zero()):
                    return True
        if c.op == "eq" and not pol:
            q = to_poly(c.args[0]) - to_poly(c.args[1])
            for n in sizes:
                d = to_poly(i) - to_poly(n)
                if (q - d).zero() or (q + d).zero():
                    return True
    return False


def judge_dir(C, r, key, e, v, used):
    iso = isotropic(strip_rng(v))
    if C.ob(iso is not None, key + ":direction is isotropic", r.loc(e), "is %s" % show(strip_rng(v))[:400]):
        C.ob(not (set(iso) & used), key + ":direction has its own random numbers", r.loc(e))


def yields(n, q, want):
    """a loop bound of trunc(want + u)"""
    if not (q + to_poly(n)).zero():
        return False
    if n.op == "trunc":
        arg = n.args[0]
    elif n.op == "call" and n.args[0] in ("floor", "std::floor"):
        arg = n.args[1]
    else:
        return False
    x = to_poly(arg) - to_poly(want)
    ds = draws(x.term())
    return len(ds) == 1 and ((x - Poly.a(ds[0])).zero() or (x + Poly.a(ds[0]) - Poly.c(1)).zero())
