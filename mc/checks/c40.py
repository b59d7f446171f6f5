"""Thermal scattering follows its tables."""
from fractions import Fraction as Fr
from ..spec import *
from .. import grid
from ..grid import paths, equal, ratio, multiple, matters

RULE = ("case analysis of every lookup in the thermal scattering tables: for each position the looked up energy, temperature, beta and cumulative probability can have on its axis (before the first point, between two, "
        "behind the last, single point) and each outcome of the draws, the value is compared as a real function with interpolation between the neighbouring points; outgoing energy and cosine by value numbering")
MINIMUM = 60
CLS = "ThermalScattering"
K = T("named", "constants::boltzmann")


def run(P, C):
    total(P, C)
    parts(P, C)
    valid(P, C)
    kinematics(P, C)
    concatenated(P, C)
    beta(P, C)
    alpha(P, C)


def fld(*names):
    t = T("this")
    for n in names:
        t = T("fld", t, n)
    return t


def axis(ds, i):
    return T("deref", T("call", "HDF5DataSet::GetAxis", ds, const(i)))


def at(ds, *i):
    return T("call", "HDF5DataSet::at", ds, *i)


ANCHORS = ("GetTotal", "GetMajorant", "IsValid", "Scatter", "SampleBeta", "SampleAlpha", "Evaluate")


def inline(k, f):
    """lambdas and helpers; not the tables and the functions decided on their own"""
    if f.get("lambda"):
        return True
    q = short(f["q"])
    return q.split("::")[0] == CLS and q.split("::")[-1] not in ANCHORS or str(f.get("loc", "")).split(":")[0].endswith("ThermalScattering.cpp") and "::" not in q


def method(P, name, cls=CLS):
    return fn(P, cls + "::" + name)


# -- tables -----------------------------------------------------------------------
def weights(e, ax, key, above="clamp"):
    """[(index, weight)] of the points a value is interpolated between"""
    c = e.path.pos[(ax, key)]
    one = Poly.c(1)
    if c in ("below", "single"):
        return [(Poly(), one)]
    if c == "above":
        if above == "clamp":
            return [(e.n(ax) - one, one)]
        j = e.n(ax) - one
    else:
        j = e.j(ax, key)
    lo, hi = (Poly.a(T("idx", ax, x.term())) for x in (j - one, j))
    k = to_poly(key)
    w = (hi - lo).pow(Fr(-1))
    return [(j - one, (hi - k) * w), (j, (k - lo) * w)]


def modes(e, sizes, *factors):
    """sum over all orders"""
    o = T("iter", sizes)
    t = Poly.c(1)
    for f in factors:
        t = t * Poly.a(f(o))
    return Poly.a(T("loop", const(0), (Poly.a(T("acc")) + t).term()))


def describe(e):
    return ", ".join("%s %s" % (show(k[1])[:40], c) for k, c in sorted(e.path.pos.items(), key=lambda x: str(x[0][1]))) or "always"


def total(P, C):
    k = method(P, "GetTotal")
    r = Run(P, k, inline=inline)
    v = r.value
    EA, TA = axis(fld("scatter_xs_E"), 0), axis(fld("scatter_xs_T"), 0)
    S = axis(fld("scatter_xs_S"), 0)
    n = 0
    # energies at or above the last one are not thermal (IsValid); a table has more than one energy
    for p, e, x in paths(P, v, lambda a, key, c: not (a is EA and c in ("above", "single"))):
        axes = {a: key for a, key in p.pos}
        n += 1
        if EA not in axes or TA not in axes:
            C.ob(False, "total:energy and temperature are looked up", loc(P, k), "looked up: %s" % describe(e))
            continue
        ke, kt = axes[EA], axes[TA]
        ok = x is not None
        if ok:
            w = Poly()
            for i, a in weights(e, EA, ke):
                for j, b in weights(e, TA, kt):
                    w = w + a * b * modes(e, S, lambda o: at(fld("scatter_xs_S"), o), lambda o: at(fld("scatter_xs_E"), i.term(), o), lambda o: at(fld("scatter_xs_T"), j.term(), o))
            ok = equal(x, w.term())
        C.ob(ok, "total cross section:%s/%s" % (p.pos[(EA, ke)], p.pos[(TA, kt)]), loc(P, k),
             "with %s the total cross section is %s instead of interpolating between neighbouring tabulated values" % (describe(e), "undefined (0/0)" if x is None else show(x)[:300]))
        C.ob(energy_of(ke, P, k) and temperature_of(ke, kt, P, k), "total:looked up at %s/%s" % (p.pos[(EA, ke)], p.pos[(TA, kt)]), loc(P, k), "looked up at %s and %s" % (show(ke), show(kt)))
        left = matters(P, v, p, p.cond, x)
        C.ob(not left, "total:nothing else decides at %s/%s" % (p.pos[(EA, ke)], p.pos[(TA, kt)]), loc(P, k), "depends on %s" % [show(c)[:100] for c in left])
    C.count("cases of the total cross section", n)


def particle(P, k):
    return T("var", P.fns[k]["params"][0]["name"], "param", 0)


def energy_of(t, P, k):
    p = particle(P, k)
    return contains(t, lambda x: x.op == "call" and last(str(x.args[0])) == "GetEnergy" and x.args[1] is p) and not contains(t, lambda x: x.op == "P")


def temperature_of(e, t, P, k):
    p = particle(P, k)
    ok = t.op == "call" and last(str(t.args[0])) == "at" and len(t.args) == 3
    return (ok and contains(t.args[1], lambda x: x.op == "fld" and x.args[1] == "temperature") and contains(t.args[1], lambda x: x.op == "call" and last(str(x.args[0])) == "GetCell" and x.args[1] is p)
            and contains(t.args[2], lambda x: x.op == "call" and last(str(x.args[0])) == "GetPosition" and x.args[1] is p))


def parts(P, C):
    for cls, ds in (("BetaPartition", "E_T_modes"), ("AlphaPartition", "beta_T_modes")):
        k = method(P, "Evaluate", CLS + "::" + cls)
        r = Run(P, k, inline=inline)
        a = [T("var", x["name"], "param", j) for j, x in enumerate(P.fns[k]["params"])]
        TA, S = axis(fld(ds), 1), axis(fld("singular_values"), 0)
        n = 0
        for p, e, x in paths(P, r.value):
            n += 1
            keys = {key for ax, key in p.pos}
            if (TA, a[2]) not in p.pos or len(p.pos) > 1:
                C.ob(False, "%s:temperature is looked up" % cls, loc(P, k), "looked up: %s" % describe(e))
                continue
            case = p.pos[(TA, a[2])]
            ok = False
            for way in ("clamp", "extrapolate") if case == "above" else ("clamp",):
                w = Poly()
                for j, b in weights(e, TA, a[2], way):
                    w = w + b * modes(e, S, lambda o: at(fld("singular_values"), o), lambda o: at(fld("CDF_modes"), a[0], o), lambda o: at(fld(ds), a[1], j.term(), o))
                ok = ok or x is not None and equal(x, w.term())
            C.ob(ok, "%s:%s" % (cls, case), loc(P, k), "with a temperature %s the value is %s" % ({"single": "above the only one", "below": "below the first", "above": "above the last", "between": "between two"}[case],
                                                                                           "undefined (0/0)" if x is None else show(x)[:300]))
            left = matters(P, r.value, p, p.cond, x)
            C.ob(not left, "%s:nothing else decides:%s" % (cls, case), loc(P, k), "depends on %s" % [show(c)[:100] for c in left])
        C.count("cases of mode expansions", n)


def valid(P, C):
    k = method(P, "IsValid")
    v = Run(P, k, inline=inline).value
    o = Obj(P, ctors(P, CLS)[0], inline=lambda k2, f: bool(f.get("lambda")))
    cut = o.field("cutoff_energy")
    ds = cut.args[0] if cut.op == "idx" else cut
    C.ob(cut.op == "idx" and cut.args[1].op == "back" and contains(cut, lambda x: x.op == "call" and str(x.args[0]) == "pugi::xml_node::attribute" and x.args[2] is const("total_E"))
         and contains(cut, lambda x: x.op == "call" and last(str(x.args[0])) == "GetAxis" and x.args[-1] is const(0)), "cutoff is the last tabulated energy", loc(P, k), "cutoff is %s" % show(cut)[:200])
    # true exactly for neutrons below the cutoff
    for facts, leaf in dleaves(v):
        below = neutron = None
        for c, pol in facts:
            if c.op == "neg0":
                q = to_poly(c.args[0])
                if len(q.m) == 2 and sum(q.m.values()) == 0 and Poly.a(fld("cutoff_energy")).m.keys() & q.m.keys():
                    s = q.m[next(iter(Poly.a(fld("cutoff_energy")).m))]
                    below = pol if s < 0 else None
                    if not any(contains(a, lambda x: x.op == "call" and last(str(x.args[0])) == "GetEnergy") for a in q.atoms()):
                        below = None
            if c.op in ("zero", "eq"):
                if contains(c, lambda x: x.op == "call" and last(str(x.args[0])) == "GetType") and contains(c, lambda x: x.op == "enum" and str(x.args[0]).endswith("neutron")):
                    neutron = pol
        want = True if below and neutron else False if below is False or neutron is False else None
        C.ob(want is not None and leaf.op == "const" and bool(leaf.args[0]) == want, "valid:neutron %s, below cutoff %s" % (neutron, below), loc(P, k), "valid is %s under %s" % (show(leaf), [(show(c)[:80], b) for c, b in facts]))
    k = method(P, "GetMajorant")
    v = Run(P, k, inline=inline).value
    while v.op == "deref" or v.op == "call" and v.args[0] in ("static_cast", "conv"):
        v = v.args[-1]
    C.ob(v.op == "call" and last(str(v.args[0])) == "at" and v.args[1] is fld("majorant") and energy_of(v.args[2], P, k), "majorant is looked up at the energy", loc(P, k), "is %s" % show(v)[:200])


def dleaves(t, facts=()):
    if t.op == "ite":
        c = t.args[0]
        yield from dleaves(t.args[1], facts + ((c, True),))
        yield from dleaves(t.args[2], facts + ((c, False),))
    elif t.op in ("neg0", "zero"):
        yield facts + ((t, True),), const(True)
        yield facts + ((t, False),), const(False)
    elif t.op == "not":
        for f, l in dleaves(t.args[0], facts):
            yield f, const(not l.args[0]) if l.op == "const" else T("not", l)
    else:
        yield facts, t


# -- collision --------------------------------------------------------------------
def kinematics(P, C):
    k = method(P, "Scatter")
    r = Run(P, k, inline=inline)
    p = particle(P, k)
    calls = r.events("call", name="Particle::Scatter")
    C.ob(len(calls) == 1, "one outgoing state", loc(P, k), "%d calls of Particle::Scatter" % len(calls))
    for e in calls:
        mu, E2 = (r.c(x) for x in e.args[:2])
        while E2.op == "variant":
            E2 = E2.args[0]
        bs = {x for x in subterms(E2) if x.op == "call" and last(str(x.args[0])) == "SampleBeta"}
        als = {x for x in subterms(mu) if x.op == "call" and last(str(x.args[0])) == "SampleAlpha"}
        if len(bs) != 1 or len(als) != 1:
            C.ob(False, "one beta, then one alpha", r.loc(e), "outgoing energy %s, cosine %s" % (show(E2)[:200], show(mu)[:200]))
            continue
        b, = bs
        a, = als
        E, Tm = b.args[3], b.args[4]
        C.ob(energy_of(E, P, k) and temperature_of(E, Tm, P, k), "beta is sampled at energy and temperature", r.loc(e), "at %s and %s" % (show(E), show(Tm)))
        C.ob(a.args[3] is b and a.args[4] is E and a.args[5] is Tm, "alpha is sampled at beta, energy and temperature", r.loc(e), "at %s" % [show(x)[:80] for x in a.args[3:6]])
        kT = Poly.a(K) * Poly.a(Tm)
        out = Poly.a(E) + Poly.a(b) * kT
        C.ob(equal(E2, out.term()), "outgoing energy", r.loc(e), "is %s" % show(E2)[:300])
        num = (Poly.a(E) + out - Poly.a(a) * Poly.a(fld("awr")) * kT).scale(Fr(1, 2))
        wants = (num * (Poly.a(E) * out).pow(Fr(-1, 2)), num * Poly.a(E).pow(Fr(-1, 2)) * out.pow(Fr(-1, 2)))
        C.ob(any(equal(mu, w.term()) for w in wants), "outgoing cosine", r.loc(e), "is %s" % show(mu)[:300])


def concatenated(P, C):
    k = ctors(P, CLS)[0]
    o = Obj(P, k, inline=lambda k2, f: inline(k2, f) and not f.get("ctor"))
    for f, ends, ds in (("Es", "beta_partition_E_ends", "E_T_modes"), ("betas", "alpha_partition_beta_ends", "beta_T_modes")):
        v = o.field(f)
        ins = [x for x in subterms(v) if x.op == "call" and last(str(x.args[0])) in ("insert", "push_back", "emplace_back")]
        rng = {x for x in subterms(v) if x.op == "call" and x.args[0] in ("begin", "cbegin", "end", "cend") and contains(x, lambda y: y.op == "fld" and y.args[1] == ds)}
        ok = v.op == "loop" and v.args[0].op == "new" and bool(rng) and all(x.args[1].op == "deref" and contains(x.args[1], lambda y: y.op == "call" and last(str(y.args[0])) == "GetAxis" and y.args[-1] is const(0)) for x in rng)
        C.ob(ok, "%s are those of all partitions, one after the other" % f, loc(P, k), "is %s" % show(v)[:200])
        v = o.field(ends)
        ok = v.op == "vec" and v.args[0] is T("call", "size", T("fld", o.place, ends.split("_")[0] + "_partitions"))
        if ok:
            q = to_poly(v.args[1])
            ls = [a for a in q.atoms() if a.op == "loop"]
            ok = len(ls) == 1 and isnum(ls[0].args[0]) and ls[0].args[0].args[0] == 0
            if ok:
                step = to_poly(ls[0].args[1]) - Poly.a(T("acc"))
                ok = (q - Poly.a(ls[0]) - step).zero() and contains(step.term(), lambda y: y.op == "fld" and y.args[1] == ds) and contains(step.term(), lambda y: y.op == "call" and y.args[0] == "size")
        C.ob(ok, "%s counts the points up to and including each partition" % ends, loc(P, k), "is %s" % show(v)[:300])


# -- sampling ---------------------------------------------------------------------
def leave(v):
    """(condition, value) of the first accepted round"""
    while v.op == "lexit":
        return v.args[1], v.args[2]
    return None


def direction(path, want, positive_means):
    """what the conditions say about the sign of a polynomial: list of (outcome, condition)"""
    out = []
    for n, (c, pol) in enumerate(list(path.cond.items()) * 2):
        if c.op != "neg0":
            continue
        q = to_poly(c.args[0])
        if n < len(path.cond):
            s = multiple(q, want)
        elif out:
            break
        else:
            s = ratio(q, want, path)
        if s is None:
            continue
        # s>0: c means want<0
        out.append((c, (not pol) if s > 0 else pol))
    return out


def partition(e, ends, i):
    """(partition, local index) of point i"""
    c = e.path.pos.get((ends, i))
    if c is None or e.path.kind[(ends, i)] != "upper":
        return None
    j = e.j(ends, i)
    loc_ = to_poly(i) if c == "below" else to_poly(i) - Poly.a(T("idx", ends, (j - Poly.c(1)).term()))
    return j.term(), loc_.term()


def segment(e, Fs, F, value, first, last_):
    """value at F on the straight lines through the tabulated points and the two ends"""
    c = e.path.pos[(Fs, F)]
    one = Poly.c(1)
    j, n = e.j(Fs, F), e.n(Fs)
    flo = Poly() if c == "below" else Poly.a(T("idx", Fs, (j - one).term()))
    fhi = one if c in ("above", "single") else Poly.a(T("idx", Fs, j.term()))
    vlo = first if c == "below" else value(j - one)
    vhi = last_ if c in ("above", "single") else value(j)
    return (flo, fhi), (vlo, vhi)


def beta(P, C):
    k = method(P, "SampleBeta")
    r = Run(P, k, inline=inline)
    p, E, Tm = [T("var", x["name"], "param", j) for j, x in enumerate(P.fns[k]["params"])]
    Es, ends = fld("Es"), fld("beta_partition_E_ends")
    one = Poly.c(1)
    n = 0

    def allowed(ax, key, c):
        # below the cutoff, and every point belongs to a partition
        return not (ax in (Es, ends) and c in ("above", "single"))

    for path, e, x in paths(P, r.value, allowed):
        n += 1
        name = describe(e)
        if (Es, E) not in path.pos:
            C.ob(False, "beta:energy is looked up", loc(P, k), "looked up: %s" % name)
            continue
        left = dict(path.cond)
        j = e.j(Es, E)
        if path.pos[(Es, E)] == "below":
            chosen = j
            tag = "below"
        else:
            lo, hi = (Poly.a(T("idx", Es, y.term())) for y in (j - one, j))
            got = None
            for d in draws_of(path, x):
                # lower iff the fraction is at most the draw
                w = Poly.a(d) - (Poly.a(E) - lo) * (hi - lo).pow(Fr(-1))
                for c, nonneg in direction(path, w, None):
                    got = nonneg
                    left.pop(c, None)
            if got is None:
                C.ob(False, "beta:choice of the energy", loc(P, k), "with %s the choice between the neighbouring energies is not made by the distance to them: %s" % (name, [show(c)[:200] for c in path.cond]))
                continue
            chosen = j - one if got else j
            tag = "lower" if got else "upper"
        ci = chosen.term()
        pl = partition(e, ends, ci)
        if pl is None:
            C.ob(False, "beta:partition of the chosen energy:%s" % tag, loc(P, k), "with %s the partition is not that of the chosen energy" % name)
            continue
        part, local = pl
        Ps = T("idx", fld("beta_partitions"), part)
        Fs = axis(T("fld", Ps, "CDF_modes"), 0)
        keys = [key for ax, key in path.pos if ax is Fs]
        if len(keys) != 1 or keys[0].op != "xi":
            C.ob(False, "beta:cumulative probability:%s" % tag, loc(P, k), "with %s: looked up on the axis of the chosen partition: %s" % (name, [show(y) for y in keys]))
            continue
        F = keys[0]
        ev = lambda i: Poly.a(T("call", CLS + "::BetaPartition::Evaluate", Ps, i.term(), local, Tm))
        kT = Poly.a(K) * Poly.a(Tm)
        first = (Poly.a(T("idx", Es, ci)) * kT.pow(Fr(-1))).scale(Fr(-1))
        (flo, fhi), (vlo, vhi) = segment(e, Fs, F, ev, first, Poly.a(fld("beta_cutoff")))
        w = vlo + (Poly.a(F) - flo) * (fhi - flo).pow(Fr(-1)) * (vhi - vlo)
        case = "%s, partition %s, F %s" % (tag, path.pos[(ends, ci)], path.pos[(Fs, F)])
        C.ob(x is not None and equal(strip_pure(x), w.term()), "beta:value:%s" % case, loc(P, k), "with %s beta is %s" % (name, "undefined" if x is None else show(x)[:400]))
        # accepted: not more energy lost than there is
        acc = None
        for c, nonneg in direction(path, w + Poly.a(E) * kT.pow(Fr(-1)), None):
            acc = nonneg
            left.pop(c, None)
        C.ob(acc is True, "beta:acceptance:%s" % case, loc(P, k), "with %s beta is accepted if %s" % (name, [(show(c)[:200], b) for c, b in path.cond.items()]))
        # (a wrong value is reported already)
        left = matters(P, r.value, path, left, x, allowed) if x is not None and equal(strip_pure(x), w.term()) else ()
        C.ob(not left, "beta:nothing else decides:%s" % case, loc(P, k), "depends on %s" % [show(c)[:200] for c in left])
    C.count("cases of beta", n)
    C.ob(n >= 8, "beta:cases", loc(P, k), "%d cases" % n)


def strip_pure(x):
    return x


def draws_of(path, x):
    s = set()
    for c in path.cond:
        s |= {y for y in subterms(c) if y.op == "xi"}
    return sorted(s, key=lambda y: y.uid)


def alpha(P, C):
    k = method(P, "SampleAlpha")
    r = Run(P, k, inline=inline)
    p, b, E, Tm = [T("var", x["name"], "param", j) for j, x in enumerate(P.fns[k]["params"])]
    bs, ends = fld("betas"), fld("alpha_partition_beta_ends")
    v = r.value
    seen = {}
    # one lookup after the other in all its cases, the others between two points
    for mode in ("betas", "partition", "probability", "limits", "single"):
        def allowed(ax, key, c):
            what = "partition" if ax is ends else "betas" if ax is bs else "limits" if key.op == "pred" else "probability"
            if mode == "single":
                return c in ("below", "single") if what in ("limits", "probability") else c == "between"
            if what == "partition" and c in ("above", "single"):
                return False    # every point belongs to a partition
            return c == "between" or what == mode and c != "single"
        for path, e, x in paths(P, v, allowed):
            one_alpha(P, C, k, path, e, x, (p, b, E, Tm), mode, seen, v, allowed)
    C.count("cases of alpha", sum(seen.values()))
    C.ob(set(seen) == {"betas", "partition", "probability", "limits", "single"}, "alpha:cases", loc(P, k), "%s cases" % seen)


def one_alpha(P, C, k, path, e, x, params, mode, seen, value, allowed):
    p, b, E, Tm = params
    bs, ends = fld("betas"), fld("alpha_partition_beta_ends")
    one = Poly.c(1)

    def ob(ok, key, text):
        C.ob(ok, key, loc(P, k), "" if ok else text())
    kT = Poly.a(K) * Poly.a(Tm)
    ab = T("abs", b)
    if (bs, ab) not in path.pos:
        C.ob(False, "alpha:size of beta is looked up", loc(P, k), "looked up: %s" % describe(e))
        return
    left = dict(path.cond)

    def says(want):
        got = None
        for c, nonneg in direction(path, want, None):
            got = nonneg
            left.pop(c, None)
        return got
    # sign of beta
    pos, neg = (left.pop(T("neg0", Poly.a(b).scale(Fr(s)).term()), None) for s in (-1, 1))
    sgn = 1 if pos else -1 if neg else 0 if pos is False and neg is False else None
    if sgn is None:
        # the same for either sign
        up, down = [T("neg0", Poly.a(b).scale(Fr(s)).term()) for s in (-1, 1)]
        for a_, b_ in ((True, False), (False, True), (False, False)):
            if pos in (None, a_) and neg in (None, b_):
                q = grid.Path(path)
                q.cond[up], q.cond[down] = a_, b_
                one_alpha(P, C, k, q, e, x, params, mode, seen, value, allowed)
        return
    where = path.pos[(bs, ab)]
    j = e.j(bs, ab)
    hi = Poly.a(T("idx", bs, j.term()))
    draw = None
    if where == "above":
        chosen, tag = j - one, "last"
    else:
        # neighbours above the largest energy transfer, or above all the energy there is, do not count
        out = False
        if sgn == 1:
            out = says(hi - Poly.a(fld("beta_cutoff")))
            if out is None:
                ob(False, "alpha:largest beta", lambda: "with %s, positive beta: not compared with the largest beta" % describe(e))
                return
        if sgn == -1:
            out = says(hi - Poly.a(E) * kT.pow(Fr(-1)))
            if out is None:
                ob(False, "alpha:energy available", lambda: "with %s, negative beta: not compared with the energy there is" % describe(e))
                return
        if out:
            if where == "below":
                # no usable neighbour
                if sgn == -1:
                    ob(x is not None, "alpha:no tabulated beta leaves energy", lambda: "SampleAlpha fails for a negative beta smaller than the first tabulated one if the first tabulated one exceeds E/(kT)")
                return
            chosen, tag = j - one, "lower only"
        elif where == "below":
            chosen, tag = j, "first"
        else:
            lo = Poly.a(T("idx", bs, (j - one).term()))
            got = None
            for d in draws_of(path, x):
                g = says(Poly.a(d) - (Poly.a(ab) - lo) * (hi - lo).pow(Fr(-1)))
                got = g if g is not None else got
            if got is None:
                ob(False, "alpha:choice of the beta", lambda: "with %s the choice between the neighbouring betas is not made by the distance to them: %s" % (describe(e), [show(c)[:200] for c in path.cond]))
                return
            chosen, tag = (j - one, "lower") if got else (j, "upper")
    ci = chosen.term()
    tag = "beta %s 0, %s" % ({1: ">", -1: "<", 0: "="}[sgn], tag)
    if x is None:
        ob(False, "alpha:%s" % tag, lambda: "with %s (%s) sampling alpha looks up a value outside of a table or divides by zero" % (describe(e), tag))
        return
    pl = partition(e, ends, ci)
    if pl is None:
        ob(False, "alpha:partition of the chosen beta:%s" % tag, lambda: "with %s (%s) the partition is not that of the chosen beta" % (describe(e), tag))
        return
    part, local = pl
    Ps = T("idx", fld("alpha_partitions"), part)
    Fs = axis(T("fld", Ps, "CDF_modes"), 0)

    def limits(y):
        se, sb = Poly.a(E).pow(Fr(1, 2)), (Poly.a(E) + y * kT).pow(Fr(1, 2))
        akT = (Poly.a(fld("awr")) * kT).pow(Fr(-1))
        return (se - sb) * (se - sb) * akT, (se + sb) * (se + sb) * akT
    b_s = Poly.a(T("idx", bs, ci)).scale(Fr(sgn))
    amin, amax = limits(b_s)
    ev = lambda i: Poly.a(T("call", CLS + "::AlphaPartition::Evaluate", Ps, i.term(), local, Tm))
    cut = Poly.a(fld("alpha_cutoff"))
    F = {}
    for ax, key in path.pos:
        if key.op != "pred" or ax is not Fs:
            continue
        what = searched(key, Fs, Ps, local, Tm)
        for n, a in (("min", amin), ("max", amax)):
            if what is not None and equal(what, a.term()):
                (flo, fhi), (vlo, vhi) = segment(e, Fs, key, ev, Poly(), cut)
                F[n] = flo + (a - vlo) * (fhi - flo) * (vhi - vlo).pow(Fr(-1))
                F[n, "case"] = path.pos[(ax, key)]
    keys = [key for ax, key in path.pos if ax is Fs and key.op != "pred"]
    if "min" not in F or "max" not in F or len(keys) != 1:
        ob(False, "alpha:probabilities of the limits:%s" % tag, lambda: "with %s (%s) the cumulative probabilities of the smallest and largest alpha are not looked up in the partition of the chosen beta" % (describe(e), tag))
        return
    case = "%s, partition %s, limits %s %s, F %s" % (tag, path.pos[(ends, ci)], F["min", "case"], F["max", "case"], path.pos[(Fs, keys[0])])
    d = [y for y in subterms(keys[0]) if y.op == "xi" and equal(keys[0], (F["min"] + Poly.a(y) * (F["max"] - F["min"])).term())]
    ob(len(d) == 1, "alpha:probability:%s" % case, lambda: "with %s (%s) the cumulative probability is %s" % (describe(e), tag, show(keys[0])[:300]))
    if not d:
        return
    Fp = to_poly(keys[0])
    (flo, fhi), (vlo, vhi) = segment(e, Fs, keys[0], ev, Poly(), cut)
    a = vlo + (Fp - flo) * (fhi - flo).pow(Fr(-1)) * (vhi - vlo)
    bmin, bmax = limits(Poly.a(b))
    want = bmin + (a - amin) * (bmax - bmin) * (amax - amin).pow(Fr(-1))
    right = equal(x, want.term())
    ob(right, "alpha:value:%s" % case, lambda: "with %s (%s) alpha is %s" % (describe(e), tag, show(x)[:400]))
    lo, hi_ = says(amin - a), says(a - amax)
    lo2, hi2 = says(a - amin), says(amax - a)
    ob((lo is False or lo2 is True) and (hi_ is False or hi2 is True), "alpha:acceptance:%s" % case, lambda: "with %s (%s) alpha is accepted if %s" % (describe(e), tag, [(show(c)[:200], y) for c, y in path.cond.items()]))
    # (a wrong value is reported already)
    left = matters(P, value, path, left, x, allowed) if right else ()
    C.ob(not left, "alpha:nothing else decides:%s" % case, loc(P, k), "depends on %s" % [show(c)[:200] for c in left])
    seen[mode] = seen.get(mode, 0) + 1


def searched(key, Fs, Ps, local, Tm):
    """the value searched for if the order is that of the expansion at each point of the axis"""
    el, c = key.args
    if c.op != "neg0":
        return None
    q = to_poly(c.args[0])
    evs = [a for a in q.atoms() if a.op == "call" and last(str(a.args[0])) == "Evaluate" and contains(a, lambda y: y.op == "elem")]
    if len(evs) != 1 or q.m.get(((evs[0], Fr(1)),), 0) >= 0:
        return None
    a = evs[0]
    q = q.scale(Fr(-1) / Fr(q.m[((a, Fr(1)),)]))
    if a.args[1] is not Ps or a.args[3] is not local or a.args[4] is not Tm:
        return None
    i = to_poly(a.args[2])
    ad = [y for y in i.atoms() if contains(y, lambda z: z.op == "elem")]
    rest = i - Poly.a(ad[0]) if len(ad) == 1 else None
    if rest is None or ad[0].op != "addr" or len(rest.m) != 1 or next(iter(rest.m.values())) != -1:
        return None
    base, = rest.atoms()
    if not contains(base, lambda y: y is Fs):
        return None
    return (q + Poly.a(a)).term()
