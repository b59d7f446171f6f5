"""The output file."""
from ..roles import *
from ..flow import Flow
from ..lib import flat, par
from .c11 import one_value

RULE = ("typestate over the main program: on every path to a normal end exactly the number of histories, a separator and the text of the "
        "solved tally set are written, in that order, to the one output file, whose path is the input path with extension .out; the text "
        "of the tally set is derived as a grammar by value numbering: for every tally, unconditionally, its name, the boundaries of each of "
        "its axes, the lists of means and standard errors over all bins, and the same for every sensitivity; in every list and between any "
        "two written values there is a separating literal")
MINIMUM = 20
SEP = " \t\n,;|"


def run(P, C):
    program(P, C)
    text(P, C)
    separated(P, C)
    names(P, C)
    axes(P, C)


# -- the main program -------------------------------------------------------
def histories_field(P):
    """member of the driver read from the element <histories>"""
    for k in ctors(P, "Driver"):
        r = Run(P, k, inline=lambda k, f: not any(is_subclass(P, short(strip_type(p["t"])), "World") for p in f["params"]) and (not f.get("cls") or f.get("lambda") or f["cls"] == "Driver"))
        for f in P.recs["Driver"]["fields"]:
            v = r.final(T("fld", T("this"), f["name"]))
            if any(x.op == "const" and x.args[0] == "histories" for x in subterms(v)) and short(strip_type(f["t"])) not in P.recs:
                return f["name"]
    raise AnalysisError("the driver has no member for the number of histories")


def program(P, C):
    hist = histories_field(P)
    ks = [k for k in P.fns if P.fns[k]["q"] == "main"]
    if len(ks) != 1:
        raise AnalysisError("main not found")
    r = Run(P, ks[0], inline=lambda k, f: not f.get("cls"))
    argv = T("var", P.fns[ks[0]]["params"][1]["name"], "param", 1) if len(P.fns[ks[0]]["params"]) > 1 else None
    where = loc(P, ks[0])
    files = {}
    for e in r.events("decl"):
        v = e.args[0] if e.args else None
        if v is not None and v.op == "new" and last(v.args[0]) in ("basic_ofstream", "basic_fstream"):
            files[e.places[0]] = (e, v)
    C.ob(len(files) == 1, "one output file", where, "%d output files are opened" % len(files))
    if len(files) != 1:
        return
    (fp, (e, v)), = files.items()
    opens = [x for x in r.events("ext") if last(x.name) == "open" and x.this is fp]
    path = [a for a in r.c(v).args[1:] if isinstance(a, T)]
    if opens:
        path = [r.c(a) for a in opens[0].args]
    good = False
    for p in path:
        for x in subterms(p):
            if x.op in ("call", "upd") and last(x.args[0]) == "replace_extension":
                good = good or any(y.op == "const" and y.args[0] in (".out", "out") for y in subterms(x)) and any(y.op == "idx" and y.args[0] is argv and isconst(y.args[1], 1) for y in subterms(x))
    C.ob(good, "file named after the input with extension .out", r.loc(e), "the output goes to %s" % "; ".join(show(p) for p in path)[:400])

    def kinds(ev):
        """what one output operation writes"""
        out = []
        for a in ev.args:
            t = r.c(a)
            if t.op == "fnref" or isconst(t) and t.args[0] is None:
                if "endl" in show(t):
                    out.append("sep")
                continue
            for it in flat(t):
                if it[0] == "lit":
                    if it[1].strip(SEP):
                        out.append("text")
                    if it[1] and it[1][-1] in SEP:
                        out.append("sep")
                elif it[0] == "val":
                    w = it[1]
                    if w.op == "call" and last(w.args[0]) == "to_string" and w.args[0].startswith("EstimatorSet"):
                        out.append("set" if solved(w.args[1]) else "other set")
                    elif any(x.op == "fld" and x.args[1] == hist or x.op == "after" and hist in show(x) for x in subterms(w)) and plain(w):
                        out.append("count")
                    else:
                        out.append("other %s" % show(w)[:80])
                else:
                    out.append(it[0])
        return out

    def plain(w):
        while w.op == "call" and last(w.args[0]) == "to_string" and len(w.args) == 2:
            w = w.args[1]
        if w.op == "after":
            w = w.args[2] if len(w.args) > 2 and isinstance(w.args[2], T) else w.args[-1]
        return w.op == "after" or w.op == "fld" and w.args[1] == hist

    def solved(t):
        for x in subterms(t):
            if x.op == "call" and last(x.args[0]) == "Solve" and any(y.op == "call" and y.args[0] == "Driver::Create" and any(z.op == "idx" and z.args[0] is argv for z in subterms(y)) for y in subterms(x)):
                return True
        return False

    def delta(q, ev, facts):
        if ev.kind == "throw":
            return None
        if ev.kind == "out" and (ev.this is fp or (ev.places and ev.places[0] is fp)):
            return q + tuple(kinds(ev))
        return q
    F = Flow(r)
    ends = {q for q, _ in F.explore((), delta)}
    C.count("ways the program ends normally", len(ends))
    C.ob(bool(ends), "the program can end normally", where, "no path leads to the end of the program")
    for q in ends:
        ok = [x for x in q if x != "sep"] == ["count", "set"] and "sep" in q[q.index("count"):q.index("set")]
        C.ob(ok, "histories, then all tallies are written", where, "written on one path: %s" % (", ".join(q) or "nothing"))


# -- the text of the tallies ------------------------------------------------
def classify(body, E, s, q, out, loops=()):
    for it in body:
        if it[0] == "val":
            out.append((it[1], loops))
        elif it[0] == "loop":
            classify(it[1], E, s, q, out, loops + (it,))
        elif it[0] in ("ite", "alt"):
            out.append((T("conditional"), loops))


def text(P, C):
    s, q = score_roles(P)
    k = fn(P, "EstimatorSet::to_string")
    where = loc(P, k)
    r = Run(P, k)
    top = flat(r.value)
    lists = [f for f in P.recs["EstimatorSet"]["fields"] if short(strip_type(f["t"])) == "std::vector"]
    if len(lists) != 1:
        raise AnalysisError("the tally set does not hold one list of tallies")
    sens = [f["name"] for f in P.recs["Estimator"]["fields"] if short(strip_type(f["t"])) == "std::vector"]
    if len(sens) != 1:
        raise AnalysisError("a tally does not hold one list of sensitivities")
    E = T("deref", T("elem", T("fld", T("this"), lists[0]["name"])))
    lp = [it for it in top if it[0] == "loop"]
    C.ob(len(lp) == 1 and all(it[0] in ("lit", "loop", "fill") for it in top), "one entry for every tally", where,
         "the text is made of: %s" % ", ".join(it[0] if it[0] != "val" else show(it[1])[:60] for it in top))
    if len(lp) != 1:
        return
    axes = [f["name"] for f in P.recs["ParticleBins"]["fields"] if pointee(f["t"]) == "Bins"]
    if not axes:
        raise AnalysisError("tally axes not found")
    got = part(lp[0][1], E)
    inner = [it for it in lp[0][1] if it[0] == "loop"]
    S = T("deref", T("elem", T("fld", E, sens[0])))
    sl = [it for it in inner if mentions(it[1], S)]
    for what, owner, items in (("tally", E, [it for it in lp[0][1] if it not in sl]),):
        block(C, where, what, owner, items, s, q)
    vals = [it[1] for it in lp[0][1] if it[0] == "val"]
    for a in axes:
        n = [v for v in vals if v.op == "call" and last(v.args[0]) == "to_string" and any(x.op == "fld" and x.args[1] == a and contains(x, lambda y: y is E) for x in subterms(v))]
        C.ob(len(n) == 1, "boundaries of axis %s of every tally" % a, where, "written %d times" % len(n))
    C.ob(len(sl) == 1, "one entry for every sensitivity of a tally", where, "%d lists of sensitivities are written for each tally" % len(sl))
    if len(sl) == 1:
        block(C, where, "sensitivity", S, sl[0][1], s, q)
        C.ob(lp[0][1].index(sl[0]) > max([i for i, it in enumerate(lp[0][1]) if it[0] == "val" or it[0] == "loop" and it not in sl] or [0]), "sensitivities follow their tally", where)


def pointee(t):
    t = strip_type(t)
    a = template_args(t)
    x = a[0] if a else t
    return short(strip_type(x)).replace("const ", "").strip()


def mentions(items, t):
    for it in items:
        if it[0] == "val" and contains(it[1], lambda x: x is t):
            return True
        if it[0] == "loop" and mentions(it[1], t):
            return True
        if it[0] == "ite" and (mentions(it[2], t) or mentions(it[3], t)):
            return True
        if it[0] == "alt" and any(mentions(b, t) for b in it[1]):
            return True
    return False


def part(items, E):
    return [it for it in items if it[0] in ("val", "loop")]


def block(C, where, what, E, items, s, q):
    """name, list of means, list of errors, in that order and without conditions"""
    cond = [it for it in items if it[0] in ("ite", "alt")]
    C.ob(not cond, "no part of a %s is left out" % what, where, "parts of the text depend on a condition")
    S, Q = T("fld", E, s), T("fld", E, q)
    order = []
    for it in items:
        if it[0] == "val" and it[1] is T("fld", E, "name"):
            order.append("name")
        elif it[0] == "loop":
            one = lambda x: x[1] if x[0] == "val" else one_value(x) if x[0] == "ite" else None
            vs = [par(one(x), [S, Q]) for x in it[1] if one(x) is not None]
            extra = [x for x in it[1] if x[0] not in ("val", "lit", "fill") and one(x) is None]
            has = lambda v, X: contains(v, lambda y: y is T("elem", X))
            if len(vs) == 1 and not extra and has(vs[0], Q):
                order.append("errors")
            elif len(vs) == 1 and not extra and has(vs[0], S):
                order.append("means")
            else:
                order.append("another list (%s)" % ", ".join(show(v)[:80] for v in vs))
    C.ob(order == ["name", "means", "errors"], "%s: name, means and errors of every bin" % what, where, "written for each %s: %s" % (what, ", ".join(order) or "nothing"))


# -- separation ---------------------------------------------------------------
def separated(P, C):
    todo = [fn(P, "EstimatorSet::to_string")] + [virtual_impl(P, c, "Bins", "to_string") for c in concrete(P, "Bins")]
    for k in todo:
        r = Run(P, k)
        bad = []
        check(flat(r.value), bad)
        C.count("texts")
        C.ob(not bad, "%s: written values are separated" % short(P.fns[k]["q"]), loc(P, k), "nothing separates %s" % "; ".join(bad)[:300])


def edge(it, end):
    """what a text item starts (0) or ends (-1) with: True a separator, False a value, None nothing"""
    if it[0] == "lit":
        return True if it[1][end] in SEP or not (it[1][end].isalnum() or it[1][end] in ".+-") else False
    if it[0] == "fill":
        return not (it[2].isalnum() or it[2] in ".+-")
    if it[0] == "val":
        return False
    if it[0] == "loop":
        seq = [x for x in it[1]]
        return edge(seq[end], end) if seq else None
    if it[0] == "ite":
        xs = [edge(b[end], end) if b else None for b in (it[2], it[3])]
    else:
        xs = [edge(b[end], end) if b else None for b in it[1]]
    return False if False in xs else None if None in xs else True


def check(items, bad):
    prev = None
    for it in items:
        if it[0] == "loop":
            check(it[1], bad)
            if it[1]:
                a, b = edge(it[1][-1], -1), edge(it[1][0], 0)
                if a is not True and b is not True and any(x[0] == "val" for x in it[1]):
                    bad.append("the values of a list")
        elif it[0] == "ite":
            check(it[2], bad)
            check(it[3], bad)
        elif it[0] == "alt":
            for b in it[1]:
                check(b, bad)
        if prev is not None and edge(prev, -1) is False and edge(it, 0) is False and (prev[0] != "lit" or it[0] != "lit") and numeric(prev, it):
            bad.append("%s and %s" % (label(prev), label(it)))
        prev = it if edge(it, -1) is not None else prev


def numeric(a, b):
    """two values touch (a value next to a word is told apart by the word)"""
    v = lambda it: it[0] != "lit"
    return v(a) and v(b)


def label(it):
    return show(it[1])[:60] if it[0] == "val" else it[0]


# -- names --------------------------------------------------------------------
def names(P, C):
    n = 0
    for cls in ["Estimator", "Sensitivity"]:
        for k in ctors(P, cls, lambda f: not f.get("copyctor") and not f.get("movector")):
            r = Run(P, k)
            v = r.final(T("fld", T("this"), "name"))
            n += 1
            if cls == "Estimator":
                ok = any(x.op == "const" and x.args[0] == "name" for x in subterms(v)) and all(it[0] == "val" for it in flat(v))
                C.ob(ok, "a tally's name is the one given in the input", loc(P, k), "the name is %s" % show(v)[:200])
            else:
                ps = [i for i, p in enumerate(P.fns[k]["params"]) if is_subclass(P, strip_type(p["t"]), "Perturbation")]
                pt = T("var", P.fns[k]["params"][ps[0]]["name"], "param", ps[0]) if ps else None
                ok = pt is not None and any(it[0] == "val" and it[1] is T("fld", pt, "name") for it in flat(v))
                C.ob(ok, "a sensitivity's name identifies its perturbation", loc(P, k), "the name is %s" % show(v)[:200])
    if not n:
        raise AnalysisError("constructors of tallies not found")


# -- boundaries ---------------------------------------------------------------
def axes(P, C):
    """each kind of axis prints every one of its boundaries: the whole list, or from the lower to the upper limit given in the input in equal steps"""
    from .c19 import logs, renorm
    from ..algebra import to_poly, Poly
    th = T("this")
    for cls in concrete(P, "Bins"):
        kt, ks = virtual_impl(P, cls, "Bins", "to_string"), virtual_impl(P, cls, "Bins", "size")
        where = loc(P, kt)
        cs = ctors(P, cls, lambda f: not f.get("copyctor") and not f.get("movector") and not f["implicit"])
        size = Run(P, ks).value
        items = flat(Run(P, kt).value)
        if isconst(size, 1):
            C.ob(all(it[0] != "val" for it in items), "%s: no boundaries of a single bin" % cls, where, "prints %r" % (items,))
            continue
        if not cs:
            raise AnalysisError("constructor of %s not found" % cls)
        rc = Run(P, cs[0])
        fields = {T("fld", th, f["name"]): rc.final(T("fld", th, f["name"])) for f in P.recs[cls]["fields"]}
        lists = [it for it in items if it[0] == "loop"]
        vals = [x[1] for it in lists for x in it[1] if x[0] == "val"]
        C.ob(len(lists) == 1 and len(vals) == 1 and not [x for x in lists[0][1] if x[0] in ("ite", "alt", "loop")], "%s: one list of boundaries, without conditions" % cls, where, "the text is made of %s" % ", ".join(it[0] for it in items))
        if len(lists) != 1 or len(vals) != 1:
            continue
        B = vals[0]
        if B.op == "elem" and B.args[0] in fields:
            n = T("call", "size", B.args[0])
            C.ob(same(size, (Poly.a(n) + Poly.c(1)).term()), "%s: all boundaries are printed" % cls, where, "%s is printed for %s bins" % (show(B), show(size)))
            continue
        cnt = {x for x in subterms(B) if x.op == "counter"}
        if len(cnt) != 1:
            C.ob(False, "%s: boundaries enumerated from zero" % cls, where, "boundary %s" % show(B)[:300])
            continue
        cnt, = cnt
        n, i = cnt.args[0], T("var", "i", "i")
        close = lambda t: logs(renorm(subst(Canon()(renorm(t)), fields)))
        C.ob(same(n, (to_poly(size) - Poly.c(1)).term()), "%s: all boundaries are printed" % cls, where, "%s boundaries are printed for %s bins" % (show(n), show(size)))
        # the limits of the range
        e = lambda t: t.args[2] if t.op == "call" and t.args[0] == "pow" and len(t.args) == 3 else t
        if contains(Run(P, virtual_impl(P, cls, "Bins", "GetIndex")).value, lambda x: x.op == "call" and x.args[0].startswith("log")):
            C.ob(contains(B, lambda x: x.op == "call" and x.args[0].startswith(("pow", "exp"))), "%s: values are printed, not their logarithms" % cls, where, "it prints %s" % show(B)[:300])
        Bi = e(renorm(subst(B, {cnt: i})))
        first = to_poly(close(subst(Bi, {i: const(0)})))
        lastb = to_poly(close(subst(Bi, {i: (to_poly(size) - Poly.c(2)).term()})))
        step = to_poly(close(subst(Bi, {i: (Poly.a(i) + Poly.c(1)).term()}))) - to_poly(close(Bi))
        lim = {}
        for w, p in (("min", first), ("max", lastb)):
            t = p.term()
            names = {x.args[0] for x in subterms(t) if x.op == "const" and isinstance(x.args[0], str)}
            ok = names == {w} and len(p.m) == 1 and not contains(t, lambda x: x.op == "counter")
            ok = ok and list(p.m.values())[0] == 1 and len(list(p.m)[0]) == 1 and list(p.m)[0][0][1] == 1
            C.ob(ok, "%s: %s boundary is the limit '%s' of the input" % (cls, "first" if w == "min" else "last", w), where, "it is %s" % show(t)[:300])
        C.ob(not contains(step.term(), lambda x: x is i), "%s: equal steps" % cls, where, "the step from boundary i is %s" % show(step.term())[:300])
