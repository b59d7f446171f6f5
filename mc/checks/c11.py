"""Reported mean and standard error."""
from ..roles import *
from ..grid import multiple

RULE = ("value numbering of the text written for every tally: each reported number of a 'mean' list must be S/N and of a "
        "'std dev' list sqrt(Q - S^2/N)/N for the same bin, where S and Q are the accumulated scores and squared scores and N is "
        "the number of histories of the set; the queried mean must be S[bin]/N and N must be the number of histories of the run")
MINIMUM = 6


def sqrt_same(v, ref2):
    """v is the non-negative square root of ref2"""
    p = to_poly(v)
    if not p.mono() or p.lead() <= 0:
        return False
    if not any(e.denominator == 2 for k in p.m for a, e in k):
        return False
    return clear(p * p - ref2).zero()


def numbers(items, want, out, loop=None, label=""):
    """numeric items of a grammar with the nearest preceding heading"""
    for it in items:
        if it[0] == "lit":
            for h in ("mean", "std dev"):
                if h in it[1]:
                    label = h
        elif it[0] == "val":
            if contains(it[1], lambda x: x.op == "fld" and x.args[1] in want):
                out.append((it[1], label, loop))
        elif it[0] == "loop":
            numbers(it[1], want, out, it, label)
        elif it[0] == "ite" and one_value(it) is not None and contains(one_value(it), lambda x: x.op == "fld" and x.args[1] in want):
            out.append((one_value(it), label, loop))
        elif it[0] in ("ite",):
            numbers(it[2], want, out, loop, label)
            numbers(it[3], want, out, loop, label)
        elif it[0] == "alt":
            for b in it[1]:
                numbers(b, want, out, loop, label)


def one_value(it):
    """an alternative between two numbers is one number"""
    if it[0] == "val":
        return it[1]
    if it[0] == "lit":
        try:
            return const(float(it[1]) if float(it[1]) != int(float(it[1])) else int(float(it[1])))
        except ValueError:
            return None
    if it[0] == "ite" and len(it[2]) == len(it[3]) == 1:
        a, b = one_value(it[2][0]), one_value(it[3][0])
        return None if a is None or b is None else T("ite", it[1], a, b)
    return None


def everywhere(v, good, zero, facts=()):
    """every alternative is the reference; 0 will do where the reference is known to be zero or cannot be negative"""
    if v.op == "ite":
        return everywhere(v.args[1], good, zero, facts + ((v.args[0], True),)) and everywhere(v.args[2], good, zero, facts + ((v.args[0], False),))
    if good(v):
        return True
    return isnum(v) and v.args[0] == 0 and any(zero(c, b) for c, b in facts)


def run(P, C):
    s, q = score_roles(P)
    k = fn(P, "EstimatorSet::to_string")
    r = Run(P, k)
    N = T("fld", T("this"), weight_field(P))
    items = flat(r.value)
    out = []
    numbers(items, (s, q), out)
    owners = {}
    kinds = {}
    where = loc(P, fn(P, "Scorable::GetScoreAsString")) if P.byq.get("Scorable::GetScoreAsString") else loc(P, k)
    for v, label, lp in out:
        # the tally the number belongs to
        ow = {x.args[0] for x in subterms(v) if x.op == "fld" and x.args[1] in (s, q)}
        if len(ow) != 1:
            C.ob(False, "number combines one tally", where, "a reported number mixes tallies: %s" % show(v)[:300])
            continue
        ow = ow.pop()
        S, Q = T("fld", ow, s), T("fld", ow, q)
        v = par(v, [S, Q])
        es, eq = T("elem", S), T("elem", Q)
        n = to_poly(N)
        mean = (to_poly(es) * n.pow(-1)).term()
        var = (to_poly(eq) - to_poly(es) * to_poly(es) * n.pow(-1)) * n.pow(-2)
        which = "sensitivity" if contains(ow, lambda x: x.op == "fld" and "sensit" in x.args[1]) else "estimator"
        kinds.setdefault((which, label), 0)
        kinds[(which, label)] += 1
        C.count("reported numbers")
        if label == "mean":
            nil = lambda c, b: b and c.op == "zero" and to_poly(c.args[0]).mono() and contains(c, lambda x: x is es) and not contains(c, lambda x: x is eq)
            C.ob(everywhere(v, lambda x: same(x, mean), nil), "%s mean is S/N" % which, where, "mean is written as %s" % show(v)[:300])
        elif label == "std dev":
            def nil(c, b):
                if c.op not in ("zero", "neg0"):
                    return False
                x = clear(to_poly(c.args[0]))
                m = clear(var)
                pos = multiple(x, m)
                return b and pos is not None and (c.op == "zero" or pos > 0) or not b and pos == -1 and c.op == "neg0"
            C.ob(everywhere(v, lambda x: sqrt_same(x, var), nil), "%s standard error formula" % which, where, "standard error is written as %s" % show(v)[:300])
        else:
            C.ob(False, "%s number under a heading" % which, where, "number %s is written under no known heading" % show(v)[:200])
    for which in ("estimator", "sensitivity"):
        for label in ("mean", "std dev"):
            C.ob(kinds.get((which, label), 0) == 1, "%s %s reported once" % (which, label), where,
                 "list '%s' of each %s is written %d times" % (label, which, kinds.get((which, label), 0)))
    # queried mean
    for k in fns(P, "Scorable::GetScore", lambda f: len(f["params"]) == 2):
        r = Run(P, k)
        i, w = [T("var", p["name"], "param", j) for j, p in enumerate(P.fns[k]["params"])]
        ref = spec("S[i]/w", S=T("fld", T("this"), s), i=i, w=w)
        C.ob(same(r.value, ref), "queried mean is S[bin]/N", loc(P, k), "returns %s" % show(r.value)[:200])
    # N: what the set is constructed with
    k = fn(P, "Driver::Driver", lambda f: not f["implicit"])
    r = Run(P, k, inline=lambda k2, f: last(f["q"]) == "EstimatorSet" and not f.get("copyctor"))
    field = T("fld", T("this"), "init_estimator_set")
    n = r.c(read_field(r, T("fld", field, weight_field(P))))
    ref = r.c(read_field(r, T("fld", T("this"), "batchsize")))
    C.ob(n is ref and n.op != "fld", "N is the number of histories", loc(P, k), "total weight %s, histories %s" % (show(n)[:200], show(ref)[:200]))
    # copies keep N
    for k in [m["key"] for m in P.recs["EstimatorSet"]["methods"] if m["key"] in P.fns and P.fns[m["key"]].get("copyctor")]:
        f = P.fns[k]
        if f["defaulted"] or f["implicit"]:
            continue
        r = Run(P, k, inline=lambda k2, f: False)
        o = T("var", f["params"][0]["name"], "param", 0)
        v = r.c(read_field(r, T("fld", T("this"), weight_field(P))))
        C.ob(v is T("fld", o, weight_field(P)), "copies keep N", loc(P, k), "copy has total weight %s" % show(v)[:200])
    C.assumptions.append("identities are decided in real arithmetic; rounding is not modelled")


def read_field(r, place):
    from ..interp import snapshot
    return snapshot(r.st, place)


def weight_field(P):
    fs = [f["name"] for f in P.recs["EstimatorSet"]["fields"] if is_float(f["t"])]
    if len(fs) != 1:
        raise AnalysisError("tally set has %d scalar members, expected its total weight only" % len(fs))
    return fs[0]
