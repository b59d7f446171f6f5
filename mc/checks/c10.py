"""Merging and copying results loses nothing."""
from ..roles import *
from ..interp import snapshot
from ..effects import lenrep
from .c13 import whole

RULE = ("value numbering of merge effects (every tally and every sensitivity adds the one of the same name, a missing counterpart is an exception, every bin of both sums is added), member completeness of every copy "
        "operation and Clone, and the fold over all workers in the solver")
MINIMUM = 10
ADD = "Scorable::operator+="


def run(P, C):
    merge(P, C)
    bins(P, C)
    copies(P, C)
    solve(P, C)


def vec_of(P, cls, of):
    fs = [f["name"] for f in P.recs[cls]["fields"] if "vector" in f["t"] and of in f["t"]]
    if len(fs) != 1:
        raise AnalysisError("%s has no single list of %s" % (cls, of))
    return fs[0]


def merge(P, C):
    k = fn(P, "EstimatorSet::operator+=")
    f = P.fns[k]
    o = T("var", f["params"][0]["name"], "param", 0)
    this = T("this")
    r = Run(P, k, this=this, args=[o], inline=lambda k2, f2: short(f2["q"]) != ADD)
    es, ss = vec_of(P, "EstimatorSet", "Estimator"), vec_of(P, "Estimator", "Sensitivity")
    mine = T("elem", T("fld", this, es))
    E = T("deref", mine)
    S = T("deref", T("elem", T("fld", E, ss)))

    def counterpart(cont, t):
        """the element of a list with the name of t"""
        x = T("deref", T("elem", cont))
        return T("deref", T("first", cont, r.c(T("bin", "==", T("fld", x, "name"), T("fld", t, "name"))))), r.c(T("bin", "==", T("fld", x, "name"), T("fld", t, "name")))
    oe, we = counterpart(T("fld", o, es), E)
    os_, ws = counterpart(T("fld", oe, ss), S)
    table = {"tally": (E, oe, [T("exists", T("fld", o, es), we)]),
             "sensitivity": (S, os_, [T("exists", T("fld", o, es), we), T("exists", T("fld", oe, ss), ws)])}
    got = {w: [] for w in table}
    for e in r.events("call"):
        if e.name != ADD:
            continue
        t = r.c(e.this)
        w = [w for w in table if table[w][0] is t]
        if not w:
            C.ob(False, "merge adds to tallies and sensitivities of the set", r.loc(e), "adds to %s" % show(t)[:200])
            continue
        got[w[0]].append(e)
    for w, (t, ot, conds) in table.items():
        C.ob(len(got[w]) == 1, "every %s is merged once" % w, loc(P, k), "each %s is added %d times" % (w, len(got[w])))
        for e in got[w]:
            a = r.c(e.args[0])
            C.ob(a is ot, "%s adds its counterpart" % w, r.loc(e), "adds %s" % show(a)[:300])
            rest = cfacts(r, e.facts)
            extra = [c for c, pol in rest.items() if not (c in conds and pol) and not loopfact(c)]
            C.ob(not extra, "%s is merged unconditionally" % w, r.loc(e), "only under %s" % [show(c)[:120] for c in extra])
            for c in conds:
                th = [x for x in r.events("throw") if cfacts(r, x.facts).get(c) is False]
                C.ob(bool(th), "missing counterpart of a %s is an exception" % w, r.loc(e), "nothing is thrown if there is no element with the name")


def loopfact(c):
    return isconst(c) or contains(c, lambda x: x.op in ("iterator", "iterator?", "iter", "counter", "counter?")) or c.op in ("bin", "eq") and contains(c, lambda x: x.op == "call" and x.args[0] == "end") and not contains(c, lambda x: x.op in ("firstit", "first"))


def bins(P, C):
    k = fn(P, ADD)
    f = P.fns[k]
    o = T("var", f["params"][0]["name"], "param", 0)
    obj = T("this")
    r = Run(P, k, this=obj, args=[o])
    for fl in score_roles(P):
        v = r.final(T("fld", obj, fl))
        mine, his = T("fld", obj, fl), T("fld", o, fl)
        ok = v.op == "vec" and v.args[0] in [T("call", "size", lenrep(P, x)) for x in (mine, his)] and same(v.args[1], spec("a+b", a=T("idx", mine, v.args[2]), b=T("idx", his, v.args[2])))
        C.ob(ok, "every bin of %s is added" % fl, loc(P, k), "becomes %s" % show(v)[:300])


def bases(P, cls):
    out = [cls]
    for b in P.recs[cls]["bases"]:
        if b in P.recs:
            out += bases(P, b)
    return out


def copies(P, C):
    todo = ["EstimatorSet"] + concrete(P, "Estimator") + concrete(P, "Sensitivity")
    seen = set()
    for cls in todo:
        for c2 in bases(P, cls):
            for m in P.recs[c2]["methods"]:
                k = m["key"]
                f = P.fns.get(k)
                if not f or not f.get("copyctor") or f["implicit"] or f["defaulted"] or k in seen:
                    continue
                seen.add(k)
                C.count("copy operations")
                o = Obj(P, k, inline=lambda k2, f2: last(f2["q"]) != "Clone")
                other = o.args[0]
                for c3 in bases(P, c2):
                    for fl in P.recs[c3]["fields"]:
                        v = o.field(fl["name"])
                        src = T("fld", other, fl["name"])
                        if is_ref(fl["t"]):
                            continue
                        if "unique_ptr" in fl["t"]:
                            el = T("idx", src, v.args[2]) if v.op == "vec" else None
                            ok = v.op == "vec" and v.args[0] is T("call", "size", src) and v.args[1].op == "call" and last(str(v.args[1].args[0])) == "Clone" and v.args[1].args[1] is T("deref", el)
                        else:
                            ok = v is src
                        C.ob(ok, "copy of %s keeps %s" % (c2, fl["name"]), loc(P, k), "copy has %s" % show(v)[:200])
    for base in ("Estimator", "Sensitivity"):
        for cls in concrete(P, base):
            k = virtual_impl(P, cls, base, "Clone")
            r = Run(P, k, this=T("this"), inline=lambda k2, f2: not f2.get("copyctor"))
            v = r.value
            ok = False
            got = show(v)
            if v.op == "addr" and v.args[0].op == "heap" and v.args[0].args[0] == cls:
                w = r.c(snapshot(r.st, v.args[0]))
                got = show(w)
                ok = w in (T("this"), T("new", cls, T("this")), T("new", cls, T("deref", T("this"))))
            C.ob(ok, "Clone of %s is a copy of the same kind" % cls, loc(P, k), "returns %s" % got[:200])


def solve(P, C):
    from ..worker import worker_key, spawns
    for cls in concrete(P, "Driver"):
        k = virtual_impl(P, cls, "Driver", "Solve")
        if not any(spawns(P, x) for x in cg_reach(P, k)):
            continue
        wk = worker_key(P)
        r = Run(P, k, this=T("this"), inline=lambda k2, f2: short(f2["q"]) not in ("EstimatorSet::operator+=",) and k2 != wk and not (last(f2["q"]) == "EstimatorSet"))
        adds = [e for e in r.events("call") if e.name == "EstimatorSet::operator+="]
        gets = [e for e in r.events("ext") if e.name in ("std::future::get", "std::shared_future::get")]
        C.ob(len(adds) == 1 and len(gets) == 1, "one merge per worker", loc(P, k), "%d merges and %d results of workers" % (len(adds), len(gets)))
        if len(adds) != 1 or len(gets) != 1:
            continue
        a, g = adds[0], gets[0]
        C.ob(contains(r.c(a.args[0]), lambda x: x.op == "call" and last(str(x.args[0])) == "get"), "the merged set is a worker's", r.loc(a), "merges %s" % show(r.c(a.args[0]))[:200])
        t = r.c(g.this)
        every = t.op == "idx" and t.args[1].op == "iter" and (t.args[1].args[0] is t.args[0] or t.args[1].args[0].op == "vec" and contains(t.args[1].args[0], lambda x: x.op == "call" and x.args[0] == "std::async"))
        C.ob(whole(r, g, t) or t.op == "elem" or every, "all workers' results are collected", r.loc(g), "result of %s" % show(t)[:200])
        C.ob(all(loopfact(c) for c in cfacts(r, a.facts)), "every worker's result is merged", r.loc(a), "only under %s" % [show(c)[:150] for c in cfacts(r, a.facts) if not loopfact(c)])
        # every worker that was started is collected: futures are only ever added to the list that is read
        lst = t.args[0] if t.op == "elem" or every else None
        st = [e for e in r.events("ext") if e.name == "std::async"]
        put = [e for e in r.events("ext") if last(e.name) in ("push_back", "emplace_back") and isinstance(e.this, T) and lst is not None and r.c(e.this) is lst]
        C.ob(len(st) == len(put) == 1, "every worker that is started is collected", loc(P, k), "%d starts, %d added to the list that is read" % (len(st), len(put)))
        # the result is the set the workers are merged into, starting from the empty set
        dst = a.this
        v = r.value
        init = T("new", "EstimatorSet", T("fld", T("this"), "init_estimator_set"))
        acc = [x for x in subterms(v) if x.op == "loop"]
        ok = len(acc) == 1 and acc[0].args[0] is init and strip_new(v) is acc[0] and acc[0].args[1].op == "after" and acc[0].args[1].args[1] is T("acc")
        C.ob(ok, "result is the sum over the workers", loc(P, k), "returns %s" % show(v)[:300])


def strip_new(v):
    while v.op == "new" and v.args[0] == "EstimatorSet" and len(v.args) == 2:
        v = v.args[1]
    return v



def cg_reach(P, k):
    r = reach(P, [k])
    r = r[0] if isinstance(r, tuple) else r
    return [x for x in r if x in P.fns]
