"""Tallies accumulate complete histories."""
from ..worker import *
from ..roles import *
from ..effects import modfields
from .c13 import each

RULE = ("typestate over all paths of the worker loop (one fresh score collector per history, committed once after the last particle, to the result set the worker returns), path-wise sums of what an offer adds to the collector, "
        "and value numbering of what a commit adds: for every pending (bin, score) exactly score to the sum and score squared to the sum of squares of that bin, for every tally and sensitivity")
MINIMUM = 10


def run(P, C):
    worker(P, C)
    score(P, C)
    commit(P, C)
    each(P, C, fn(P, "EstimatorSetProxy::CommitHistory"), "EstimatorProxy::CommitHistory", "every tally is committed once")
    each(P, C, fn(P, "EstimatorProxy::CommitHistory"), "ScorableProxy::CommitHistory", "every tally and sensitivity is committed once", own=True)
    # a result set starts at zero
    s, q = score_roles(P)
    for k in ctors(P, "Scorable"):
        o = Obj(P, k, inline=lambda k2, f: "ParticleBins" not in f["q"])
        for f in (s, q):
            v = o.field(f)
            from ..canon import filled
            z = filled(v)
            ok = z is not None and isnum(z) and z.args[0] == 0
            sz = Canon().size(v)
            C.ob(ok and contains(sz, lambda x: x.op == "call" and x.args[0] in ("ParticleBins::size",)), "result sets start with zero in every bin", loc(P, k), "%s starts as %s" % (f, show(v)[:200]))


def worker(P, C):
    W = Worker(P)
    r, k = W.r, W.key
    bad = {}
    clears = modfields(P, "EstimatorSetProxy::CommitHistory")
    clears = clears is None or "pending_scores" in clears

    def note(what, e, msg):
        bad.setdefault(what, (r.loc(e) if e is not None else loc(P, k), msg))
    sets = {}

    def step(q, e):
        n = e.name or ""
        if e.kind == "call":
            if n == "EstimatorSet::GetProxy" or n == "EstimatorSetProxy::EstimatorSetProxy":
                if q == "scored":
                    note("scores are committed", e, "a new collector is made although the scores of the last history are not committed")
                sets.setdefault("fn", set()).add(e.fn)
                sets.setdefault("src", set()).add(e.this if n == "EstimatorSet::GetProxy" else (e.places or (None,))[0])
                return "fresh"
            if n == "Particle::Transport":
                if q not in ("fresh", "scored"):
                    note("one collector per history", e, "particles of a history score into a collector that already holds another history")
                sets.setdefault("used", set()).update(x for x in e.places if isinstance(x, T) and is_proxy(r, x))
                return "scored"
            if n == "EstimatorSetProxy::CommitHistory":
                sets.setdefault("used", set()).add(e.this)
                if q == "committed":
                    note("committed once", e, "the scores of a history can be committed twice")
                return "fresh" if clears else "committed"
        if e.kind == "ext" and draw_step(e) is not None and q == "scored":
            note("scores are committed", e, "a history starts although the scores of the last one are not committed")
        return q
    def delta(state, e, facts):
        # closed: the scores of the running history have been committed and no new history has started
        q, closed = state
        n = e.name or ""
        if e.kind == "call" and n == "Source::Sample" or e.kind == "ext" and draw_step(e) is not None:
            closed = False
        if e.kind == "call" and n == "Particle::Transport" and closed:
            note("committed once", e, "particles of a history score after part of its scores have been committed")
        if e.kind == "call" and n == "EstimatorSetProxy::CommitHistory" and q == "scored":
            closed = True
        return step(q, e), closed

    outs = W.flow.explore(("none", False), delta)
    C.count("paths explored", W.flow.visited)
    for (q, _), dec in outs:
        if q == "scored":
            note("scores are committed", None, "the worker can end without committing the scores of a history")
    C.ob("used" in sets, "worker scores", loc(P, k), "particles are transported without a collector")
    used = {x for x in sets.get("used", ()) if x is not None}
    C.ob(len(used) == 1, "the collector that was scored is committed", loc(P, k), "collectors: %s" % [show(x) for x in used])
    for what in ("one collector per history", "committed once", "scores are committed"):
        C.ob(what not in bad, what, *(bad.get(what, (loc(P, k), ""))))
    # the collector belongs to the worker's own set, which is what it returns
    src = {x for x in sets.get("src", ()) if isinstance(x, T)}
    ok = len(src) == 1
    if ok:
        pl = src.pop()
        own = pl.op in ("var", "tmp")
        C.ob(own, "each worker has its own result set", loc(P, k), "the collector scores into %s" % show(pl))
        rv = {v for q in sets["fn"] for k2 in P.byq[q] for v in returned_vars(P, k2)}
        C.ob(not own or pl.op == "tmp" or pl.args[0] in rv, "the worker returns its result set", loc(P, k), "returns %s, scores go to %s" % (rv, show(pl)))
    else:
        C.ob(False, "each worker has its own result set", loc(P, k), "collectors are made from %s" % [show(x) for x in src])


def is_proxy(r, x):
    return x.op in ("var", "tmp") and x.args[0] is not None


def returned_vars(P, k):
    f = P.fns[k]
    out = set()

    def go(i, d=0):
        n = f["nodes"][i]
        if n["k"] == "DeclRefExpr":
            out.add(n["name"])
        elif d < 6:
            for o in n["ops"]:
                if o is not None:
                    go(o, d + 1)
    for i, n in f["nodes"].items():
        if n["k"] == "ReturnStmt":
            for o in n["ops"]:
                if o is not None:
                    go(o)
    # a copy made right before it is returned: nothing but the copying between the two
    for b in f["blocks"]:
        els = [e.get("s") for e in b["el"]]
        ret = [j for j, i in enumerate(els) if i in f["nodes"] and f["nodes"][i]["k"] == "ReturnStmt"]
        for j in range(ret[0] - 1 if ret else -1, -1, -1):
            n = f["nodes"].get(els[j])
            if n is None or n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                break
            if n["k"] == "DeclStmt":
                for v in n.get("decls") or ():
                    if v.get("name") in out and v.get("op") is not None:
                        go(v["op"])
    return out


def score(P, C):
    """what one offer adds to the collector"""
    k = fn(P, "ScorableProxy::Score")
    f = P.fns[k]
    p = T("var", f["params"][0]["name"], "param", 0)
    r = Run(P, k, this=T("this"), args=[p], inline=lambda k2, f2: short(f2["q"]) not in ("ParticleBins::GetIndex", "Scorable::GetScore"))
    org = T("deref", T("fld", T("this"), ref_field(P, "ScorableProxy", "Scorable")))
    bad = []
    n = [0]
    S = [x for e in r.events("call") if e.name == "Scorable::GetScore" for x in [r.c(e.val)]]
    I = [x for e in r.events("call") if e.name == "ParticleBins::GetIndex" for x in [r.c(e.val)]]
    C.ob(len(set(S)) == 1 and S[0].args[1] is org and S[0].args[2] is p, "score is the tally's score of the particle", loc(P, k), "scores are %s" % [show(x)[:100] for x in S])
    C.ob(len(set(I)) == 1 and I[0].args[2] is p and contains(I[0].args[1], lambda x: x is org), "bin is the one of the particle", loc(P, k), "bins are %s" % [show(x)[:100] for x in I])
    if not S or not I:
        return
    S, I = S[0], I[0]
    zero = spec("s == 0", s=S)
    pend = [T("fld", T("this"), x["name"]) for x in P.recs["ScorableProxy"]["fields"] if "map" in x["t"]]
    C.ob(len(pend) == 1, "one collector of pending scores", loc(P, k), "collectors: %s" % [show(x) for x in pend])
    if len(pend) != 1:
        return
    pend = pend[0]

    def key_of(x):
        """bin a place inside the collector belongs to"""
        if x.op == "idx" and x.args[0] is pend:
            return x.args[1]
        for y in subterms(x):
            if y.op == "call" and str(y.args[0]).startswith(("std::map::", "std::unordered_map::")) and len(y.args) >= 3 and y.args[1] is pend:
                z = y.args[2]
                a = aggfield(z, "first")
                return a if a is not None else z
            if y.op == "idx" and y.args[0] is pend:
                return y.args[1]
        return None

    def absent(facts, key):
        for a, pol in facts.items():
            if a.op == "eq" and any(x.op == "call" and last(str(x.args[0])) == "end" for x in a.args) and any(x.op == "call" and str(x.args[0]).endswith("::find") and x.args[2] is key for x in a.args):
                return pol
            if a.op == "call" and str(a.args[0]).endswith("::contains") and a.args[2] is key:
                return not pol
            if a.op in ("eq", "zero") and any(x.op == "call" and str(x.args[0]).endswith("::count") and x.args[2] is key for x in subterms(a)):
                return pol
        return None

    done = set()

    def delta(q, e, facts):
        add = None
        if e.kind == "ext" and (e.name or "").startswith(("std::map::", "std::unordered_map::")) and last(e.name) in ("insert", "emplace", "try_emplace", "insert_or_assign", "operator[]", "emplace_hint"):
            a = [deep_under(r.c, x, facts) for x in e.args]
            if last(e.name) == "operator[]":
                return q
            if len(a) == 1:
                kk, v = aggfield(a[0], "first"), aggfield(a[0], "second")
            else:
                kk, v = a[-2], a[-1]
            if kk is None:
                bad.append((e, "inserts %s" % show(a[0])[:100]))
                return q
            if kk is not I:
                bad.append((e, "scores into bin %s" % show(kk)[:200]))
            if isnum(v) and v.args[0] == 0 and last(e.name) != "insert_or_assign":
                return q
            ab = absent(facts, kk)
            if ab is None and last(e.name) in ("insert", "emplace", "try_emplace") and isinstance(e.val, T):
                # adds only if there was no entry: the second member of the result says
                return tuple(q) + (T("inserted", r.c(e.val), v),)
            if ab is not True:
                bad.append((e, "inserting does not add to a score that is already pending"))
            add = v
        elif e.kind == "write" and isinstance(e.places[0], T):
            pl = r.c(e.places[0])
            kk = key_of(pl)
            if kk is None or pl is pend:
                return q
            kk = deep_under(r.c, kk, facts)
            if kk is not I:
                bad.append((e, "scores into bin %s" % show(kk)[:200]))
            old = r.c(e.extra) if isinstance(e.extra, T) else pl
            d = (to_poly(deep_under(r.c, e.val, facts)) - to_poly(old)).term()
            if e.extra is None:
                # plain assignment
                d0 = deep_under(r.c, e.val, facts)
                if absent(facts, kk) is True:
                    d = d0
            if any(x.op == "call" and str(x.args[0]).endswith("::find") for x in subterms(pl)) and absent(facts, kk) is not False:
                bad.append((e, "adds to the result of a search that may have failed"))
            add = d
        if add is not None:
            return tuple(q) + (add,)
        return q
    s_, q_ = score_roles(P)
    for e in r.events("write"):
        if isinstance(e.places[0], T) and any(x.op == "fld" and x.args[1] in (s_, q_) for x in subterms(r.c(e.places[0]))):
            bad.append((e, "an offer changes the accumulated result %s" % show(r.c(e.places[0]))[:100]))
    fl = Flow(r)
    outs = fl.explore((), delta)
    C.count("paths explored", fl.visited)
    for q, dec in outs:
        n[0] += 1
        facts = dict(dec)
        total = Poly({})
        for x in q:
            if x.op == "inserted":
                was = known(facts, r.c.fld(x.args[0], "second"))
                if was is None:
                    bad.append((None, "inserting does not add to a score that is already pending"))
                if was is False:
                    continue
                x = x.args[1]
            total = total + to_poly(x)
        if (total - to_poly(S)).zero():
            continue
        if total.zero() and facts.get(zero) is True:
            continue
        bad.append((None, "an offer adds %s to the pending score when %s" % (show(total.term())[:200], [(show(a)[:80], b) for a, b in facts.items()])))
    C.ob(n[0] >= 1 and not bad, "an offer adds the score once to its bin", r.loc(bad[0][0]) if bad and bad[0][0] is not None else loc(P, k), bad[0][1] if bad else "")


def ref_field(P, cls, target):
    """reference or pointer member of a class to another class"""
    for f in P.recs[cls]["fields"]:
        if strip_type(f["t"]) == target:
            return f["name"] + "&" if is_ref(f["t"]) else f["name"]
    raise AnalysisError("%s has no reference to %s" % (cls, target))


def commit(P, C):
    k = fn(P, "ScorableProxy::CommitHistory")
    r = Run(P, k, this=T("this"))
    s, q = score_roles(P)
    org = T("deref", T("fld", T("this"), ref_field(P, "ScorableProxy", "Scorable")))
    pend = [T("fld", T("this"), x["name"]) for x in P.recs["ScorableProxy"]["fields"] if "map" in x["t"]]
    el = [T("elem", x) for x in pend]
    got = {s: [], q: []}
    other = []
    for e in r.events("write"):
        pl = r.c(e.places[0])
        f = place_field(pl)
        if f not in got:
            continue
        got[f].append(e)
    from .c13 import whole
    for f, power in ((s, 1), (q, 2)):
        ev = got[f]
        what = "score" if f == s else "squared score"
        C.ob(len(ev) == 1, "each pending entry adds its %s once" % what, loc(P, k), "%d additions to %s" % (len(ev), f))
        for e in ev:
            pl = r.c(e.places[0])
            old = r.c(e.extra) if isinstance(e.extra, T) else pl
            d = (to_poly(r.c(e.val)) - to_poly(old)).term()
            ref = [spec("x*x" if power == 2 else "x+0", x=T("fld", x, "second")) for x in el]
            C.ob(any(same(d, x) for x in ref), "a commit adds the history's %s" % what, r.loc(e), "adds %s" % show(d)[:200])
            ok = pl.op == "idx" and pl.args[0] is T("fld", org, f) and any(pl.args[1] is T("fld", x, "first") for x in el)
            C.ob(ok, "a commit adds the %s to its bin" % what, r.loc(e), "adds to %s" % show(pl)[:200])
            conds = [r.c(a) for a, pol in (e.facts or ())]
            conds = [c for c in conds if not isconst(c) and not contains(c, lambda x: x.op in ("iterator", "iterator?", "iter", "counter"))]
            conds = [c for c in conds if not harmless(c, el)]
            C.ob(not conds, "every pending entry is committed (%s)" % what, r.loc(e), "only under %s" % [show(c)[:100] for c in conds])


def harmless(c, el):
    """skipping entries whose score is zero changes nothing"""
    return c.op in ("zero", "eq") and any(T("fld", x, "second") in c.args for x in el) and any(isnum(y) and y.args[0] == 0 for y in c.args if isinstance(y, T)) or c.op == "zero" and any(to_poly(c.args[0]) is not None and c.args[0] is T("fld", x, "second") for x in el)
