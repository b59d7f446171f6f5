"""Every banked particle is simulated once."""
from ..worker import *

RULE = ("typestate over all paths of the worker loop and value numbering of the bank's operations: the sampled source particle is banked; the particle transported is the one at the removal end, it is transported once, "
        "its secondaries go to the bank at the other end before it is removed, and the next history starts only where the bank is known to be empty; secondaries are appended whole and removed from the particle")
MINIMUM = 8


def run(P, C):
    W = Worker(P)
    r, k = W.r, W.key
    bad = {}

    def note(what, e, msg):
        bad.setdefault(what, (r.loc(e) if e is not None else loc(P, k), msg))
    seen = set()
    looked, removed = set(), set()

    def backof(t):
        """bank a particle term is the removal end of"""
        for x in subterms(t):
            if x.op == "call" and x.args[0] in ("Bank::back", "Bank::front"):
                return x.args[0]
        return None

    def empty(facts):
        return any(contains(a, lambda x: x.op == "call" and x.args[0] == "Bank::empty") and pol for a, pol in facts.items() if a.op == "call")

    # state: (phase of the current particle, source particle banked, histories open)
    def delta(q, e, facts):
        ph, src = q
        n = e.name or ""
        if e.kind == "ext" and draw_step(e) is not None:
            if ph in ("transported", "moved"):
                note("particle removed after its transport", e, "a history starts while a transported particle is still in the bank")
            return ("idle", "none")
        if e.kind == "call":
            seen.add(n)
            if n == "Source::Sample":
                return (ph, "sampled")
            if n == "Bank::emplace_back":
                a = [deep_under(r.c, x, facts) for x in e.args]
                if any(contains(x, lambda y: y.op == "call" and y.args[0] == "Source::Sample") for x in a):
                    return ("idle", "banked")
                return q
            if n == "Particle::Transport":
                if src != "banked":
                    note("source particle is banked", e, "particles are transported before the source particle is banked")
                if ph in ("transported", "moved"):
                    note("transported once", e, "a particle is transported again before it is removed from the bank")
                looked.add(backof(r.c(e.this)))
                if backof(r.c(e.this)) is None:
                    note("the particle at the removal end is transported", e, "transported particle is %s" % show(r.c(e.this))[:200])
                return ("transported", src)
            if n == "Particle::MoveSecondariesTo":
                if ph != "transported":
                    note("secondaries are handed over after the transport", e, "secondaries are handed over while the particle is %s" % ph)
                if not e.places or e.places[0] is None or not bank_like(r, e):
                    note("secondaries go to the bank", e, "secondaries go to %s" % [show(x)[:100] for x in e.args])
                looked.add(backof(r.c(e.this)))
                return ("moved", src)
            if n in ("Bank::pop_back", "Bank::pop_front"):
                removed.add(n)
                if ph == "idle":
                    note("only transported particles are removed", e, "a particle is removed from the bank without having been transported")
                if ph == "transported":
                    note("secondaries are handed over before the particle is removed", e, "a particle is removed although its secondaries were not handed over to the bank")
                return ("idle", src)
            if n == "EstimatorSetProxy::CommitHistory":
                if not empty(facts):
                    note("history ends with an empty bank", e, "a history ends without the bank being empty: known is %s" % [show(a)[:80] for a in facts][:6])
                if ph in ("transported", "moved"):
                    note("particle removed after its transport", e, "a history ends while a transported particle is still in the bank")
                if src == "sampled":
                    note("source particle is banked", e, "a history ends without its source particle having been banked")
                return ("idle", "done")
        return q
    outs = W.flow.explore(("idle", "none"), delta)
    C.count("paths explored", W.flow.visited)
    for (ph, src), dec in outs:
        if src in ("sampled", "banked"):
            note("history ends with an empty bank", None, "the worker can end in the middle of a history")
    for what in ("source particle is banked", "transported once", "the particle at the removal end is transported", "secondaries are handed over after the transport", "secondaries go to the bank",
                 "only transported particles are removed", "secondaries are handed over before the particle is removed", "history ends with an empty bank", "particle removed after its transport"):
        C.ob(what not in bad, what, *(bad.get(what, (loc(P, k), ""))))
    for n in ("Particle::Transport", "Bank::emplace_back"):
        C.ob(n in seen, "worker calls %s" % n, loc(P, k), "the worker never calls %s" % n)
    C.ob("Bank::pop_back" in seen or "Bank::pop_front" in seen, "worker removes particles", loc(P, k), "the worker never removes a particle from the bank")
    bank(P, C, sorted(x for x in looked if x), sorted(removed))
    inner(P, C)


def bank_like(r, e):
    """the argument is a bank object of the worker"""
    pl = e.places[0]
    return isinstance(pl, T)


def listop(P, q):
    """(operation, container, arguments) of the library call a bank operation consists of"""
    k = fn(P, q)
    r = Run(P, k, this=T("this"))
    out = []
    for e in r.events("ext"):
        n = e.name or ""
        if n.startswith(("std::list::", "std::deque::", "std::vector::")) and last(n) not in ("ctor", "begin", "end", "cbegin", "cend"):
            out.append((last(n), r.c(e.this) if isinstance(e.this, T) else None, [r.c(a) for a in e.args or ()], e))
    return r, out


def end_of(P, q):
    """end of the list an accessor looks at"""
    _, b = listop(P, q)
    rv = Run(P, fn(P, q), this=T("this")).value
    for x in ("back", "front"):
        if [y[0] for y in b] == [x] or contains(rv, lambda y: y.op == x):
            return x, b
    return None, b


def bank(P, C, looked, removed):
    r, s = listop(P, "Bank::operator+=")
    ends, b, where = set(), [], ""
    for q in looked:
        end, b = end_of(P, q)
        ends.add(end)
        where = loc(P, fn(P, q))
    rms = set()
    for q in removed:
        _, p = listop(P, q)
        rms.add({"pop_back": "back", "pop_front": "front"}.get(p[0][0] if len(p) == 1 else None))
    C.ob(len(ends) == 1 and ends == rms and None not in ends, "the particle looked at is the one removed", where, "looks at %s, removes %s" % (looked, removed))
    rm = sorted(rms, key=str)[0] if rms else None
    ok = False
    store = b[0][1] if b else None
    rhs = None
    for op, c, a, e in s:
        if op in ("splice", "insert") and a:
            at_front = a[0].op == "call" and a[0].args[0] in ("begin",) and a[0].args[1] is c
            at_back = a[0].op == "call" and a[0].args[0] in ("end",) and a[0].args[1] is c
            whole = op == "splice" and len(a) == 2
            ok = whole and (store is None or c is store) and (at_front if rm == "back" else at_back)
    C.ob(ok and len(s) == 1, "handed over particles do not come before the current one", loc(P, fn(P, "Bank::operator+=")), "bank concatenation is %s" % [(x[0], [show(y)[:60] for y in x[2]]) for x in s])
    v = Run(P, fn(P, "Bank::empty"), this=T("this")).value
    C.ob(store is None or v is spec("n == 0", n=T("call", "size", store)), "empty means no particle", loc(P, fn(P, "Bank::empty")), "empty is %s" % show(v)[:200])
    # secondaries move whole, the particle keeps none
    k = fn(P, "Particle::MoveSecondariesTo")
    f = P.fns[k]
    bk = T("var", f["params"][0]["name"], "param", 0)
    r = Run(P, k, this=T("this"), args=[bk], inline=lambda k2, f2: short(f2["q"]) != "Bank::operator+=")
    ev = [e for e in r.events("call") if e.name == "Bank::operator+="]
    sec = T("fld", T("this"), "secondaries")
    C.ob(len(ev) == 1 and r.c(ev[0].this) is bk and strip_move(r.c(ev[0].args[0])) is sec and not cond(r, ev[0]), "all secondaries are handed over", loc(P, k),
         "hands over %s" % [(show(r.c(e.this)), [show(r.c(a))[:80] for a in e.args]) for e in ev])
    # every secondary is stored
    for k in fns(P, "Particle::BankSecondaries"):
        r = Run(P, k, this=T("this"), inline=lambda k2, f2: short(f2["q"]) not in ("Bank::emplace_back",))
        ev = [e for e in r.events("call", "ext") if last(e.name or "") in ("emplace_back", "push_back", "emplace_front", "push_front")]
        C.ob(len(ev) == 1 and contains(r.c(ev[0].this), lambda x: x is sec) and not cond(r, ev[0]), "every secondary is stored", loc(P, k), "%d secondaries are stored" % len(ev))


def cond(r, e):
    return any(not isconst(r.c(a)) for a, pol in (e.facts or ()))


def strip_move(t):
    while t.op == "call" and t.args[0] in ("std::move", "std::forward"):
        t = t.args[1]
    return t


def inner(P, C):
    """a particle is handed to the selected transport method, which is the one asked for"""
    k = fn(P, "Particle::Transport")
    r = Run(P, k, this=T("this"), inline=lambda k2, f: False)
    ev = [e for e in r.events("call") if last(e.name) == "Transport"]
    C.ob(len(ev) == 1 and r.c(ev[0].args[0]) is T("this") and not cond(r, ev[0]), "transport runs once on the particle itself", loc(P, k),
         "runs %s" % [(e.name, [show(r.c(a))[:60] for a in e.args]) for e in ev])
