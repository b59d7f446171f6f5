"""Exactly the requested histories are run."""
from ..worker import *

RULE = ("typestate over all paths of the worker loop, value numbering of tickets and seeds: every history needs its own number, drawn by one atomic increment by one of the shared counter; it is simulated exactly if the number "
        "is below the requested histories, seeded with seed plus number; a worker stops only when its number is not below; each solve starts the counter at zero before any worker")
MINIMUM = 6


def run(P, C):
    W = Worker(P)
    r, this = W.r, W.this
    k = W.key
    N, seed = T("fld", this, "batchsize"), T("fld", this, "seed")
    counters = {x.args[0] for x in W.tickets if x.op == "rmw"}
    C.ob(len(counters) == 1, "one shared atomic counter", loc(P, k), "history numbers are drawn from %s" % [show(x) for x in counters])
    if len(counters) != 1:
        return
    counter = counters.pop()
    bad = {}

    def note(what, e, msg):
        bad.setdefault(what, (r.loc(e) if e is not None else loc(P, k), msg))

    def delta(q, e, facts):
        d = draw_step(e)
        if d is not None:
            if d != 1:
                note("counter advances by one", e, "one draw advances the counter by %s" % d)
            if q == "drawn" and not stopped(facts):
                note("every number is used", e, "a history number is drawn while another one is unused")
            return "drawn"
        if e.kind == "write" and e.places and isinstance(e.places[0], T) and e.name != "rmw" and r.c(e.places[0]) is counter:
            note("counter only incremented", e, "the worker writes the shared counter")
        if e.kind == "call" and e.name == "Source::Sample":
            if q != "drawn":
                note("one history per number", e, "a history is simulated without a number of its own")
            a = deep_under(r.c, e.args[0], facts)
            off = W.offset((to_poly(a) - to_poly(seed)).term())
            if off != 0:
                note("history seeded with seed plus number", e, "history is seeded with %s" % show(a)[:200])
            if not any(pol and o == 0 for pol, o in W.below(facts, N)):
                note("simulated only below the requested number", e, "a history is simulated without its number being below the number of histories: %s" % [show(x)[:100] for x in facts][:6])
            return "used"
        return q

    def stopped(facts):
        return any(not pol and o == 0 for pol, o in W.below(facts, N))
    outs = W.flow.explore("none", delta)
    C.count("paths explored", W.flow.visited)
    for q, dec in outs:
        if not stopped(dict(dec)):
            note("worker stops only when the histories are exhausted", None, "a worker can stop although its last number is %s" % q)
    for what in ("counter advances by one", "every number is used", "counter only incremented", "one history per number", "history seeded with seed plus number",
                 "simulated only below the requested number", "worker stops only when the histories are exhausted"):
        C.ob(what not in bad, what, *(bad.get(what, (loc(P, k), ""))))
    C.ob(len(outs) >= 1, "worker ends", loc(P, k), "no path leads to the end of the worker")
    solve(P, C, counter, k)
    inputs(P, C)


def solve(P, C, counter, wk):
    ks = [k for k in reachable_solvers(P, wk)]
    C.ob(bool(ks), "a solver spawns the workers", loc(P, wk), "no solver runs %s" % P.fns[wk]["q"])
    for k in ks:
        r = Run(P, k, this=T("this"), inline=lambda k2, f: k2 != wk and short(f["q"]) not in OPAQUE)
        fl = Flow(r)
        bad = []

        def delta(q, e, facts):
            if e.places and isinstance(e.places[0], T) and e.kind == "write" and r.c(e.places[0]) is counter or e.kind == "ext" and isinstance(e.this, T) and r.c(e.this) is counter:
                if e.kind == "ext" and last(e.name) in ("operator=", "store") and isnum(r.c(e.args[0])) and r.c(e.args[0]).args[0] == 0 or e.kind == "write" and isinstance(e.val, T) and r.c(e.val) is const(0):
                    if q == "spawned":
                        bad.append((e, "the counter is set back while workers run"))
                    return "reset" if q != "spawned" else q
                if e.kind == "write" and (e.name or "").split("::")[-1] in ("operator=", "store", "="):
                    return q if isinstance(e.val, T) and contains(r.c(e.val), lambda x: x is const(0)) else "dirty"
                if e.kind == "ext" and last(e.name) in ("operator size_t", "load"):
                    return q
                return "dirty"
            if spawn(P, r, e, wk):
                if q not in ("reset", "spawned"):
                    bad.append((e, "workers are started without the counter set to zero first"))
                return "spawned"
            return q
        fl.explore("start", delta)
        C.count("paths explored", fl.visited)
        C.ob(not bad, "%s:counter starts at zero" % short(P.fns[k]["q"]), r.loc(bad[0][0]) if bad else loc(P, k), bad[0][1] if bad else "")
        n = [e for e in r.events() if spawn(P, r, e, wk)]
        C.ob(bool(n), "%s:workers are started" % short(P.fns[k]["q"]), loc(P, k), "no worker is started")


def spawn(P, r, e, wk):
    if e.kind == "call" and e.extra and wk in (e.extra if isinstance(e.extra, (list, tuple)) else ()):
        return True
    if e.kind != "ext" or "async" not in (e.name or "") and "thread" not in (e.name or "") and last(e.name or "") not in ("emplace_back",):
        return False
    for a in e.args or ():
        if isinstance(a, T):
            for x in subterms(a):
                if x.op == "fnref" and x.args[0] == wk:
                    return True
                if x.op == "lambda":
                    for lk in str(x.args[0]).split("|") if isinstance(x.args[0], str) else ():
                        if lk == wk or any(wk in callgraph(P).get(k2, ()) or k2 == wk for k2 in P.lam.get(lk, ())):
                            return True
    return False


def reachable_solvers(P, wk):
    cg = callgraph(P)
    out = []
    for k, f in P.fns.items():
        if last(short(f["q"])) == "Solve" and not f["implicit"]:
            if wk in reach(P, [k])[0]:
                out.append(k)
    return out


def inputs(P, C):
    """number of histories and seed are those of the input"""
    k = fn(P, "Driver::Driver", lambda f: not f["implicit"] and f["params"])
    root = T("var", P.fns[k]["params"][0]["name"], "param", 0)
    keep = lambda k2, f: short(f["q"]).split("::")[0] not in ("World", "PerturbationSet", "EstimatorSet", "TransportMethod")
    r = Run(P, k, this=T("this"), args=[root], inline=keep)
    g = child(root, "general")

    def text(n):
        return T("call", "pugi::xml_node::child_value", child(g, n))
    N = r.final(T("fld", T("this"), "batchsize"))
    S = r.final(T("fld", T("this"), "seed"))
    C.ob(number_of(N, lambda x: x is text("histories") or is_text(x, child(g, "histories"))), "number of histories is the input's", loc(P, k), "number of histories is %s" % show(N)[:200])
    ok = bool(list(leaves(S)))
    some = False
    for pth, l in leaves(S):
        src = number_of(l, lambda x: is_text(x, child(g, "seed")))
        some = some or src
        ok = ok and (src or any(contains(c, lambda x: x is child(g, "seed")) for c, pol in pth))
    if number_of(S, lambda x: x.op == "ite" and any(is_text(y, child(g, "seed")) for _, y in leaves(x))):
        ok = some = True
    C.ob(ok and some, "seed is the input's", loc(P, k), "seed is %s" % show(S)[:300])


def is_text(x, node):
    return x.op == "call" and x.args[0] in ("pugi::xml_node::child_value", "pugi::xml_text::get", "pugi::xml_text::as_string", "pugi::xml_text::as_uint", "pugi::xml_text::as_int", "pugi::xml_text::as_ullong") and \
        (x.args[1] is node or x.args[1].op == "call" and x.args[1].args[0] == "pugi::xml_node::text" and x.args[1].args[1] is node)


def number_of(v, isval):
    """v is a number read from the text: conversions only"""
    while True:
        if isval(v):
            return True
        if v.op == "call" and v.args[0] in ("std::stoi", "std::stoul", "std::stol", "std::stoull", "std::stoll", "std::atoi", "static_cast", "conv", "std::basic_string") and len(v.args) >= 2:
            v = v.args[1]
            continue
        if v.op == "new" and "string" in str(v.args[0]) and len(v.args) >= 2:
            v = v.args[1]
            continue
        if v.op == "call" and str(v.args[0]).startswith("cast") and len(v.args) == 2:
            v = v.args[1]
            continue
        return False
