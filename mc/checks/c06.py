"""Workers share no mutable state."""
from ..regions import *
from ..worker import worker_key, spawns
from .c08 import reachable_solvers

RULE = ("points-to analysis with two regions (the worker's own objects / objects another thread may reach) over every function a worker or the solver that runs the workers can execute, virtual calls, closures and library "
        "callbacks included: no assignment, increment, modifying library call or modifying argument acts on a shared object that is not atomic")
MINIMUM = 20


def run(P, C):
    wk = worker_key(P)
    solvers = reachable_solvers(P, wk)
    C.ob(bool(solvers), "a solver runs the workers", loc(P, wk))
    R = Regions(P)
    R.run([(wk, S, [])] + [(k, S, []) for k in solvers])
    seen, par = reach(P, [wk] + solvers)
    done = {c.key for c in R.ctxs.values()}
    byf = {}
    for (k, i), txt in R.bad.items():
        byf.setdefault(k, []).append((i, txt))
    for k in sorted(done, key=str):
        f = P.fns[k]
        b = byf.get(k, ())
        if not b and f["implicit"]:
            continue
        C.ob(not b, "%s:changes only the worker's own objects" % name(f), "src/" + f["nodes"][b[0][0]]["loc"] if b else loc(P, k),
             "; ".join("%s (reached by %s)" % (t, chain(P, par, k)) for i, t in b[:3]))
    for k, v in R.n.items():
        C.count(k, v)
    C.count("functions", len(done))
    C.count("functions in context", len(R.ctxs))
    statics(P, C, seen, par)
    left = [k for k in seen if k not in done and not P.fns[k]["implicit"]]
    C.analysed["not entered"] = sorted(name(P.fns[k]) for k in left)
    for q, txt in R.unknown.items():
        raise AnalysisError(txt)


def name(f):
    return short(f["q"]) if not f.get("lambda") else "closure in " + f["loc"].split(":")[0]


def statics(P, C, seen, par):
    """variables with static storage used by the workers"""
    for k in sorted(seen, key=str):
        f = P.fns[k]
        for i, n in f["nodes"].items():
            if n["k"] == "DeclRefExpr" and n.get("var") in P.vars and not P.vars[n["var"]].get("ext"):
                C.count("uses of static variables")
