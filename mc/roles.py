"""Which member plays which part, read off what the code does with it."""
from .spec import *


def score_roles(P):
    """members of the tally base class holding the sum of scores and the sum of squared scores:
    the only two per-bin vectors of numbers; the one printed/committed as a square is told apart
    by what a commit adds to it"""
    if hasattr(P, "_roles"):
        return P._roles
    cls = "Scorable"
    vecs = [f["name"] for f in P.recs[cls]["fields"] if "std::vector<double" in f["t"] or "vector<Real" in f["t"]]
    if len(vecs) != 2:
        raise AnalysisError("tally class has %d per-bin vectors, expected 2" % len(vecs))
    add = {}
    k = fn(P, "ScorableProxy::CommitHistory")
    r = Run(P, k)
    for e in r.events("write"):
        p = e.places[0]
        f = place_field(p)
        if f in vecs:
            old = r.c(e.extra) if e.extra is not None else r.c(p)
            d = (to_poly(r.c(e.val)) - to_poly(old))
            add.setdefault(f, []).append((e, d))
    sq = [f for f in vecs if any(is_square(d) for e, d in add.get(f, ()))]
    if len(sq) == 1:
        s = [f for f in vecs if f not in sq][0]
        q = sq[0]
    else:
        q = next((f for f in vecs if "sq" in f.lower()), vecs[1])
        s = [f for f in vecs if f != q][0]
    P._roles = (s, q)
    return P._roles


def is_square(d):
    return len(d.m) == 1 and all(e == 2 for k in d.m for a, e in k) and all(len(k) == 1 for k in d.m)


def place_field(p):
    """name of the member a place is stored in"""
    while p.op in ("idx", "elem", "deref") or p.op == "fld":
        if p.op == "fld" and not p.args[1].startswith("$"):
            return p.args[1]
        p = p.args[0]
    return None
