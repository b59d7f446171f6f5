"""The loop in which a worker thread simulates histories."""
from .flow import *
from .transport import deep_under

OPAQUE = ("Particle::Transport", "Particle::SetPerturbations", "Particle::MoveSecondariesTo", "Source::Sample", "EstimatorSet::GetProxy",
          "EstimatorSetProxy::CommitHistory", "Bank::back", "Bank::front", "Bank::pop_back", "Bank::pop_front", "Bank::empty", "Bank::emplace_back", "EstimatorSet::EstimatorSet",
          "EstimatorSetProxy::EstimatorSetProxy", "EstimatorSet::operator+=", "Bank::operator+=")


class Worker:
    """analysis of the function that draws tickets from the shared counter and simulates histories"""

    def __init__(self, P):
        self.P = P
        self.key = worker_key(P)
        self.this = T("this")
        self.r = r = Run(P, self.key, this=self.this, inline=lambda k, f: short(f["q"]) not in OPAQUE)
        hs = {(ph.args[0], ph.args[1]) for ph in r.I.phi if ph.op == "loopphi"}
        r.c.open = frozenset(hs)
        r.c.memo.clear()
        self.tickets = tickets(r)
        self.flow = Flow(r)

    def offset(self, t):
        """k if t is a ticket plus the constant k"""
        p = to_poly(t)
        for x in self.tickets:
            d = (p - Poly.a(x)).term()
            if isnum(d):
                return d.args[0]
        return None

    def below(self, facts, n):
        """truth of ticket < n on the path, and the offset of the ticket compared"""
        for a, pol in facts.items():
            if a.op != "neg0":
                continue
            q = to_poly(a.args[0])
            for x in self.tickets:
                # x + k - n < 0
                d = (q - Poly.a(x) + to_poly(n)).term()
                if isnum(d):
                    yield pol, d.args[0]
                # n - x - k < 0   <=>  x + k > n  <=> x + k - 1 >= n
                d = (q + Poly.a(x) - to_poly(n)).term()
                if isnum(d):
                    yield (not pol), -d.args[0] - 1


def worker_key(P):
    cands = []
    for k, f in P.fns.items():
        if any(short(n.get("q", "")) == "Source::Sample" and n["k"] in ("CXXMemberCallExpr",) for n in f["nodes"].values()):
            if not f.get("implicit"):
                cands.append(k)
    if not cands:
        raise AnalysisError("no function samples source particles")
    # the outermost function that is run as a worker
    cg = callgraph(P)
    for k in cands:
        top = k
        for _ in range(5):
            cs = [a for a, s in cg.items() if top in s and short(P.fns[a]["q"]).split("::")[0] == "FixedSource" and not spawns(P, a)]
            if not cs:
                break
            top = cs[0]
        return top


def spawns(P, k):
    return any(short(n.get("q", "")) in ("std::async", "std::thread::thread") for n in P.fns[k]["nodes"].values())


def tickets(r):
    """terms that denote a number drawn from the shared counter by an atomic read-modify-write"""
    out = set()
    for e in r.events("ext"):
        if isinstance(e.val, T):
            v = r.c(e.val)
            if v.op == "rmw":
                out.add(v)
    for _ in range(4):
        for ph, (init, backs) in list(r.I.phi_loops()) if hasattr(r.I, "phi_loops") else loops(r):
            vs = [r.c(x) for x in (init,) + tuple(backs)]
            if vs and all(any(ticketlike(v, t) for t in out) for v in vs):
                out.add(r.c(ph))
    return out


def ticketlike(v, t):
    return isnum((to_poly(v) - Poly.a(t)).term()) and (to_poly(v) - Poly.a(t)).zero()


def loops(r):
    return [(ph, v) for ph, v in r.I.phi.items() if ph.op == "loopphi" and isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], T)]


def draw_step(e):
    """how far one draw advances the counter; None if it is not a draw"""
    if e.kind != "ext" or not isinstance(e.val, T) or e.val.op != "rmw":
        return None
    n = last(e.name)
    if n == "operator++":
        return 1
    if n in ("fetch_add", "operator+="):
        v = e.args[0] if e.args else None
        if v is not None and isnum(v):
            return v.args[0]
        return "?"
    return "?"
