"""Typestate over the event graph of an analysed function: every path through the inlined body,
paths whose branch conditions contradict each other left out."""
from .spec import *


class Flow:
    def __init__(self, r, cid=0, maxdecided=40):
        self.r = r
        self.nodes, self.succ, self.entry, self.exit = r.I.graph(cid)
        self.lab = r.I.glab
        self.maxdecided = maxdecided
        self._lab = {}

    def label(self, e):
        """canonical facts of an edge, whether it closes a loop"""
        if e not in self._lab:
            fs, back, hdr = self.lab.get(e, ((), False, None))
            self._lab[e] = (cfacts(self.r, fs), back, hdr)
        return self._lab[e]

    def explore(self, q0, delta, start=None, limit=60000, onback=None):
        """delta(q, event, facts) -> q' or None (the path ends here).
        Returns the states with which the exit can be reached."""
        first = (start or self.entry, q0, frozenset())
        seen, todo, out = {first}, [first], set()
        ended = 0
        while todo:
            n, q, dec = todo.pop()
            facts = dict(dec)
            for e in self.nodes[n]:
                q = delta(q, e, facts)
                if q is None:
                    break
            if q is None:
                continue
            if n == self.exit:
                out.add((q, dec))
                continue
            for m in self.succ[n]:
                fs, back, hdr = self.label((n, m))
                if any(known(facts, exits(a, facts)) is (not p) for a, p in fs.items()):
                    continue
                d = dict(facts)
                for a, p in fs.items():
                    add_fact(d, exits(a, d), p)
                if back:
                    if onback is not None:
                        onback((n, m), q, d)
                    d2 = frozenset()
                else:
                    d2 = frozenset(d.items())
                    if len(d2) > self.maxdecided:
                        d2 = frozenset()
                x = (m, q, d2)
                if x not in seen:
                    seen.add(x)
                    if len(seen) > limit:
                        raise AnalysisError("too many paths")
                    todo.append(x)
        self.visited = len(seen)
        return out


def exits(t, facts):
    """values that a loop leaves behind, once the way the loop ended is decided"""
    m = {}
    for x in subterms(t):
        if x.op == "lexit":
            sp, E, V, nrm = x.args
            if known(facts, E) is True:
                m[x] = V
            elif nrm.op != "bot" and any(p and c.op == "eq" and T("iterator", sp) in c.args and T("call", "end", sp) in c.args for c, p in facts.items()):
                m[x] = nrm
            elif nrm.op != "bot" and sp.op == "space?" and sp.args and known(facts, sp.args[0]) is False:
                m[x] = nrm
    return rsub(t, m) if m else t


def under(t, facts):
    """a canonical term with the conditions decided by facts resolved"""
    memo = {}

    def go(x):
        if not isinstance(x, T) or x.op != "ite":
            return x
        if x in memo:
            return memo[x]
        v = known(facts, x.args[0])
        if v is True:
            y = go(x.args[1])
        elif v is False:
            y = go(x.args[2])
        else:
            a, b = go(x.args[1]), go(x.args[2])
            y = x if (a is x.args[1] and b is x.args[2]) else (a if a is b else T("ite", x.args[0], a, b))
        memo[x] = y
        return y
    return go(t)


def open_loops(r, pred):
    """analyse loops changing a place with pred(root place) one arbitrary iteration at a time"""
    from .interp import root
    hs = set()
    for ph in r.I.phi:
        if ph.op == "loopphi" and isinstance(ph.args[2], T) and pred(root(ph.args[2])):
            hs.add((ph.args[0], ph.args[1]))
    r.c.open = frozenset(hs)
    r.c.memo.clear()
    return hs


def settled(facts):
    """facts with the conditions inside them that other facts decide resolved"""
    out = dict(facts)
    for _ in range(4):
        new = dict(out)
        for c, pol in out.items():
            if c.op == "ite":
                rest = {a: b for a, b in out.items() if a is not c}
                x = under(c, rest)
                if x is not c and not isconst(x):
                    add_fact(new, x, pol)
        if new == out:
            break
        out = new
    return out
