"""Selections among weighted alternatives: a loop adds up weights until a random threshold is exceeded."""
from .flow import *
from .transport import deep_under, strip_rng


class Sel:
    """threshold, weight of the current alternative; problem: why the running sum is not the sum of the weights up to it"""

    def __init__(self, atom, pol, thr, w, problem=None):
        self.atom, self.pol, self.thr, self.w, self.problem = atom, pol, thr, w, problem
        self.found = None      # (space, condition) when a search of the library does the loop

    def at_element(self, t):
        """a term with the element a search found seen as the element it looks at"""
        if self.found is None:
            return t
        sp = self.found[0]
        m = {x: T("elem", sp) for x in subterms(t) if x.op == "first" and x.args[0] is sp}
        return rsub(t, m) if m else t


def step(body, w=None):
    """what one iteration adds to the accumulator; alternatives of weight zero may be left out"""
    acc = T("acc")
    got = None
    for pth, l in leaves(body):
        if l.op == "bot":
            continue
        d = to_poly(l) - Poly.a(acc)
        if any(free_acc(a) for a in d.atoms()):
            return None
        if d.zero():
            got = got or None
            rest = [(c, pol) for c, pol in pth]
            if not rest:
                return None
            continue
        if got is not None and not (got - d).zero():
            return None
        got = d
    if got is None:
        return None
    for pth, l in leaves(body):
        if l.op != "bot" and (to_poly(l) - Poly.a(acc)).zero() and not any(vanishes(c, pol, got) for c, pol in pth):
            return None
    return got


def vanishes(c, pol, w):
    """the condition says that the weight is zero (weights are not negative)"""
    if c.op == "zero" and pol:
        q = to_poly(c.args[0])
        return (q - w).zero() or (q + w).zero()
    if c.op == "neg0" and not pol:
        return (to_poly(c.args[0]) + w).zero()       # not (-w < 0)
    return False


def parse(atom, pol):
    """the selection a decided comparison expresses"""
    if atom.op == "exists" and pol:
        s = parse(atom.args[1], True)
        if s is not None:
            s.atom, s.pol, s.found = atom, pol, tuple(strip_rng(x) for x in atom.args)
        return s
    if atom.op != "neg0":
        return None
    a = strip_rng(atom)
    p = to_poly(a.args[0])
    if not pol:
        p = Poly.c(-1) * p
    for k, v in list(p.m.items()):
        if len(k) != 1 or k[0][1] != 1 or k[0][0].op not in ("loop", "loopx"):
            continue
        A = k[0][0]
        if len(A.args) < 2 or isnum(A.args[0]) and A.args[0].args[0] == 1:
            continue
        if not has_acc(A):
            continue
        p2 = p * Poly.c(1 / abs(v)) if abs(v) != 1 else p
        bodies = A.args[1:]
        ws = [step(b) for b in bodies]
        init = to_poly(A.args[0])
        if v < 0:
            if not init.zero():
                # a start that is not zero shifts every threshold
                pass
            if len(ws) != 1 or ws[0] is None:
                return Sel(atom, pol, None, None, "the running sum is %s" % show(A)[:200])
            thr = p2 + Poly.a(A) + ws[0] - init
            return Sel(atom, pol, thr, ws[0], None if init.zero() else "the running sum starts at %s" % show(A.args[0])[:80])
        # remainder counted down
        if len(ws) != 1 or ws[0] is None:
            return Sel(atom, pol, None, None, "the running sum is %s" % show(A)[:200])
        w = Poly.c(-1) * ws[0]
        rest = p2 - Poly.a(A) + w
        if not rest.zero():
            return Sel(atom, pol, init + rest, w, None)
        return Sel(atom, pol, init, w, None)
    return None


def has_acc(A):
    return any(contains(b, lambda x: x.op == "acc") for b in A.args[1:])


def selections(facts):
    out = []
    for a, pol in facts.items():
        if not contains(a, lambda x: x.op == "xi"):
            continue
        s = parse(a, pol)
        if s is not None:
            out.append(s)
    return out


def uniform_times(thr):
    """(draw, total) when the threshold is a uniform number on (0,1) times a total"""
    if thr is None:
        return None, None
    ds = {x for a in thr.atoms() for x in subterms(a) if x.op == "xi"}
    if len(ds) != 1:
        return None, None
    u = ds.pop()
    q = Poly()
    lin, con = Poly(), Poly()
    for k, v in thr.m.items():
        e = [x for x in k if x[0] is u]
        rest = tuple(x for x in k if x[0] is not u)
        if any(contains(a, lambda x: x is u) for a, _ in rest):
            return None, None
        if not e:
            con = con + Poly({rest: v})
        elif e[0][1] == 1:
            lin = lin + Poly({rest: v})
        else:
            return None, None
    if con.zero():
        return u, lin
    if (con + lin).zero():
        return u, con        # total * (1 - u)
    return None, None


class Loops:
    """natural loops of the event graph"""

    def __init__(self, fl):
        self.fl = fl
        pred = {}
        for n, ms in fl.succ.items():
            for m in ms:
                pred.setdefault(m, []).append(n)
        self.pred = pred
        self.body = {}
        for (n, m), (fs, back, hdr) in fl.lab.items():
            if back:
                b = self.body.setdefault(m, {m})
                todo = [n]
                while todo:
                    x = todo.pop()
                    if x not in b:
                        b.add(x)
                        todo.extend(pred.get(x, ()))

    def of(self, n):
        return {h for h, b in self.body.items() if n in b}

    def innermost(self, n):
        hs = self.of(n)
        return min(hs, key=lambda h: len(self.body[h])) if hs else None


def structure(fl, sel, u, bound):
    """problems with the control flow around a selection; bound(facts) says that an edge leaves the loop because no alternative is left"""
    L = Loops(fl)
    at = [n for n in fl.nodes for e in fl.nodes[n] if isinstance(e.val, T) and e.kind == "ext" and strip_rng(fl.r.c(e.val)) is u]
    if not at:
        return ["where the random number is drawn was not found"], L
    yes, no = [], []
    for n in fl.nodes:
        for m in fl.succ[n]:
            fs = fl.label((n, m))[0]
            p = fs.get(sel.atom)
            if p is sel.pol:
                yes.append((n, m))
            elif p is (not sel.pol):
                no.append((n, m))
    if not yes or not no:
        return ["the comparison does not decide a branch"], L
    out = []
    if sel.found is not None:
        for n in at:
            if any(L.of(x) - L.of(n) for x, m in yes):
                out.append("the same random number serves several selections")
            if again(fl, n, L.of(n)):
                out.append("a new random number is drawn for every alternative")
        return out, L
    h = None
    for n, m in no:
        h = L.innermost(n)
    if h is None:
        return ["the comparison is not made in a loop"], L
    body = L.body[h]
    # once an alternative is taken the loop is left
    for n, m in yes:
        seen, todo = set(), [m]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == h:
                out.append("the loop goes on after an alternative was selected")
                break
            if x not in body:
                continue
            todo.extend(fl.succ[x])
    # every iteration compares
    seen, todo = set(), [h]
    cut = set(yes) | set(no)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in fl.succ[x]:
            if (x, y) in cut:
                continue
            fs = fl.label((x, y))[0]
            if sel.w is not None and any(vanishes(c, p, sel.w) for c, p in fs.items()):
                continue
            if y == h:
                out.append("an iteration does not compare the running sum with the threshold")
                continue
            if y in body:
                todo.append(y)
            elif not bound(fs):
                out.append("the loop ends before every alternative was considered")
    # the threshold
    outer = {x for n, m in no for x in L.of(n)} - {h}
    for n in at:
        if n in body:
            out.append("a new random number is drawn for every alternative")
        if outer - L.of(n):
            out.append("the same random number serves several selections")
    return sorted(set(out)), L



def again(fl, n, heads):
    """the node is passed repeatedly other than by way of the given loops"""
    seen, todo = set(), list(fl.succ[n])
    while todo:
        x = todo.pop()
        if x == n:
            return True
        if x in seen or x in heads:
            continue
        seen.add(x)
        todo.extend(fl.succ[x])
    return False
