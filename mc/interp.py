"""Forward data-flow over the resolved CFGs: flow-sensitive value numbering with
gated joins, inlining of project callees, an event graph for ordering rules, and
must-facts (conditions known to hold at a point).

It is one abstract interpretation to a fixed point (values joined at merges, loop
variables widened to loop-phi terms) - no path is enumerated, no solver is used and
nothing is executed.  Assumption: two different access paths do not alias.
"""
import re
from . import prog as PR
from .effects import lenrep
from .names import short, last, is_ref, is_class_type, is_const_obj, strip_type, is_int, is_float, is_ptr, template_args
from .terms import subst as tsubst
from .terms import T, BOT, TRUE, FALSE, const, isconst, subterms

FACTS = "#facts"


class Event:
    __slots__ = ("kind", "name", "args", "places", "loc", "fn", "ctx", "pos", "facts", "node", "this", "val", "extra")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return "%s %s(%s) @%s" % (self.kind, self.name, ", ".join(map(str, self.args or ())), self.loc)


class Frame:
    def __init__(self, cid, fn, key, this, closure=None, stack=()):
        self.cid, self.fn, self.key, self.this = cid, fn, key, this
        self.vars = {}
        self.vals = {}
        self.closure = closure or {}
        self.stack = stack
        self.conds = {}
        self.lazy = {}
        self.blk = None


def neg(c):
    if isconst(c):
        return const(not c.args[0])
    if c.op == "un" and c.args[0] == "!":
        return c.args[1]
    return T("un", "!", c)


def truth(c):
    """normalise to (atom, polarity)"""
    pol = True
    while True:
        if c.op == "un" and c.args[0] == "!":
            c = c.args[1]
            pol = not pol
        elif c.op == "bin" and c.args[0] == "!=":
            a, b = c.args[1], c.args[2]
            if a is FALSE or b is FALSE:
                c = b if a is FALSE else a
            else:
                c = T("bin", "==", *sorted((a, b), key=lambda t: t.uid))
                pol = not pol
        elif c.op == "bin" and c.args[0] == "==":
            a, b = c.args[1], c.args[2]
            if a is FALSE or b is FALSE:
                c = b if a is FALSE else a
                pol = not pol
            elif a is TRUE or b is TRUE:
                c = b if a is TRUE else a
            else:
                return T("bin", "==", *sorted((a, b), key=lambda t: t.uid)), pol
        elif c.op == "bin" and c.args[0] == ">":
            c = T("bin", "<", c.args[2], c.args[1])
        elif c.op == "bin" and c.args[0] == ">=":
            # ignores NaN: a >= b  <=>  !(a < b)
            c = T("bin", "<", c.args[1], c.args[2])
            pol = not pol
        elif c.op == "bin" and c.args[0] == "<=":
            c = T("bin", "<", c.args[2], c.args[1])
            pol = not pol
        else:
            return c, pol


def mk_ite(c, a, b):
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if isconst(c):
        return a if c.args[0] else b
    c, pol = truth(c)
    if not pol:
        a, b = b, a
    if isconst(c):
        return a if c.args[0] else b
    return T("ite", c, a, b)


def facts_of(c, pol):
    """atoms implied by condition c having truth value pol"""
    c, p = truth(c)
    pol = pol == p
    out = {(c, pol)}
    if c.op == "ite":
        x, a, b = c.args
        if pol:
            if b is FALSE:
                out |= facts_of(x, True) | facts_of(a, True)
            if a is FALSE:
                out |= facts_of(x, False) | facts_of(b, True)
        else:
            if b is TRUE:
                out |= facts_of(x, True) | facts_of(a, False)
            if a is TRUE:
                out |= facts_of(x, False) | facts_of(b, False)
    return out


def project(v, f):
    """component f of value v (field name, or ('idx',k))"""
    if v is BOT:
        return BOT
    if v.op == "agg":
        sub = []
        for path, w in v.args[1]:
            if path[0] == f:
                if len(path) == 1:
                    base = w
                    break
                sub.append((path[1:], w))
        else:
            base = None
        if base is None:
            base = project(v.args[0], f)
        else:
            sub = [(p[1:], w) for p, w in v.args[1] if p[0] == f and len(p) > 1]
        return mk_agg(base, sub)
    if v.op == "ite":
        return mk_ite(v.args[0], project(v.args[1], f), project(v.args[2], f))
    if v.op == "some" and f == "$val":
        return v.args[0]
    if v.op == "none" and f == "$val":
        return BOT
    if isinstance(f, T) and f.op == "ix":
        k = f.args[0]
        if v.op == "list" and isconst(k) and isinstance(k.args[0], int) and 0 <= k.args[0] < len(v.args):
            return v.args[k.args[0]]
        if v.op == "mapped":
            return elem_of(v, k, "idx")
        if v.op == "upd" and v.args[0] in ("emplace_back", "push_back") and k is T("back") and len(v.args) == 3:
            return v.args[2]
        return T("idx", v, k)
    return T("fld", v, f)


def elem_of(v, ident, op):
    """element of a container value; elements rewritten one by one by an earlier loop are known"""
    if v.op == "mapped":
        base, own, ch, full = v.args
        if ident is own:
            return elem_of(base, ident, op)
        if not full:
            return T(op, v, ident)
        m = {own: ident}
        if op == "idx":
            # the other containers of that loop are read at the same index
            for x in subterms(ch):
                if x.op == "elem" and len(x.args) > 1 and x.args[1] is own:
                    m[x] = T("idx", x.args[0], ident)
        sub = [(p, tsubst(w, m)) for p, w in ch]
        for p, w in sub:
            if p == ():
                return w
        return mk_agg(elem_of(base, ident, op), sub)
    if v.op == "ite":
        return mk_ite(v.args[0], elem_of(v.args[1], ident, op), elem_of(v.args[2], ident, op))
    return T(op, v, ident)


NONCONV = []
TABLES = {}           # constant maps: place -> ((key, value), ...)
GCONST = set()        # constants with a known value


def has_const_index(k):
    while isinstance(k, T):
        if k.op in ("idx", "elem") and len(k.args) > 1 and isconst(k.args[1]):
            return True
        if k.op == "deref" and isinstance(k.args[0], T) and k.args[0].op == "call" and k.args[0].args[0] == "begin":
            return True
        k = parent(k)
    return False


def offset(x, h):
    """(variable, constant) if x is variable + constant"""
    if x.op == "bin" and x.args[0] in ("+", "-") and isconst(x.args[2]) and isinstance(x.args[2].args[0], int) and h(x.args[1]):
        return x.args[1], x.args[2].args[0] if x.args[0] == "+" else -x.args[2].args[0]
    if x.op == "bin" and x.args[0] == "+" and isconst(x.args[1]) and isinstance(x.args[1].args[0], int) and h(x.args[2]):
        return x.args[2], x.args[1].args[0]
    return None


def unmap(v, h):
    """container before the running loop rewrote elements"""
    while v.op == "mapped" and h(v.args[1]):
        v = v.args[0]
    return v


def mk_agg(base, sub):
    if not sub:
        return base
    if base.op == "agg":
        d = dict(base.args[1])
        for p, w in sub:
            for q in list(d):
                if q[:len(p)] == p:
                    del d[q]
            d[p] = w
        base, sub = base.args[0], list(d.items())
    return T("agg", base, tuple(sorted(sub, key=lambda x: tuple(str(y) for y in x[0]))))


def comp(p):
    """last component of a place as used by project"""
    if p.op == "fld":
        return p.args[1]
    return T("ix", p.args[1])


def parent(p):
    return p.args[0] if p.op in ("fld", "idx", "elem") and isinstance(p.args[0], T) else None


def root(p):
    while p.op in ("fld", "idx", "elem", "deref"):
        p = p.args[0]
    return p


def has_prefix(p, q):
    """q is a proper ancestor of p"""
    p = parent(p)
    while p is not None:
        if p is q:
            return True
        p = parent(p)
    return False


def read(st, p):
    v = st.get(p)
    if v is None:
        q = parent(p)
        if q is None:
            return p
        # nearest written ancestor
        chain = [p]
        while q is not None and q not in st:
            chain.append(q)
            q = parent(q)
        if q is None:
            return p
        v = st[q]
        for c in reversed(chain):
            v = project(v, comp(c)) if c.op != "elem" else elem_of(v, c.args[1], "elem")
    return v


def rel(p, q):
    out = []
    while p is not q:
        out.append(comp(p))
        p = parent(p)
    return tuple(reversed(out))


def snapshot(st, p):
    v = read(st, p)
    sub = [(rel(k, p), w) for k, w in st.items() if isinstance(k, T) and k.op in ("fld", "idx") and has_prefix(k, p)]
    if not sub:
        return v
    return mk_agg(v, sub)


def write(st, p, v):
    for k in [k for k in st if isinstance(k, T) and k.op in ("fld", "idx", "elem") and has_prefix(k, p)]:
        del st[k]
    st[p] = v


def deref(v):
    if v.op == "addr":
        return v.args[0]
    return T("deref", v)


PASS = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::__addressof"}
COPYLIKE = {"std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::reference_wrapper"}
SMART = {"std::shared_ptr", "std::unique_ptr", "std::__shared_ptr_access", "std::__shared_ptr", "std::weak_ptr"}
MUTATORS_KEEP = {"reserve", "shrink_to_fit", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "operator[]", "front", "back", "data", "find",
                 "lower_bound", "upper_bound", "get", "value", "operator*", "operator->", "size", "empty"}


FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "less": "<", "greater": ">", "equal_to": "==", "not_equal_to": "!=", "logical_not": "!", "negate": "-"}


def functor(v):
    """operator of a standard function object"""
    if v.op == "new" and v.args and isinstance(v.args[0], str) and v.args[0].startswith("std::"):
        return FUNCTORS.get(v.args[0][5:])
    return None


def get_member(n):
    """member selected by std::get"""
    m = re.search(r"F@get<#V[a-zA-Z]*(\d+)", n.get("fn", ""))
    if m:
        pt = (n.get("pt") or [""])[0]
        if "std::pair<" in pt and strip_type(pt).startswith("std::pair<"):
            return ("first", "second")[int(m.group(1))]
        return "$" + m.group(1)
    return "$get@" + strip_type(n.get("t", ""))


class Interp:
    def __init__(self, P, inline=None, virt=None, maxdepth=30, derefs=False):
        """inline(key, fn) -> bool decides which project callees are entered;
        virt(node, cands) -> key or None picks a target for virtual calls"""
        self.P = P
        self.inline = inline or (lambda k, f: True)
        self.virt = virt
        self.derefs = derefs
        self.maxdepth = maxdepth
        self.ctxs = {}
        self.ctxinfo = []
        self.events = {}
        self.phi = {}
        self.lheads = {}
        self.hdr = {}
        self.hprev = {}
        self.hfacts = {}
        self.hdrseen = {}
        self.hdrver = {}
        self.calls = {}
        self.frames = {}
        self.alive = {}
        self.cfgs = {}
        self.condinfo = {}
        self.elemof = {}
        self.exitfacts = {}

    # -- contexts ---------------------------------------------------------
    def ctx(self, parent, pos, key):
        k = (parent, pos, key)
        if k not in self.ctxs:
            self.ctxs[k] = len(self.ctxinfo)
            self.ctxinfo.append(k)
        return self.ctxs[k]

    # -- cfg prep -----------------------------------------------------------
    def cfg(self, key):
        c = self.cfgs.get(key)
        if c:
            return c
        f = self.P.fns[key]
        B = {b["id"]: b for b in f["blocks"]}
        nodes = f["nodes"]
        succ = {}
        for i, b in B.items():
            s = []
            for x in b["su"]:
                s.append(x if isinstance(x, int) and x >= 0 else None)
            dead = b.get("noreturn") or any("s" in e and e["s"] and nodes[e["s"]]["k"] == "CXXThrowExpr" for e in b["el"])
            if dead:
                s = []
            succ[i] = s
        entry = f["entry"]
        order, seen = [], set()

        def dfs(x):
            stack = [(x, iter([s for s in succ[x] if s is not None]))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter([z for z in succ[s] if z is not None])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(entry)
        rpo = list(reversed(order))
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                if s is not None and s in num and b not in pred[s]:
                    pred[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c2 = p, n
                    while a != c2:
                        while num[a] > num[c2]:
                            a = idom[a]
                        while num[c2] > num[a]:
                            c2 = idom[c2]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        back = {b: [p for p in pred[b] if num[p] >= num[b]] for b in rpo}
        # loop membership: natural loops
        loops = {}
        for h in rpo:
            if back[h]:
                body = {h}
                todo = [p for p in back[h]]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += pred[x]
                loops[h] = body
        c = dict(f=f, B=B, succ=succ, rpo=rpo, num=num, pred=pred, idom=idom, back=back, loops=loops, entry=entry, exit=f["exit"])
        self.cfgs[key] = c
        return c

    # -- running --------------------------------------------------------------
    def run(self, key, this=None, args=None, st=None):
        """analyse a function with symbolic inputs; returns (value, state)"""
        f = self.P.fns[key]
        cid = self.ctx(None, None, key)
        st = dict(st or {})
        st.setdefault(FACTS, frozenset())
        fr = Frame(cid, f, key, this if this is not None else T("this"), stack=(key,))
        if f.get("lambda") and fr.this.op == "this":
            fr.closure = None
        for i, p in enumerate(f["params"]):
            a = args[i] if args and i < len(args) and args[i] is not None else None
            if is_ref(p["t"]):
                fr.vars[p["var"]] = a if a is not None else T("var", p["name"], "param", i)
            else:
                pl = T("var", p["name"], "param", i)
                fr.vars[p["var"]] = pl
                if a is not None:
                    st[pl] = a
        return self.exec_fn(fr, st)

    def exec_fn(self, fr, st0):
        c = self.cfg(fr.key)
        self.frames[fr.cid] = fr
        ins, outs = {}, {}
        rpo = c["rpo"]
        haveloop = any(c["back"][b] for b in rpo)
        for it in range(14):
            changed = False
            for b in rpo:
                preds = [p for p in c["pred"][b]]
                if b == c["entry"]:
                    st = dict(st0)
                else:
                    live = [p for p in preds if outs.get((p, b)) is not None]
                    if not live:
                        outs_b = {s: None for s in c["succ"][b] if s is not None}
                        for s in outs_b:
                            if outs.get((b, s), 0) != None:
                                changed = changed or (outs.get((b, s)) is not None)
                            outs[(b, s)] = None
                        self.alive[(fr.cid, b)] = False
                        continue
                    if len(live) == 1 and not c["back"][b] and b != c["exit"]:
                        st = dict(outs[(live[0], b)])
                    else:
                        st = self.join(fr, c, b, live, outs)
                self.alive[(fr.cid, b)] = True
                ins[b] = st
                st = dict(st)
                st = self.exec_block(fr, c, b, st)
                for i, s in enumerate(c["succ"][b]):
                    if s is None:
                        continue
                    o = None
                    if st is not None:
                        o = st
                        nf = self.edge_facts(fr, c, b, i, st)
                        if nf is False:
                            o = None
                        elif nf:
                            o = dict(st)
                            o[FACTS] = st[FACTS] | nf
                    # several edges to the same successor (switch)
                    if (b, s) in outs and i > 0 and s in c["succ"][b][:i] and outs[(b, s)] is not None and o is not None:
                        o = dict(o)
                        o[FACTS] = outs[(b, s)][FACTS] & o[FACTS]
                    if outs.get((b, s), 0) != o:
                        changed = True
                    outs[(b, s)] = o
            if not haveloop or not changed:
                break
        else:
            NONCONV.append((self.P.fns[fr.key]["q"], fr.cid))
        fr.outs = outs
        ex = c["exit"]
        if ex not in ins or not any(outs.get((p, ex)) is not None for p in c["pred"].get(ex, ())):
            if ex == c["entry"]:
                return T("void"), st0
            return BOT, None
        st = dict(ins[ex])
        rv = st.pop(T("ret", fr.cid), T("void"))
        return rv, st

    def edge_facts(self, fr, c, b, i, st):
        cv = fr.conds.get(b)
        su = c["succ"][b]
        if cv is None or len(su) < 2:
            return None
        blk = c["B"][b]
        if blk.get("tk") == "SwitchStmt":
            s = su[i]
            lab = c["B"][s] if s is not None else {}
            if lab.get("case") is not None:
                k = self.const_of(fr, lab["case"])
                return facts_of(T("bin", "==", *sorted((cv, k), key=lambda t: t.uid)), True)
            # default: none of the cases
            out = set()
            for s2 in su:
                if s2 is not None and c["B"][s2].get("case") is not None:
                    k = self.const_of(fr, c["B"][s2]["case"])
                    out |= facts_of(T("bin", "==", *sorted((cv, k), key=lambda t: t.uid)), False)
            return out
        if len(su) == 2:
            if None in su:
                return None  # decided while compiling
            if isconst(cv):
                v = bool(cv.args[0])
                return None if v == (i == 0) else False
            return facts_of(cv, i == 0)
        return None

    def const_of(self, fr, nid):
        n = fr.fn["nodes"][nid]
        if "val" in n:
            return const(n["val"]) if "enum" not in n else T("enum", n["enum"])
        if n.get("enum"):
            return T("enum", n["enum"])
        if n["ops"]:
            return self.const_of(fr, n["ops"][0])
        return T("case", nid)

    def join(self, fr, c, b, live, outs):
        back = [p for p in c["back"][b] if p in live]
        fwd = [p for p in live if p not in c["back"][b]]
        keys = set()
        for p in live:
            keys |= set(outs[(p, b)].keys())
        keys.discard(FACTS)
        res = {}
        if c["back"][b]:
            entry = outs[(fwd[0], b)] if len(fwd) == 1 else self.join_fwd(fr, c, b, fwd, outs)
            phis = set()
            changes = {}
            isph = lambda x: x.op == "loopphi" and x.args[0] == fr.cid and x.args[1] == b
            mine = lambda x: isph(x) or offset(x, isph) is not None
            # keys overwritten as a whole and by component: keep both levels
            for k in sorted(keys, key=lambda z: z.uid):
                ow = self.own(k, mine)
                if ow is not None:
                    # each iteration works on its own element
                    vs = {read(outs[(p, b)], k) for p in back if k in outs[(p, b)]}
                    if len(vs) == 1 and ow[0] is not None:
                        v, = vs
                        if all(k in outs[(p, b)] for p in back):
                            changes.setdefault((ow[0], ow[2]), {})[ow[1]] = v
                    continue
                e = read(entry, k)
                bs = [unmap(read(outs[(p, b)], k), mine) for p in back]
                ph = T("loopphi", fr.cid, b, k)
                was = self.hprev.get((fr.cid, b, k))
                self.hprev[(fr.cid, b, k)] = e
                if was is not None and was is not e and ph not in self.phi:
                    # what comes around belongs to an earlier value
                    bs = []
                if all(x is e or x is ph for x in bs):
                    self.phi.pop(ph, None)
                    if k in entry or any(k in outs[(p, b)] for p in back):
                        res[k] = e
                else:
                    res[k] = ph
                    phis.add(ph)
                    self.phi[ph] = (e, tuple(bs))
            known = frozenset(x for x in phis if x.args[2].op == "var" and x in self.phi and any(y.op == "bin" and x in y.args for y in self.phi[x][1]))
            if self.hdr.get((fr.cid, b)) != known:
                self.hdr[(fr.cid, b)] = known
                self.hdrver[fr.cid] = self.hdrver.get(fr.cid, 0) + 1
            if self.hdrseen.get((fr.cid, b)) != self.hdrver.get(fr.cid, 0):
                # elements written while a variable still seemed constant
                self.hdrseen[(fr.cid, b)] = self.hdrver.get(fr.cid, 0)
                for k in [k for k in res if k not in entry and k.op != "var" and has_const_index(k)]:
                    phis.discard(res.pop(k))
                changes = {}
            for c2, v in self.mapped(entry, changes, lambda c_, x: self.full_range(fr, b, x, c_, entry)).items():
                if res.get(c2) not in phis:
                    res[c2] = v
            # facts that are new on entry have not come around yet
            was = self.hfacts.get((fr.cid, b), frozenset())
            self.hfacts[(fr.cid, b)] = entry[FACTS]
            f = entry[FACTS]
            for p in back:
                f = frozenset(x for x in f if x in outs[(p, b)][FACTS] or x not in was)
            if phis:
                f = frozenset(x for x in f if not any(y in phis for y in subterms(x[0])))
            res[FACTS] = f
            return res
        return self.join_fwd(fr, c, b, fwd, outs)

    def join_fwd(self, fr, c, b, live, outs):
        if len(live) == 1:
            st = dict(outs[(live[0], b)])
            k = T("ret", fr.cid)
            if b == c["exit"] and isinstance(st.get(k), T):
                # the only way out of the function leads out of the middle of a loop
                hs = {x.args[1] for x in subterms(st[k]) if x.op == "loopphi" and x.args[0] == fr.cid and not isinstance(x.args[1], tuple)}
                hs = sorted((h for h in hs if h in c["num"] and c["back"].get(h)), key=lambda h: c["num"][h])
                if hs:
                    r = self.gate(fr, c, b, live, outs, k, hs[0])
                    if r.op == "lexit":
                        st[k] = r
            return st
        sts = [outs[(p, b)] for p in live]
        keys = set()
        for s in sts:
            keys |= set(s.keys())
        keys.discard(FACTS)
        res = {}
        memo = {}
        for k in keys:
            vs = [read(s, k) for s in sts]
            if all(v is vs[0] for v in vs):
                res[k] = vs[0]
            else:
                res[k] = self.gate(fr, c, b, live, outs, k)
        f = sts[0][FACTS]
        for s in sts[1:]:
            f = f & s[FACTS]
        res[FACTS] = f
        return res

    def gate(self, fr, c, b, live, outs, k, dom=None):
        dom = c["idom"][b] if dom is None else dom
        num = c["num"]
        memo = {}
        OPAQUE = object()

        def tree(x):
            if x in memo:
                return memo[x]
            memo[x] = OPAQUE
            su = [s for s in c["succ"][x]]
            vals = []
            for s in su:
                if s is None:
                    vals.append(BOT)
                elif s == b:
                    o = outs.get((x, b))
                    vals.append(BOT if o is None else read(o, k))
                elif s not in num:
                    vals.append(BOT)
                elif outs.get((x, s), 0) is None:
                    vals.append(BOT)
                elif num[s] <= num[x]:
                    if b in c["loops"].get(s, ()):
                        vals.append(OPAQUE)
                    else:
                        vals.append(T("next", fr.cid, s))
                else:
                    if outs.get((x, s), 0) is None:
                        vals.append(BOT)
                    else:
                        vals.append(tree(s))
            if any(v is OPAQUE for v in vals):
                r = OPAQUE
                rest = {v for v in vals if v is not OPAQUE and v is not BOT}
            elif not vals:
                r = BOT
            elif len(vals) == 1 or all(v is vals[0] for v in vals):
                r = vals[0]
            elif c["B"][x].get("tk") == "SwitchStmt":
                cv = fr.conds.get(x)
                r = BOT
                if cv is None:
                    r = OPAQUE
                else:
                    default = BOT
                    pairs = []
                    for s, v in zip(su, vals):
                        lab = c["B"][s].get("case") if s is not None else None
                        if lab is None:
                            default = v
                        else:
                            pairs.append((self.const_of(fr, lab), v))
                    r = default
                    for kk, v in reversed(pairs):
                        r = mk_ite(T("bin", "==", *sorted((cv, kk), key=lambda t: t.uid)), v, r)
            elif len(vals) == 2 and x in fr.conds:
                r = mk_ite(fr.conds[x], vals[0], vals[1])
            else:
                r = OPAQUE
            if r is not OPAQUE and c["back"].get(x) and b not in c["loops"].get(x, ()) and r is not BOT:
                # left from inside a loop: values by exit, 'next' where the loop goes on
                if not (r.op == "ite" or r.op == "lexit" or r.op == "next") and not any(y.op == "next" for y in subterms(r)):
                    pass
                else:
                    self.lheads[(fr.cid, x)] = fr.conds.get(x)
                    r = T("lexit", fr.cid, x, r)
            memo[x] = r
            return r
        r = tree(dom)
        if r is OPAQUE:
            ph = T("phi", fr.cid, b, k)
            self.phi[ph] = tuple((p, read(outs[(p, b)], k)) for p in live)
            return ph
        return r

    def deref(self, v):
        """object an address or iterator refers to"""
        if v.op == "loopphi" and v in self.phi:
            i = self.phi[v][0]
            c = self.container_of(i)
            if c is not None and i.args[0] == "begin":
                return T("elem", c, v)
        return deref(v)

    def own(self, k, h):
        """is place k inside an element selected by the iteration variable h(ident) -> container place, rest"""
        path = []
        while k is not None and isinstance(k, T):
            if k.op in ("elem", "idx") and len(k.args) > 1 and isinstance(k.args[1], T) and h(k.args[1]):
                return k.args[0], tuple(reversed(path)), k.args[1]
            if k.op == "deref" and h(k.args[0]):
                return None, tuple(reversed(path)), k.args[0]
            q = parent(k)
            if q is None:
                return None
            path.append(comp(k) if k.op != "elem" else None)
            k = q
        return None

    def mapped(self, entry, changes, full):
        """containers whose elements a loop rewrote one by one; changes: {(container, ident): {path: value}}"""
        out = {}
        for (c, ident), ch in changes.items():
            if c is None or any(None in p for p in ch):
                continue
            if ident.op == "bin":
                ph, k = offset(ident, lambda x: x.op == "loopphi")
                z = T("own", ident.uid)
                ch = {p: tsubst(tsubst(tsubst(v, {ident: z}), {ph: T("bin", "+", z, const(-k))}), {z: ident}) for p, v in ch.items()}
            out[c] = T("mapped", read(entry, c), ident, tuple(sorted(ch.items(), key=str)), full(c, ident))
        return out

    def full_range(self, fr, b, ph, c, entry):
        k = 0
        if ph.op == "bin":
            ph, k = offset(ph, lambda x: x.op == "loopphi")
        init, backs = self.phi.get(ph, (None, ()))
        cv = fr.conds.get(b)
        if init is None or cv is None or len(backs) != 1:
            return False
        n = backs[0]
        if not (n.op == "bin" and n.args[0] == "+" and {n.args[1], n.args[2]} == {ph, const(1)}):
            return False
        a, pol = truth(cv)
        if k == 0 and self.container_of(init) is c and a.op == "bin" and a.args[0] == "==" and ph in a.args[1:]:
            o = a.args[1] if a.args[2] is ph else a.args[2]
            return o.op == "call" and o.args[0] == "end" and o.args[1] is T("at_place", c)
        if not isconst(init) or init.args[0] + k != 0 or a.op != "bin" or ph not in a.args[1:]:
            return False
        # index loop: number of iterations against the size of the container
        o = a.args[1] if a.args[2] is ph else a.args[2]
        if a.args[0] == "==" and not pol or a.args[0] == "<" and a.args[1] is ph and pol:
            extra = 0
        elif a.args[0] == "<" and a.args[2] is ph and not pol:
            extra = 1
        else:
            return False
        if extra + k != 0:
            return False
        v = unmap(read(entry, c), lambda x: True)
        for _ in range(8):
            if v is None:
                return False
            if o is T("call", "size", v) or o is T("call", "size", T("at_place", c)):
                return True
            if o.op == "call" and o.args[0] == "size" and v.op == "fld":
                w = o.args[1]
                w = unmap(self.phi[w][0], lambda x: True) if w.op == "loopphi" and w in self.phi else unmap(w, lambda x: True)
                if w is not None and lenrep(self.P, w) is lenrep(self.P, v):
                    return True
            if v.op == "new" and len(v.args) >= 3 and v.args[0] == "std::vector" and v.args[1] is o:
                return True
            v = unmap(self.phi[v][0], lambda x: True) if v.op == "loopphi" and v in self.phi else None
        return False

    # -- blocks ------------------------------------------------------------------
    def exec_block(self, fr, c, b, st):
        blk = c["B"][b]
        nodes = fr.fn["nodes"]
        prev = None
        fr.blk = b
        for nid in fr.lazy.pop(b, ()):
            fr.vals.pop(nid, None)
        for i, e in enumerate(blk["el"]):
            pos = (b, i)
            self.events.pop((fr.cid, b, i), None)
            self.calls.pop((fr.cid, b, i), None)
            if "s" in e:
                s = e["s"]
                if s is None or s == prev:
                    continue
                prev = s
                fr.pos = pos
                fr.sub = 0
                st = self.exec_node(fr, s, st)
                if st is None:
                    return None
            elif e.get("init"):
                prev = None
                fr.pos = pos
                fr.sub = 0
                st = self.exec_init(fr, e, st)
                if st is None:
                    return None
            elif "dtor" in e:
                prev = None
                pl = fr.vars.get(e["dtor"])
                self.ev(fr, pos, st, kind="dtor", name=strip_type(e["t"]), args=(), places=(pl,), this=pl, loc="")
        if blk.get("cond") is not None:
            fr.conds[b] = self.rv(fr, blk["cond"], st)
        return st

    def ev(self, fr, pos, st, **k):
        k.setdefault("fn", fr.fn["q"])
        e = Event(ctx=fr.cid, pos=pos, facts=st[FACTS], **k)
        self.events.setdefault((fr.cid,) + tuple(pos), []).append(e)
        return e

    # -- values -------------------------------------------------------------
    def val(self, fr, nid, st):
        v = fr.vals.get(nid)
        if v is None:
            fr.lazy.setdefault(fr.blk, []).append(nid)
            st2 = self.exec_node(fr, nid, st)
            v = fr.vals.get(nid)
            if v is None:
                v = T("opaque", fr.cid, nid)
        return v

    def rv(self, fr, nid, st):
        """value of an expression (loads if it is an lvalue)"""
        if nid is None:
            return T("void")
        n = fr.fn["nodes"][nid]
        v = self.val(fr, nid, st)
        if n.get("lv"):
            return self.load(st, v, n.get("t"))
        return v

    def load(self, st, p, t=None):
        if p.op == "ite":
            return mk_ite(p.args[0], self.load(st, p.args[1], t), self.load(st, p.args[2], t))
        if p.op in ("lambda", "fnref"):
            return p
        return snapshot(st, p)

    def pl(self, fr, nid, st):
        """place of an expression (materialises temporaries)"""
        n = fr.fn["nodes"][nid]
        v = self.val(fr, nid, st)
        if n.get("lv"):
            return v
        if v.op in ("lambda", "fnref"):
            return v
        t = T("tmp", fr.cid, nid)
        write(st, t, v)
        return t

    def store(self, fr, st, p, v, n, name="="):
        if p.op == "ite":
            self.store(fr, st, p.args[1], mk_ite(p.args[0], v, self.load(st, p.args[1])), n)
            self.store(fr, st, p.args[2], mk_ite(p.args[0], self.load(st, p.args[2]), v), n)
            return
        old = read(st, p) if not is_class_type((n or {}).get("t", "int")) else None
        write(st, p, v)
        if root(p).op not in ("var", "tmp") or root(p).args[1:2] == ("param",):
            self.ev(fr, fr.pos, st, kind="write", name=name, args=(v,), places=(p,), val=v, node=n, extra=old,
                    loc=(n or {}).get("loc"))

    def exec_init(self, fr, e, st):
        n = fr.fn["nodes"][e["op"]]
        if "field" in e:
            p = T("fld", fr.this, e["fname"])
            if is_ref(e["ft"]):
                v = T("addr", self.pl(fr, e["op"], st))
                st[T("fld", fr.this, e["fname"] + "&")] = v
                st[p] = self.load(st, v.args[0])
                self.ev(fr, fr.pos, st, kind="init", name=e["fname"], args=(v,), places=(p,), loc=e["loc"], val=v, extra=e)
                return st
            v = self.rv(fr, e["op"], st)
            if v is BOT:
                return None
            write(st, p, v)
            self.ev(fr, fr.pos, st, kind="init", name=e["fname"], args=(v,), places=(p,), loc=e["loc"], val=v, extra=e)
            return st
        # base or delegating: run the constructor on the same object
        if n["k"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr", "CXXTemporaryObjectExpr"):
            r = self.construct(fr, e["op"], n, st, fr.this)
            return None if r is BOT else st
        return st

    def exec_node(self, fr, nid, st):
        n = fr.fn["nodes"][nid]
        m = getattr(self, "x_" + n["k"], None)
        if m is None:
            v = T("op:" + n["k"], *[self.rv(fr, o, st) for o in n["ops"] if o is not None])
        else:
            v = m(fr, nid, n, st)
        if v is BOT:
            fr.vals[nid] = BOT
            return None
        fr.vals[nid] = v
        return st

    # literals
    def x_IntegerLiteral(self, fr, i, n, st): return const(n["val"])
    def x_FloatingLiteral(self, fr, i, n, st): return const(float(n["val"]))
    def x_CXXBoolLiteralExpr(self, fr, i, n, st): return const(bool(n["val"]))
    def x_StringLiteral(self, fr, i, n, st): return T("const", n["val"])
    def x_CharacterLiteral(self, fr, i, n, st): return const(chr(n["val"]) if 0 < n["val"] < 128 else n["val"])
    def x_CXXNullPtrLiteralExpr(self, fr, i, n, st): return T("const", None)
    def x_GNUNullExpr(self, fr, i, n, st): return T("const", None)
    def x_SizeOfPackExpr(self, fr, i, n, st): return const(n["val"]) if "val" in n else T("opaque", "sizeofpack")
    def x_SourceLocExpr(self, fr, i, n, st): return T("opaque", "srcloc")
    def x_PredefinedExpr(self, fr, i, n, st): return T("opaque", "func")
    def x_CXXScalarValueInitExpr(self, fr, i, n, st): return const(0)
    def x_ImplicitValueInitExpr(self, fr, i, n, st):
        return const(0) if not is_class_type(n["t"]) else T("new", strip_type(n["t"]))

    def x_CXXThisExpr(self, fr, i, n, st):
        return T("addr", fr.this)

    def lookup(self, fr, vk):
        if vk in fr.vars:
            return fr.vars[vk]
        if fr.closure and vk in fr.closure:
            return fr.closure[vk]
        return None

    def x_DeclRefExpr(self, fr, i, n, st):
        if "fn" in n:
            return T("fnref", n["fn"], n["q"])
        if "enum" in n:
            return T("enum", n["enum"])
        if "const" in n and n.get("glob"):
            p = T("glob", n["q"])
            GCONST.add(p)
            if p not in st:
                st[p] = T("gconst", n["q"], n["const"])
            return p
        if "var" in n:
            if "table" in n:
                p = T("glob", n["var"][2:]) if n.get("glob") else self.lookup(fr, n["var"])
                if p is not None:
                    TABLES[p] = tuple((self.entry(k), self.entry(v)) for k, v in n["table"])
            if n.get("glob"):
                return T("glob", n["var"][2:])
            p = self.lookup(fr, n["var"])
            if p is None:
                if n.get("binding") and n["ops"]:
                    return self.val(fr, n["ops"][0], st)
                p = T("var", n["name"], n["var"], fr.cid)
                fr.vars[n["var"]] = p
            return p
        return T("opaque", n.get("name"))

    def entry(self, o):
        return T("enum", o["enum"]) if "enum" in o else const(o["str"] if "str" in o else o["num"])

    def x_MemberExpr(self, fr, i, n, st):
        if "fn" in n and "field" not in n:
            return T("fnref", n["fn"], n["q"])
        if "var" in n:
            return T("glob", n["var"][2:])
        if n["arrow"]:
            b = self.deref(self.rv(fr, n["ops"][0], st))
        else:
            b = self.pl(fr, n["ops"][0], st)
        if b.op == "ite":
            return self.fld_ite(b, n, st)
        if is_ref(n.get("ft", "")):
            r = T("fld", b, n["name"] + "&")
            v = read(st, r)
            return self.deref(v)
        return T("fld", b, n["name"])

    def fld_ite(self, b, n, st):
        if b.op == "ite":
            return T("ite", b.args[0], self.fld_ite(b.args[1], n, st), self.fld_ite(b.args[2], n, st))
        return T("fld", b, n["name"])

    # casts
    def cast(self, fr, i, n, st):
        ck = n["ck"]
        o = n["ops"][0]
        if ck == "LValueToRValue":
            return self.load(st, self.val(fr, o, st), n.get("t"))
        if ck in ("FloatingToIntegral",):
            return T("trunc", self.rv(fr, o, st))
        if ck in ("PointerToBoolean",):
            v = self.rv(fr, o, st)
            if v.op == "call" and v.args[0] == "exists":
                return v
            return T("bin", "!=", v, T("const", None))
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.rv(fr, o, st)
            return const(bool(v.args[0])) if isconst(v) else T("bin", "!=", v, const(0))
        if ck in ("FunctionToPointerDecay", "ArrayToPointerDecay", "BuiltinFnToFnPtr"):
            return self.val(fr, o, st)
        if ck == "ToVoid":
            self.val(fr, o, st)
            return T("void")
        if ck == "NullToPointer":
            return T("const", None)
        if n.get("lv"):
            on = fr.fn["nodes"][o]
            return self.val(fr, o, st) if on.get("lv") else self.pl(fr, o, st)
        return self.rv(fr, o, st)
    x_ImplicitCastExpr = cast
    x_CXXStaticCastExpr = cast
    x_CXXFunctionalCastExpr = cast
    x_CStyleCastExpr = cast
    x_CXXConstCastExpr = cast
    x_CXXReinterpretCastExpr = cast

    def x_CXXDynamicCastExpr(self, fr, i, n, st):
        v = self.val(fr, n["ops"][0], st)
        return v if n.get("lv") else T("call", "dynamic_cast", self.rv(fr, n["ops"][0], st), T("type", n["t"]))

    def x_ArraySubscriptExpr(self, fr, i, n, st):
        return T("idx", self.pl(fr, n["ops"][0], st), self.rv(fr, n["ops"][1], st))

    # operators
    def x_BinaryOperator(self, fr, i, n, st):
        op = n["op"]
        a, b = n["ops"]
        if op == "=":
            v = self.rv(fr, b, st)
            p = self.val(fr, a, st)
            self.store(fr, st, p, v, n)
            return p
        if op == "&&":
            return mk_ite(self.rv(fr, a, st), self.rv(fr, b, st), FALSE)
        if op == "||":
            return mk_ite(self.rv(fr, a, st), TRUE, self.rv(fr, b, st))
        if op == ",":
            return self.val(fr, b, st)
        x, y = self.rv(fr, a, st), self.rv(fr, b, st)
        return self.arith(op, x, y, is_int(fr.fn["nodes"][a].get("t", "")) and is_int(fr.fn["nodes"][b].get("t", "")))

    def arith(self, op, x, y, integer=False):
        if op == "/" and integer:
            return T("idiv", x, y)
        if isconst(x) and isconst(y) and op in ("+", "-", "*") and all(isinstance(z.args[0], (int, float)) and not isinstance(z.args[0], bool) for z in (x, y)):
            a, b = x.args[0], y.args[0]
            return const(a + b if op == "+" else a - b if op == "-" else a * b)
        if isconst(x) and isconst(y) and op in ("==", "!=", "<", ">", "<=", ">=") and type(x.args[0]) == type(y.args[0]) and x.args[0] is not None:
            a, b = x.args[0], y.args[0]
            return const({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if op == "==" and x is y and x.op in ("const", "enum"):
            return TRUE
        if op in ("==", "!=") and x.op == "enum" and y.op == "enum":
            return const((x is y) == (op == "=="))
        return T("bin", op, x, y)

    def x_CompoundAssignOperator(self, fr, i, n, st):
        a, b = n["ops"]
        y = self.rv(fr, b, st)
        p = self.val(fr, a, st)
        x = self.load(st, p)
        v = self.arith(n["op"][:-1], x, y, is_int(n.get("ct", "")))
        self.store(fr, st, p, v, n, n["op"])
        return p

    def x_UnaryOperator(self, fr, i, n, st):
        op, o = n["op"], n["ops"][0]
        if op in ("++", "--"):
            p = self.val(fr, o, st)
            old = self.load(st, p)
            new = self.arith("+" if op == "++" else "-", old, const(1))
            self.store(fr, st, p, new, n, op)
            return old if n["post"] else p
        if op == "*":
            v = self.rv(fr, o, st)
            return self.deref(v)
        if op == "&":
            v = self.val(fr, o, st)
            return v if v.op == "fnref" else T("addr", v)
        v = self.rv(fr, o, st)
        if op == "!":
            return neg(v)
        if op == "-":
            return const(-v.args[0]) if isconst(v) and isinstance(v.args[0], (int, float)) and not isinstance(v.args[0], bool) else T("un", "-", v)
        if op == "+":
            return v
        return T("un", op, v)

    def x_ConditionalOperator(self, fr, i, n, st):
        c, a, b = n["ops"]
        cv = self.rv(fr, c, st)
        if n.get("lv"):
            va = self.val(fr, a, st) if a in fr.vals else BOT
            vb = self.val(fr, b, st) if b in fr.vals else BOT
        else:
            na, nb = fr.fn["nodes"][a], fr.fn["nodes"][b]
            va = BOT if na["k"] == "CXXThrowExpr" else fr.vals.get(a)
            vb = BOT if nb["k"] == "CXXThrowExpr" else fr.vals.get(b)
            va = BOT if va is None and na["k"] != "CXXThrowExpr" and isconst(cv) else (self.rv(fr, a, st) if va is not BOT else BOT)
            vb = BOT if vb is None and nb["k"] != "CXXThrowExpr" and isconst(cv) else (self.rv(fr, b, st) if vb is not BOT else BOT)
        if va is BOT and vb is BOT:
            return T("void")
        return mk_ite(cv, va, vb)

    def x_CXXThrowExpr(self, fr, i, n, st):
        self.ev(fr, fr.pos, st, kind="throw", name=n.get("tt", ""), args=tuple(self.rv(fr, o, st) for o in n["ops"]), places=(), node=n, loc=n["loc"])
        return BOT

    def x_ReturnStmt(self, fr, i, n, st):
        if n["ops"]:
            o = n["ops"][0]
            if is_ref(fr.fn["ret"]):
                v = self.pl(fr, o, st)
            else:
                v = self.rv(fr, o, st)
            if v is BOT:
                return BOT
            st[T("ret", fr.cid)] = v
        return T("void")

    def x_DeclStmt(self, fr, i, n, st):
        for d in n["decls"]:
            if d.get("static") and d["var"].startswith("g:"):
                self.ev(fr, fr.pos, st, kind="static", name=d["name"], args=(), places=(T("glob", d["var"][2:]),), loc=d["loc"], node=n)
                continue
            if "op" in d:
                if is_ref(d["t"]):
                    fr.vars[d["var"]] = self.pl(fr, d["op"], st)
                else:
                    v = self.rv(fr, d["op"], st)
                    if v is BOT:
                        return BOT
                    p = T("var", d["name"], d["var"], fr.cid)
                    fr.vars[d["var"]] = p
                    write(st, p, v)
                    self.ev(fr, fr.pos, st, kind="decl", name=d["name"], args=(v,), places=(p,), val=v, loc=d["loc"], node=n, extra=d["t"])
            else:
                p = T("var", d["name"], d["var"], fr.cid)
                fr.vars[d["var"]] = p
                write(st, p, T("undef", d["name"], fr.cid))
            for b in d.get("bindings", ()):
                if "hold" in b and "hop" in b:
                    fr.vars[b["hold"]] = self.pl(fr, b["hop"], st)
                if "op" in b and b["op"] is not None:
                    fr.vars[b["var"]] = self.pl(fr, b["op"], st)
        return T("void")

    def x_InitListExpr(self, fr, i, n, st):
        t = strip_type(n["t"])
        r = self.P.recs.get(t)
        vs = [self.rv(fr, o, st) for o in n["ops"] if o is not None]
        if len(vs) == 1 and strip_type(fr.fn["nodes"][n["ops"][0]].get("t", "")) == t:
            return vs[0]
        if r and len(r["fields"]) >= len(vs) and vs:
            return mk_agg(T("new", t), [((f["name"],), v) for f, v in zip(r["fields"], vs)])
        if len(vs) == 1 and not is_class_type(t):
            return vs[0]
        if len(vs) == 1 and vs[0].op == "list" and t.startswith("std::array"):
            return vs[0]
        return T("list", *vs)

    def x_CXXDefaultArgExpr(self, fr, i, n, st): return T("opaque", "default")

    def x_LambdaExpr(self, fr, i, n, st):
        caps = []
        for c in n["caps"]:
            if c.get("this"):
                caps.append(("this", True, fr.this))
            elif "var" in c:
                if c.get("init"):
                    v = self.pl(fr, c["op"], st) if c["byref"] else self.rv(fr, c["op"], st)
                    caps.append((c["var"], c["byref"], v))
                    continue
                p = self.lookup(fr, c["var"])
                if p is None:
                    p = T("var", c["name"], c["var"], fr.cid)
                    fr.vars[c["var"]] = p
                if c["byref"]:
                    caps.append((c["var"], True, p))
                else:
                    caps.append((c["var"], False, self.load(st, p)))
        return T("lambda", n["fn"], fr.cid, i, tuple(T("cap", *x) for x in caps), fr.this if fr.this is not None else T("this"))

    def x_CXXNewExpr(self, fr, i, n, st):
        p = T("heap", n.get("cls") or n["nt"], fr.cid, i)
        if n["ops"]:
            v = self.rv(fr, n["ops"][0], st)
            write(st, p, v)
        self.ev(fr, fr.pos, st, kind="new", name=n["nt"], args=(), places=(p,), loc=n["loc"], node=n)
        return T("addr", p)

    def x_CXXDeleteExpr(self, fr, i, n, st):
        v = self.rv(fr, n["ops"][0], st)
        self.ev(fr, fr.pos, st, kind="delete", name="delete", args=(v,), places=(self.deref(v),), loc=n["loc"], node=n)
        return T("void")

    # -- construction -----------------------------------------------------------
    def x_CXXConstructExpr(self, fr, i, n, st):
        q = short(n["q"])
        cls = n["cls"]
        scls = short(cls)
        ops = n["ops"]
        f = self.P.fns.get(n["ctor"])
        if cls in self.P.recs or (f is not None):
            if f is not None and not (f["defaulted"] and (n["copy"] or n["move"])) and not (f["implicit"] and (n["copy"] or n["move"])):
                t = T("tmp", fr.cid, i)
                for k in [k for k in st if k is t or (isinstance(k, T) and has_prefix(k, t))]:
                    del st[k]
                st[t] = T("new", cls)
                return self.construct(fr, i, n, st, t)
            if n["copy"] or n["move"]:
                return self.rv(fr, ops[0], st)
            if not ops:
                return T("new", cls)
            return T("new", cls, *[self.rv(fr, o, st) for o in ops])
        if (n["copy"] or n["move"]) and len(ops) >= 1:
            return self.rv(fr, ops[0], st)
        if cls.startswith("lambda@"):
            return self.rv(fr, ops[0], st)
        args = [self.rv(fr, o, st) for o in ops]
        if scls in COPYLIKE:
            if not args or isconst(args[0], None) and args[0].args[0] is None:
                return T("const", None)
            return args[0]
        if scls == "std::optional":
            if args and ("in_place" in str(args[0]) or "in_place_t" in fr.fn["nodes"][ops[0]].get("t", "")):
                et = (template_args(cls) or [""])[0]
                sp = [self.argspec(fr, o, st) for o in ops[1:]]
                v = self.build(fr, n, st, et, sp, args[1:])
                return BOT if v is BOT else T("some", v)
            if not args or args[0].op == "glob" or "nullopt" in str(args[0]):
                return T("none")
            src = fr.fn["nodes"][ops[0]]
            if "std::optional<" in strip_type(src.get("t", "")):
                return args[0]
            return T("some", args[0])
        if scls == "std::pair" and len(args) == 2:
            return mk_agg(T("new", "std::pair"), [(("first",), args[0]), (("second",), args[1])])
        if scls in ("std::vector", "std::array", "std::map", "std::set", "std::list") and len(args) >= 1 and args[0].op == "list":
            return args[0]
        if scls in ("std::function",) and args:
            return args[0]
        if scls.endswith("xml_attribute") or scls.endswith("_iterator") or scls.endswith("iterator"):
            if len(args) == 1:
                return args[0]
        if scls == "std::variant" and len(args) == 1:
            return T("variant", args[0])
        if scls == "std::basic_string" and args:
            return args[0] if len(args) <= 2 else T("new", scls, *args)
        v = T("new", scls, *args)
        self.ev(fr, fr.pos, st, kind="ext", name=scls + "::ctor", args=tuple(args), places=tuple(self.maybe_place(fr, o, st) for o in ops), loc=n["loc"], node=n, val=v)
        # non-const reference parameters could be changed; constructors of the library do not
        return v
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXInheritedCtorInitExpr(self, fr, i, n, st): return T("new", n.get("t"))

    def maybe_place(self, fr, o, st):
        n = fr.fn["nodes"][o]
        return self.val(fr, o, st) if n.get("lv") else None

    def construct(self, fr, i, n, st, place):
        key = n.get("ctor")
        f = self.P.fns.get(key)
        if f is None:
            # implicit / library base constructor
            if n.get("copy") or n.get("move"):
                v = self.rv(fr, n["ops"][0], st)
                src = v
                r = self.P.recs.get(n.get("cls"))
                if r:
                    for fl in self.all_fields(n["cls"]):
                        write(st, T("fld", place, fl["name"]), project(src, fl["name"]))
            return T("void")
        if (f["defaulted"] or f["implicit"]) and (n.get("copy") or n.get("move")):
            src = self.rv(fr, n["ops"][0], st)
            for fl in self.all_fields(n["cls"]):
                write(st, T("fld", place, fl["name"]), project(src, fl["name"]))
            return T("void")
        r = self.call_project(fr, n, st, key, f, place, n["ops"])
        if r is BOT:
            return BOT
        return snapshot(st, place)

    def all_fields(self, cls):
        r = self.P.recs.get(cls)
        if not r:
            return []
        out = []
        for b in r["bases"]:
            out += self.all_fields(b)
        return out + r["fields"]

    # -- calls ------------------------------------------------------------------
    def x_CXXMemberCallExpr(self, fr, i, n, st):
        ops = n["ops"]
        if n.get("pmf"):
            vs = [self.rv(fr, o, st) for o in ops]
            return T("call", "pmf", *vs)
        base = ops[0]
        if n.get("arrow"):
            this = self.deref(self.rv(fr, base, st))
        else:
            this = self.pl(fr, base, st)
        return self.call(fr, i, n, st, this, ops[1:])

    def x_CXXOperatorCallExpr(self, fr, i, n, st):
        ops = n["ops"]
        if n.get("member"):
            return self.call(fr, i, n, st, self.pl(fr, ops[0], st), ops[1:])
        return self.call(fr, i, n, st, None, ops)

    def x_CallExpr(self, fr, i, n, st):
        ops = n["ops"]
        if n.get("indirect"):
            fv = self.rv(fr, ops[0], st)
            args = [self.rv(fr, o, st) for o in ops[1:]]
            return T("call", "indirect", fv, *args, T("at", fr.cid, i))
        return self.call(fr, i, n, st, None, ops)

    def call(self, fr, i, n, st, this, args):
        key = n.get("fn")
        P = self.P
        q = short(n.get("q", ""))
        # closures
        if this is not None and key and key.startswith("lambda@"):
            cv = this if this.op == "lambda" else self.load(st, this)
            if cv.op == "lambda":
                return self.call_lambda(fr, n, st, cv, [self.argspec(fr, o, st) for o in args])
        if this is not None and this.op == "ite" and key in P.fns:
            this = T("deref", T("addr", this))
        cands = PR.targets(P, n)
        if n.get("virt"):
            k2 = None
            dyn = self.dyn_class(st, this)
            if dyn:
                k2 = self.resolve_virtual(key, dyn)
            if k2 is None and self.virt:
                k2 = self.virt(n, cands, this)
            if k2 is None and len(cands) == 1:
                k2 = cands[0]
            if k2 is not None:
                return self.call_project(fr, n, st, k2, P.fns[k2], this, args)
            return self.opaque_project(fr, i, n, st, this, args, cands)
        if cands:
            return self.call_project(fr, n, st, cands[0], P.fns[cands[0]], this, args)
        if key and key in P.decl or (n.get("cls") in P.recs and n.get("cls") is not None):
            return self.opaque_project(fr, i, n, st, this, args, [])
        if q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::empty", "std::data") and len(args) == 1 and this is None:
            # of a class of the project: its own member
            at = fr.fn["nodes"][args[0]].get("t", "")
            todo, ks = [strip_type(at)], []
            while todo and not ks:
                c = todo.pop(0)
                if c in P.recs:
                    ks = [k for k in P.fns if P.fns[k].get("cls") == c and P.fns[k]["name"] == q[5:].replace("cb", "b").replace("ce", "e") and not P.fns[k]["params"]]
                    todo += P.recs[c]["bases"]
            if len(ks) > 1:
                w = is_const_obj(at) or q.startswith("std::c")
                ks = [k for k in ks if bool(P.fns[k].get("const")) is w] or ks[:1]
            if ks:
                return self.call_project(fr, n, st, ks[0], P.fns[ks[0]], self.pl(fr, args[0], st), [])
        return self.call_ext(fr, i, n, st, this, args)

    def dyn_class(self, st, this):
        v = st.get(this)
        if this.op == "heap":
            return this.args[0]
        if v is not None and v.op in ("new",):
            return v.args[0]
        if v is not None and v.op == "agg" and v.args[0].op == "new":
            return v.args[0].args[0]
        return None

    def resolve_virtual(self, key, cls):
        P = self.P
        # walk up from cls
        todo = [cls]
        while todo:
            c = todo.pop(0)
            r = P.recs.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["key"] == key or m["key"] in P.over.get(key, ()):
                    if m["key"] in P.fns:
                        return m["key"]
            todo += r["bases"]
        return None

    def argspec(self, fr, o, st):
        n = fr.fn["nodes"][o]
        v = self.val(fr, o, st)
        return (v, bool(n.get("lv")), o)

    def bind(self, fr, fr2, f, specs, st, n=None):
        for j, p in enumerate(f["params"]):
            if j >= len(specs):
                # parameter pack / missing default
                fr2.vars[p["var"]] = T("var", p["name"], p["var"], fr2.cid)
                continue
            v, lv, o = specs[j]
            if v.op in ("lambda", "fnref"):
                fr2.vars[p["var"]] = v
                continue
            if is_ref(p["t"]):
                if lv:
                    fr2.vars[p["var"]] = v
                else:
                    t = T("tmp", fr2.cid, "arg", j)
                    write(st, t, v)
                    fr2.vars[p["var"]] = t
            else:
                t = T("var", p["name"], p["var"], fr2.cid)
                fr2.vars[p["var"]] = t
                write(st, t, self.load(st, v) if lv else v)

    def lam_key(self, fr, key, specs):
        """the instance of a generic closure that a call uses"""
        if key in self.P.fns:
            return key
        ks = [k for k in self.P.lam.get(key.split(":operator()")[0], ()) if len(self.P.fns[k]["params"]) == len(specs)]
        if len(ks) > 1:
            ts = [strip_type(fr.fn["nodes"].get(o, {}).get("t", "")) if o is not None else "" for v, lv, o in specs]
            m = [k for k in ks if all(not t or strip_type(p["t"]) == t for p, t in zip(self.P.fns[k]["params"], ts))]
            ks = m or ks
        return ks[0] if ks else key

    def call_lambda(self, fr, n, st, lam, specs, sub=None):
        op = functor(lam)
        if op:
            v = [self.load(st, x) if lv else x for x, lv, o in specs]
            return T("bin", op, *v) if len(v) == 2 else T("un", op, v[0])
        key = self.lam_key(fr, lam.args[0], specs)
        f = self.P.fns.get(key)
        if f is None or key in fr.stack or len(fr.stack) > self.maxdepth:
            return T("call", "lambda", T("at", fr.cid, str(fr.pos)), *[self.load(st, v) if lv else v for v, lv, o in specs])
        fr.sub += 1
        cid = self.ctx(fr.cid, fr.pos + (fr.sub,), key)
        closure = {}
        this = lam.args[4]
        for c in lam.args[3]:
            vk, byref, x = c.args
            if vk == "this":
                this = x
            elif byref:
                closure[vk] = x
            else:
                p = T("tmp", cid, "cap", vk)
                write(st, p, x)
                closure[vk] = p
        # nested lambdas see enclosing captures through the closure
        fr2 = Frame(cid, f, key, this, closure, fr.stack + (key,))
        self.bind(fr, fr2, f, specs, st)
        return self.enter(fr, fr2, st, n, None, specs)

    def enter(self, fr, fr2, st, n, this, specs):
        vals = tuple(self.load(st, v) if lv else v for v, lv, o in specs)
        self.ev(fr, fr.pos, st, kind="enter", name=short(fr2.fn["q"]), args=vals, places=tuple(v if lv else None for v, lv, o in specs),
                this=this, loc=n.get("loc"), node=n, extra=fr2.cid)
        self.calls.setdefault((fr.cid,) + fr.pos, []).append(fr2.cid)
        st2 = dict(st)
        rv, out = self.exec_fn(fr2, st2)
        if out is None:
            return BOT
        st.clear()
        st.update(out)
        self.ev(fr, fr.pos, st, kind="leave", name=short(fr2.fn["q"]), args=(rv,), places=(), this=this, loc=n.get("loc"), node=n, extra=fr2.cid, val=rv)
        return rv

    def call_project(self, fr, n, st, key, f, this, args):
        if isinstance(this, T) and this.op == "fnref":
            this = None
        specs = [self.argspec(fr, o, st) for o in args]
        if any(v is BOT for v, _, _ in specs):
            return BOT
        if key in fr.stack or len(fr.stack) > self.maxdepth or not self.inline(key, f) or f.get("nocfg"):
            return self.opaque_project(fr, None, n, st, this, args, [key])
        # defaulted assignment operators
        if f["defaulted"] and f["name"] == "operator=":
            self.store(fr, st, this, self.rv(fr, args[0], st), n)
            return this
        fr.sub += 1
        cid = self.ctx(fr.cid, fr.pos + (fr.sub,), key)
        fr2 = Frame(cid, f, key, this if this is not None else T("nothis"), None, fr.stack + (key,))
        self.bind(fr, fr2, f, specs, st)
        return self.enter(fr, fr2, st, n, this, specs)

    def opaque_project(self, fr, i, n, st, this, args, cands):
        q = short(n.get("q", ""))
        specs = [self.argspec(fr, o, st) for o in args]
        vals = [self.load(st, v) if lv else v for v, lv, o in specs]
        tv = []
        if this is not None and not n.get("ctor"):
            tv = [self.load(st, this)]
        # which reference arguments may be written
        pts = n.get("pt") or [p["t"] for p in (self.P.fns[cands[0]]["params"] if cands else [])]
        mutates = []
        for j, (v, lv, o) in enumerate(specs):
            t = pts[j] if j < len(pts) else ""
            if lv and is_ref(t) and not is_const_obj(t) and not t.endswith("&&"):
                mutates.append(v)
        constm = n.get("cmeth") if "cmeth" in n else True
        if this is not None and not constm and not n.get("smeth") and not n.get("ctor"):
            mutates.append(this)
        mk = n.get("ctor") and "new" or "call"
        name = q if mk == "call" else n["cls"]
        if mutates:
            at = T("at", fr.cid, fr.pos[0], fr.pos[1], fr.sub)
            fr.sub += 1
            r = T(mk, name, *tv, *vals, at)
        else:
            r = T(mk, name, *tv, *vals)
        self.ev(fr, fr.pos, st, kind="call", name=q, args=tuple(vals), places=tuple(v if lv else None for v, lv, o in specs), this=this,
                loc=n.get("loc"), node=n, val=r, extra=cands)
        for p in mutates:
            if p.op in ("lambda", "fnref"):
                continue
            write(st, p, T("after", q, self.load(st, p), r))
        if n.get("ctor") and this is not None:
            write(st, this, r)
        rt = n.get("t", "")
        if n.get("lv"):
            return T("deref", r)
        return r

    # -- library calls ----------------------------------------------------------
    def call_ext(self, fr, i, n, st, this, args):
        q = short(n.get("q", ""))
        name = q.split("::")[-1]
        cls = short(n.get("cls", "")) if n.get("cls") else ""
        specs = [self.argspec(fr, o, st) for o in args]
        if any(v is BOT for v, _, _ in specs):
            return BOT
        vals = [self.load(st, v) if lv else v for v, lv, o in specs]
        places = [v if lv else None for v, lv, o in specs]
        if q in ("std::min", "std::max", "std::clamp") and len(vals) == (3 if q == "std::clamp" else 2):
            less = lambda i, j: T("bin", "<", vals[i], vals[j])
            of = places if n.get("lv") and None not in places else vals
            if q == "std::clamp":
                return mk_ite(less(0, 1), of[1], mk_ite(less(2, 0), of[2], of[0]))
            return mk_ite(less(1, 0) if q == "std::min" else less(0, 1), of[1], of[0])
        if q in PASS:
            return specs[0][0] if n.get("lv") or not specs[0][1] else vals[0]
        if this is not None and this.op in ("lambda", "fnref"):
            return T("call", q, this, *vals)
        tv = self.load(st, this) if this is not None else None
        if cls.startswith("pugi::") and (name == "operator bool" or "operator void" in q or "unspecified_bool" in q):
            return T("call", "exists", tv)
        if cls.startswith("pugi::") and name == "operator!":
            return neg(T("call", "exists", tv))
        if cls.startswith("pugi::") and name == "empty" and not vals:
            return neg(T("call", "exists", tv))
        isit = cls.endswith("iterator") or cls.endswith("__normal_iterator") or cls.startswith("std::_List") or cls.startswith("std::_Rb_tree_")

        def event(r=None, **k):
            return self.ev(fr, fr.pos, st, kind="ext", name=q, args=tuple(vals), places=tuple(places), this=this, loc=n.get("loc"), node=n, val=r, extra=tv, **k)

        # smart pointers
        if cls in SMART or cls == "std::reference_wrapper":
            if name in ("operator->", "get") and not n.get("lv"):
                return tv
            if name in ("operator*", "get") or n.get("conv"):
                return self.deref(tv)
            if name == "operator bool":
                return T("bin", "!=", tv, T("const", None))
            if name in ("operator=",):
                v = vals[0]
                event(v)
                self.store(fr, st, this, v, n)
                return this
            if name in ("reset", "swap", "release"):
                event()
                self.store(fr, st, this, vals[0] if vals else T("const", None), n)
                return tv
        if q in ("std::make_shared", "std::make_unique"):
            return self.make_obj(fr, i, n, st, specs)
        if q in ("std::static_pointer_cast", "std::const_pointer_cast"):
            return vals[0]
        # optional
        if cls in ("std::optional", "std::_Optional_base_impl"):
            if name in ("operator*", "value"):
                if name == "value":
                    event()
                return T("fld", this, "$val") if n.get("lv") else project(tv, "$val")
            if name == "operator->":
                return T("addr", T("fld", this, "$val"))
            if name in ("has_value", "operator bool"):
                if tv.op == "some":
                    return TRUE
                if tv.op == "none":
                    return FALSE
                return T("call", "has_value", tv)
            if name == "operator=":
                self.store(fr, st, this, vals[0] if "optional<" in strip_type(fr.fn["nodes"][args[0]].get("t", "")) else T("some", vals[0]), n)
                return this
        if q in ("std::make_optional",):
            et = (template_args(strip_type(n.get("t", ""))) or [""])[0]
            if strip_type(et) in self.P.recs:
                v = self.build(fr, n, st, et, specs, vals)
                return BOT if v is BOT else T("some", v)
            return T("some", vals[0])
        if q == "std::get":
            k = get_member(n)
            b = places[0]
            if b is None:
                return project(vals[0], k)
            return T("fld", b, k)
        if q in ("std::make_pair",):
            return mk_agg(T("new", "std::pair"), [(("first",), vals[0]), (("second",), vals[1])])
        if q in ("std::make_tuple",):
            return mk_agg(T("new", "std::tuple"), [(("$%d" % j,), v) for j, v in enumerate(vals)])
        # containers
        if this is not None and not isit and (cls.startswith("std::") or cls.startswith("pugi")):
            if name in ("operator[]", "at") and n.get("lv"):
                event()
                if cls in ("std::map",) and name == "operator[]":
                    pass
                return T("idx", this, vals[0])
            if name == "front" and n.get("lv") and cls in ("std::array", "std::vector"):
                event()
                return T("idx", this, const(0))
            if name in ("back", "front") and n.get("lv"):
                event()
                return T("idx", this, T(name))
            if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend") and cls.startswith("std::"):
                return T("call", name.replace("cb", "b").replace("ce", "e").replace("cr", "r"), T("at_place", this))
            if name in ("begin", "end") and not vals:
                return T("call", name, T("at_place", tv))
            if name in ("size", "length") and not vals:
                return T("call", "size", unmap(tv, lambda x: True))
            if name == "empty" and not vals and cls.startswith("std::"):
                return T("bin", "==", T("call", "size", tv), const(0))
            if name in ("find", "lower_bound", "upper_bound", "count", "contains") and cls in ("std::map", "std::set", "std::unordered_map", "std::unordered_set", "std::multimap"):
                return T("call", q, T("at_place", this), *vals)
            if name in ("push_back", "emplace_back", "push_front", "emplace_front") and cls in ("std::vector", "std::list", "std::deque"):
                event()
                if name.startswith("emplace"):
                    v = self.emplaced(fr, n, st, specs, cls)
                    if v is BOT:
                        return BOT
                else:
                    v = vals[0]
                nv = T("upd", name, tv, v)
                self.store(fr, st, this, nv, n, name)
                if n.get("lv"):
                    return T("idx", this, T("back" if "back" in name else "front"))
                return T("void")
        if q in ("std::begin", "std::end", "std::cbegin", "std::cend") and len(vals) == 1:
            return T("call", name.lstrip("c"), T("at_place", places[0] if places[0] is not None else vals[0]))
        if q in ("std::size",) and len(vals) == 1:
            return T("call", "size", vals[0])
        # iterators
        if isit and this is not None:
            if name in ("operator*", "operator->") and self.derefs:
                self.ev(fr, fr.pos, st, kind="deref", name=q, args=(tv,), loc=n.get("loc"), node=n, extra=tv)
            if name == "operator*":
                return self.deref(tv)
            if name == "operator->":
                return tv
            if name == "operator[]":
                return self.deref(T("bin", "+", tv, vals[0]))
            if name in ("operator++", "operator--"):
                nv = T("bin", "+" if name == "operator++" else "-", tv, const(1))
                self.store(fr, st, this, nv, n, name)
                return tv if vals else this
            if name in ("operator+=", "operator-="):
                self.store(fr, st, this, T("bin", name[-2], tv, vals[0]), n, name)
                return this
            if name in ("operator+", "operator-"):
                return T("bin", name[-1], tv, vals[0])
            if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
                return T("bin", name[8:], tv, vals[0])
            if name == "base":
                return tv
            if name == "operator=":
                self.store(fr, st, this, vals[0], n)
                return this
        if n.get("opcall") in ("==", "!=", "<", ">", "<=", ">="):
            a = ([tv] if this is not None else []) + vals
            if len(a) == 2:
                return self.arith(n["opcall"], a[0], a[1])
        if n.get("opcall") in ("-", "+") and this is None and len(vals) == 2 and any("iterator" in strip_type(fr.fn["nodes"][o].get("t", "")) for o in args):
            return T("bin", n["opcall"], vals[0], vals[1])
        if n.get("opcall") == "!" and len(vals) + (this is not None) == 1:
            a = tv if this is not None else vals[0]
            return neg(T("call", "bool", a))
        if q in ("std::next", "std::prev"):
            d = vals[1] if len(vals) > 1 else const(1)
            return T("bin", "+" if q == "std::next" else "-", vals[0], d)
        if q == "std::advance":
            self.store(fr, st, places[0], T("bin", "+", vals[0], vals[1]), n)
            return T("void")
        if q == "std::distance":
            return T("bin", "-", vals[1], vals[0])
        if q in ("std::swap",) and all(p is not None for p in places):
            event()
            self.store(fr, st, places[0], vals[1], n)
            self.store(fr, st, places[1], vals[0], n)
            return T("void")
        # assignment of library values
        if n.get("opcall") == "=" and this is not None:
            event(vals[0])
            self.store(fr, st, this, vals[0], n)
            return this
        # output streams: the content is the concatenation of what was written
        if n.get("opcall") == "<<" and n.get("lv") and "ostream" in n.get("t", ""):
            sp = this if this is not None else places[0]
            x = vals[0] if this is not None else vals[1]
            if sp is not None:
                if sp.op == "ite":
                    sp = sp.args[1]
                e = event()
                e.kind, e.args, e.places = "out", (x,), (sp,)
                old = self.load(st, sp)
                if old.op == "new" or (old.op == "undef"):
                    old = T("new", "stream", *old.args[1:])
                write(st, sp, T("cat", old, x))
                return sp
        # input streams: every extraction gives an unknown value and leaves the stream at an unknown position
        if n.get("opcall") == ">>" and n.get("lv") and "istream" in n.get("t", ""):
            sp = this if this is not None else places[0]
            xp = places[0] if this is not None else places[1]
            if sp is not None and xp is not None and sp.op != "ite":
                at = T("at", fr.cid, fr.pos[0], fr.pos[1], fr.sub)
                fr.sub += 1
                e = event()
                e.kind, e.places = "in", (sp, xp)
                self.store(fr, st, xp, T("read", at), n, ">>")
                write(st, sp, T("stream@", at))
                return sp
        # strings
        isstr = lambda t: "basic_string<" in strip_type(t or "") and "stream" not in strip_type(t or "")
        if n.get("opcall") == "+" and this is None and len(vals) == 2 and isstr(n.get("t")):
            return T("cat", vals[0], vals[1])
        if cls == "std::basic_string" and this is not None and (name in ("operator+=", "append", "push_back")) and len(vals) == 1:
            event()
            self.store(fr, st, this, T("cat", tv, vals[0]), n, "+=")
            return this if n.get("lv") else T("void")
        if q in ("std::to_string",) and len(vals) == 1:
            return T("call", "std::to_string", vals[0])
        if name == "str" and this is not None and not vals and "stream" in cls:
            return T("call", "str", tv)
        # atomics
        if cls.startswith("std::atomic") or cls.startswith("std::__atomic"):
            at = T("at", fr.cid, fr.pos[0], fr.pos[1], fr.sub)
            fr.sub += 1
            if name in ("operator++", "operator--", "fetch_add", "fetch_sub"):
                old = T("rmw", this, at)
                d = vals[0] if name.startswith("fetch") else const(1)
                sgn = "-" if name in ("operator--", "fetch_sub") else "+"
                event(old)
                self.store(fr, st, this, T("upd", "rmw", this, at), n, "rmw")
                if name.startswith("operator") and not vals:   # prefix
                    return T("bin", sgn, old, d)
                return old
            if name in ("operator+=", "operator-="):
                old = T("rmw", this, at)
                event(old)
                self.store(fr, st, this, T("upd", "rmw", this, at), n, "rmw")
                return T("bin", name[-2], old, vals[0])
            if name.startswith("operator ") or name in ("load",) or "operator" in name and not vals:
                v = T("aload", this, at)
                event(v)
                return v
            event()
            if vals:
                self.store(fr, st, this, T("upd", name, tv, *vals), n, name)
            return T("call", q, tv, *vals, at)
        # algorithms taking closures, and future/async
        for j, (v, lv, o) in enumerate(specs):
            t = short(strip_type(fr.fn["nodes"][o].get("t", "")))
            if t.startswith("std::") and t[5:] in FUNCTORS:
                vals[j] = T("new", t)
                specs[j] = (vals[j], False, o)
                places[j] = None
        if q not in ("std::async", "std::thread::thread", "std::jthread::jthread") and any(v.op == "lambda" or functor(v) and name in ("accumulate", "reduce", "transform", "sort", "adjacent_find", "inner_product") for v in vals):
            return self.algorithm(fr, i, n, st, q, this, specs, vals, places)
        if q == "std::accumulate" or q in ("std::reduce",):
            return self.accumulate(fr, i, n, st, vals, None)
        # generic
        pts = n.get("pt") or []
        mutates = []
        for j, (v, lv, o) in enumerate(specs):
            t = pts[j] if j < len(pts) else ""
            if lv and is_ref(t) and not is_const_obj(t) and (not t.endswith("&&") or fr.fn["nodes"][o]["k"] == "DeclRefExpr" and not is_const_obj(fr.fn["nodes"][o].get("vt", ""))):
                if v.op not in ("fnref", "lambda"):
                    mutates.append(v)
        if this is not None and not n.get("cmeth") and not n.get("smeth") and name not in MUTATORS_KEEP:
            mutates.append(this)
        a = ([tv] if this is not None else []) + vals
        if name == "operator()":
            q2 = cls
        if mutates:
            at = T("at", fr.cid, fr.pos[0], fr.pos[1], fr.sub)
            fr.sub += 1
            r = T("call", q, *a, at)
        else:
            r = T("call", q, *a)
        event(r)
        for p in mutates:
            nm = T("upd", q, self.load(st, p), *[x for x in a], *( [r] if mutates else []))
            if p.op in ("const",):
                continue
            write(st, p, nm)
            if root(p).op not in ("var", "tmp") or root(p).args[1:2] == ("param",):
                self.ev(fr, fr.pos, st, kind="write", name=q, args=(nm,), places=(p,), val=nm, node=n, loc=n.get("loc"))
        if n.get("noret"):
            return BOT
        if n.get("lv"):
            if q.endswith("operator<<") or q.endswith("operator>>"):
                return places[0] if this is None and places and places[0] is not None else (this if this is not None else T("deref", r))
            return T("deref", r)
        return r

    def emplaced(self, fr, n, st, specs, cls):
        """value constructed in place by emplace-like calls"""
        vals = [self.load(st, v) if lv else v for v, lv, o in specs]
        ta = template_args(n.get("cls", ""))
        et = ta[0] if ta else ""
        return self.build(fr, n, st, et, specs, vals)

    def build(self, fr, n, st, cls, specs, vals, place=None):
        cls = strip_type(cls)
        if cls not in self.P.recs:
            return vals[0] if len(vals) == 1 else T("new", short(cls), *vals)
        if len(specs) == 1 and strip_type(fr.fn["nodes"][specs[0][2]].get("t", "")) == cls:
            if place is not None:
                write(st, place, vals[0])
            return vals[0]
        ctors = [m for m in self.P.recs[cls]["methods"] if m["ctor"] and m["key"] in self.P.fns]
        cand = [m for m in ctors if len(self.P.fns[m["key"]]["params"]) == len(specs) and not self.P.fns[m["key"]].get("copyctor") and not self.P.fns[m["key"]].get("movector")]
        if len(cand) > 1:
            def score(m):
                ps = self.P.fns[m["key"]]["params"]
                s = 0
                for p, (v, lv, o) in zip(ps, specs):
                    if strip_type(p["t"]) == strip_type(fr.fn["nodes"][o].get("t", "")):
                        s += 1
                return -s
            cand.sort(key=score)
        if not cand:
            return T("new", cls, *vals)
        key = cand[0]["key"]
        f = self.P.fns[key]
        if place is None:
            place = T("tmp", fr.cid, "build", fr.pos[0], fr.pos[1], fr.sub)
        for k in [k for k in st if k is place or (isinstance(k, T) and has_prefix(k, place))]:
            del st[k]
        st[place] = T("new", cls)
        if key in fr.stack or len(fr.stack) > self.maxdepth or not self.inline(key, f):
            v = T("new", cls, *vals)
            self.ev(fr, fr.pos, st, kind="call", name=short(f["q"]), args=tuple(vals), places=tuple(v2 if lv else None for v2, lv, o in specs), this=place,
                    loc=n.get("loc"), node=n, val=v, extra=[key])
            write(st, place, v)
            return v
        fr.sub += 1
        cid = self.ctx(fr.cid, fr.pos + (fr.sub,), key)
        fr2 = Frame(cid, f, key, place, None, fr.stack + (key,))
        self.bind(fr, fr2, f, specs, st)
        r = self.enter(fr, fr2, st, n, place, specs)
        if r is BOT:
            return BOT
        return snapshot(st, place)

    def make_obj(self, fr, i, n, st, specs):
        ta = template_args(n.get("t", ""))
        cls = strip_type(ta[0]) if ta else "?"
        vals = [self.load(st, v) if lv else v for v, lv, o in specs]
        p = T("heap", cls, fr.cid, i if i is not None else 0)
        self.ev(fr, fr.pos, st, kind="make", name=cls, args=tuple(vals), places=(p,), loc=n.get("loc"), node=n)
        v = self.build(fr, n, st, cls, specs, vals, p)
        if v is BOT:
            return BOT
        if p not in st and not any(has_prefix(k, p) for k in st if isinstance(k, T)):
            write(st, p, v)
        return T("addr", p)

    def container_of(self, it):
        if it.op == "call" and it.args[0] in ("begin", "rbegin") and it.args[1].op == "at_place":
            return it.args[1].args[0]
        return None

    def elem_place(self, it, ident):
        c = self.container_of(it)
        if c is not None:
            return T("elem", c, ident)
        return T("elem", T("range", it), ident)

    def full_of(self, b, e):
        c = self.container_of(b)
        if c is not None and e is not None and b.args[0] == "begin" and e.op == "call" and e.args[0] == "end" and e.args[1] is b.args[1]:
            return (c,)
        return ()

    def accumulate(self, fr, i, n, st, vals, lam):
        ident = T("it", fr.cid, i)
        b, e, init = vals[0], vals[1], vals[2]
        acc = T("loopphi", fr.cid, ("alg", i), T("acc"))
        el = self.elem_place(b, ident)
        if lam is None:
            out = T("bin", "+", acc, self.load(st, el))
        else:
            ap = T("accv", fr.cid, i)

            def body(st):
                for k in [k for k in st if k is ap or isinstance(k, T) and has_prefix(k, ap)]:
                    del st[k]
                st[ap] = acc
                r = self.call_lambda(fr, n, st, lam, [(ap, True, None), (el, True, None)])
                if r is not BOT:
                    r = self.load(st, r) if r is ap else r
                for k in [k for k in st if k is ap or isinstance(k, T) and has_prefix(k, ap)]:
                    del st[k]
                return r
            out, ok = self.loop_alg(fr, i, n, st, body)
        self.phi[acc] = (init, (out,))
        self.elemof[ident] = (b, e)
        return T("fold", acc)

    def loop_alg(self, fr, i, n, st, body, full=()):
        """run a closure body as a loop: widen what it changes"""
        st0 = dict(st)
        hdr = dict(st0)
        r = T("void")
        myid = T("it", fr.cid, i)
        evk = (fr.cid, fr.pos[0], fr.pos[1])
        nev = len(self.events.get(evk, ()))
        sub0 = fr.sub
        for _ in range(6):
            fr.sub = sub0
            if evk in self.events:
                del self.events[evk][nev:]
            cur = dict(hdr)
            r = body(cur)
            if r is BOT:
                cur = dict(hdr)
                break
            new = {}
            keys = set(st0) | set(cur)
            keys.discard(FACTS)
            phis = set()
            changes = {}
            for k in sorted(keys, key=lambda z: z.uid):
                ow = self.own(k, lambda z: z is myid)
                if ow is not None:
                    if k in cur and ow[0] is not None:
                        changes.setdefault((ow[0], ow[2]), {})[ow[1]] = read(cur, k)
                    continue
                e, x = read(st0, k), unmap(read(cur, k), lambda z: z is myid)
                ph = T("loopphi", fr.cid, ("alg", i), k)
                # temporaries of the body itself are not loop carried
                if k not in st0 and root(k).op in ("tmp", "var", "heap", "ret") and root(k) not in st0:
                    continue
                if x is e or x is ph:
                    new[k] = e
                else:
                    new[k] = ph
                    phis.add(ph)
                    self.phi[ph] = (e, (x,))
            for c2, v in self.mapped(st0, changes, lambda c_, z: bool(full) and c_ in full).items():
                if new.get(c2) not in phis:
                    new[c2] = v
            f = st0[FACTS] & cur[FACTS]
            new[FACTS] = frozenset(x for x in f if not any(y in phis for y in subterms(x[0])))
            if new == hdr:
                break
            hdr = new
        st.clear()
        st.update(hdr)
        return r, True

    def algorithm(self, fr, i, n, st, q, this, specs, vals, places):
        name = q.split("::")[-1]
        lam = next(v for v in vals if v.op == "lambda" or functor(v))
        others = [v for v in vals if v.op != "lambda" and not functor(v)]
        ident = T("it", fr.cid, i)
        self.ev(fr, fr.pos, st, kind="alg", name=q, args=tuple(vals), places=tuple(places), loc=n.get("loc"), node=n, this=this)
        if name in ("accumulate", "reduce") and len(vals) == 4:
            return self.accumulate(fr, i, n, st, vals, lam)
        if name in ("upper_bound", "lower_bound", "equal_range", "binary_search", "sort", "min_element", "max_element", "is_sorted", "adjacent_find", "stable_sort"):
            el = self.elem_place(others[0], ident)
            f = self.P.fns.get(lam.args[0])
            # comparator: (elem, value) or (value, elem)
            if name == "lower_bound":
                sp = [(el, True, None), (others[2], False, None)]
            elif name == "upper_bound":
                sp = [(others[2], False, None), (el, True, None)]
            else:
                el2 = self.elem_place(others[0], T("it2", fr.cid, i))
                sp = [(el, True, None), (el2, True, None)]
            cur = dict(st)
            r, _ = self.loop_alg(fr, i, n, cur, lambda s: self.call_lambda(fr, n, s, lam, sp))
            return T("call", q, *others, T("pred", el, r))
        if name in ("visit",):
            el = T("fld", places[1] if len(places) > 1 and places[1] is not None else vals[1], "$visit")
            r, _ = self.loop_alg(fr, i, n, st, lambda s: self.call_lambda(fr, n, s, lam, [(el, True, None)]))
            return T("call", q, *others, r)
        if name in ("find_if", "any_of", "all_of", "none_of", "count_if", "for_each", "find_if_not", "generate", "remove_if", "partition"):
            el = self.elem_place(others[0], ident)
            box = {}

            def body(s):
                box["r"] = self.call_lambda(fr, n, s, lam, [(el, True, None)] if name != "generate" else [])
                if name == "generate" and box["r"] is not BOT:
                    self.store(fr, s, el, box["r"], n)
                return box["r"]
            self.loop_alg(fr, i, n, st, body, self.full_of(others[0], others[1] if len(others) > 1 else None))
            self.elemof[ident] = (others[0], others[1] if len(others) > 1 else None)
            r = box["r"]
            if name in ("for_each", "generate"):
                return lam
            return T("call", q, *others, T("pred", el, r))
        if name == "transform":
            its = others
            ins = its[:3:2] if len(its) == 4 else its[:1]      # b1,e1,out | b1,e1,b2,out
            outp = its[-1]
            els = [self.elem_place(x, ident) for x in ins]
            box = {}
            back = outp.op == "call" and "inserter" in str(outp.args[0])

            def body(s):
                r = self.call_lambda(fr, n, s, lam, [(e, True, None) for e in els])
                box["r"] = r
                if r is not BOT and not back:
                    self.store(fr, s, self.elem_place(outp, ident), r, n, "transform")
                return r
            f = self.full_of(others[0], others[1])
            if f and self.container_of(outp) is not None:
                f = f + (self.container_of(outp),)
            self.loop_alg(fr, i, n, st, body, f)
            self.elemof[ident] = (others[0], others[1])
            res = T("call", "std::transform", *others, T("pred", T("list", *els), box["r"]))
            if back and len(outp.args) > 1:
                # container filled through an inserter
                tgt = outp.args[1]
                c = next((x for x in subterms(outp) if x.op in ("var", "fld") and x in st), None)
                if c is not None:
                    write(st, c, T("upd", "transform", self.load(st, c), res))
            return res
        if name == "async":
            el = [(v, lv, o) for (v, lv, o), vv in zip(specs, vals) if vv.op != "lambda" and "launch" not in str(fr.fn["nodes"][o].get("t", ""))]
            r, _ = self.loop_alg(fr, i, n, st, lambda s: self.call_lambda(fr, n, s, lam, el))
            return T("future", r)
        # unknown algorithm: call the closure with opaque elements, any number of times
        f = self.P.fns.get(lam.args[0])
        sp = [(T("elem", T("range", others[0] if others else T("void")), T("it", fr.cid, i, j)), True, None) for j in range(len(f["params"]) if f else 0)]
        r, _ = self.loop_alg(fr, i, n, st, lambda s: self.call_lambda(fr, n, s, lam, sp))
        return T("call", q, *others, T("pred", ident, r))

    # -- event order ---------------------------------------------------------
    def graph(self, cid=0):
        """flattened event graph: (nodes: id -> list of events, succ: id -> ids, entry, exit)
        inlined calls are spliced in between their enter/leave events"""
        nodes, succ = {}, {}
        self.glab = lab = {}      # edge -> (facts that hold on it, back edge)

        def add(nid, evs):
            nodes[nid] = evs
            succ.setdefault(nid, [])

        def build(cid):
            fr = self.frames[cid]
            c = self.cfg(fr.key)
            first, lastn = {}, {}
            for b in c["rpo"]:
                if not self.alive.get((cid, b)):
                    continue
                cur = (cid, b, -1)
                add(cur, [])
                first[b] = cur
                dead = False
                for i, e in enumerate(c["B"][b]["el"]):
                    evs = self.events.get((cid, b, i))
                    if not evs:
                        continue
                    seg = 0
                    nid = (cid, b, i, seg)
                    add(nid, [])
                    succ[cur].append(nid)
                    cur = nid
                    stack = []
                    for ev in evs:
                        nodes[cur].append(ev)
                        if ev.kind == "throw":
                            dead = True
                            break
                        if ev.kind == "enter" and ev.extra in self.frames:
                            en, ex = build(ev.extra)
                            succ[cur].append(en)
                            seg += 1
                            nid = (cid, b, i, seg)
                            add(nid, [])
                            if ex is None:
                                dead = True
                                break
                            succ[ex].append(nid)
                            # closures run by algorithms may run any number of times
                            par = [x for x in evs if x.kind == "alg"]
                            if par:
                                succ[cur].append(nid)
                                succ[ex].append(en)
                            cur = nid
                    if dead:
                        break
                lastn[b] = None if dead else cur
            for b in first:
                if lastn[b] is None:
                    continue
                for s in c["succ"][b]:
                    if s is not None and s in first and fr.outs.get((b, s)) is not None:
                        succ[lastn[b]].append(first[s])
                        i = c["succ"][b].index(s)
                        fs = self.edge_facts(fr, c, b, i, None)
                        lab[(lastn[b], first[s])] = (fs or (), c["rpo"].index(s) <= c["rpo"].index(b), (cid, s))
            ex = first.get(c["exit"])
            return first[c["entry"]], ex
        en, ex = build(cid)
        return nodes, succ, en, ex

    def all_events(self):
        for k in sorted(self.events, key=str):
            if self.alive.get((k[0], k[1])):
                for e in self.events[k]:
                    yield e
