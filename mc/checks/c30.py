"""Shape and orientation of multigroup data."""
from ..spec import *
from ..transport import deep_under

RULE = ("symbolic values of the multigroup tables as their constructors leave them, for an arbitrary group structure: a one-dimensional table holds the numbers of its node in order and is only accepted when there are as many as groups; "
        "a two-dimensional one when there are groups squared, its entry [incoming][outgoing] being number groups*outgoing+incoming; normalised tables divide by the sum over outgoing groups of the same incoming group; "
        "look-ups use position group-1; reactions, yields, spectra and transfer probabilities are built from the nodes of their own name, scattering from the sums over outgoing groups")
MINIMUM = 20
CLS = "Multigroup"
ONE, TWO, NORM = (CLS + "::" + x for x in ("OneDimensional", "TwoDimensional", "NormalizedTwoDimensional"))


def run(P, C):
    node = T("var", "node", "carg", 0)
    fromnode = lambda f: f["params"] and "xml_node" in f["params"][0]["t"]
    store = {c: the_table(P, c) for c in (ONE, TWO)}
    # one entry per group
    for kc in ctors(P, ONE, fromnode):
        o = Obj(P, kc, args=[node])
        v = o.field(store[ONE])
        C.count("constructors")
        C.ob(values_of(o.r, v, node), "OneDimensional:holds the numbers of its node in order", loc(P, kc), "holds %s" % show(v)[:300])
        C.ob(sized(o.r, v, node, 1), "OneDimensional:accepted only with one number per group", loc(P, kc), "accepted when %s" % facts_text(o.r))
    for kc in ctors(P, ONE, lambda f: not fromnode(f)):
        o = Obj(P, kc)
        v = o.field(store[ONE])
        C.ob(v in o.args or any(same(v, a) for a in o.args), "OneDimensional:holds the numbers it is given", loc(P, kc), "holds %s" % show(v)[:300])
    for c in (ONE, TWO):
        for k in fns(P, c + "::at"):
            g = T("var", "g", "param", 0)
            r = Run(P, k, this=T("this"), args=[g])
            C.count("look-ups")
            C.ob(same(r.value, spec("e[g-1]", e=T("fld", T("this"), store[c]), g=g)), c + ":position of a group", loc(P, k), "is %s" % show(r.value)[:200])
    # two-dimensional
    for kc in ctors(P, TWO, fromnode):
        o = Obj(P, kc, args=[node])
        v = o.field(store[TWO])
        C.count("constructors")
        ok, V, why = matrix(o.r, v, node, store)
        C.ob(ok, "TwoDimensional:entry [incoming][outgoing] is number groups*outgoing+incoming", loc(P, kc), why)
        C.ob(V is not None and sized(o.r, V, node, 2), "TwoDimensional:accepted only with groups squared numbers", loc(P, kc), "accepted when %s" % facts_text(o.r))
    for kc in ctors(P, NORM, fromnode):
        o = Obj(P, kc, args=[node])
        v = o.field(store[TWO])
        C.count("constructors")
        why = normalised(o.r, v, node, store)
        C.ob(why is None, "NormalizedTwoDimensional:probabilities of outgoing groups", loc(P, kc), why or "")
        V = [x for x in subterms(v) if x.op == "loop" and values_of(o.r, x, node)]
        C.ob(len(V) >= 1 and sized(o.r, V[0], node, 2), "NormalizedTwoDimensional:accepted only with groups squared numbers", loc(P, kc), "accepted when %s" % facts_text(o.r))
    # where the tables come from
    inl = lambda k, f: not (f.get("ctor") and fromnode(f) and short(f["q"]).rsplit("::", 1)[0] in (ONE, TWO, NORM))
    for kc in ctors(P, CLS, fromnode):
        o = Obj(P, kc, args=[node], inline=inl)
        fis = child(node, "fission")
        want = {"nubar": (ONE, child(fis, "nubar")), "chi": (NORM, child(fis, "chi")), "scatter": (NORM, child(node, "scatter"))}
        got = {}
        for f in P.recs[CLS]["fields"]:
            v = o.field(f["name"])
            t = strip_type(f["t"])
            if "optional" in t or NORM in t:
                cls = NORM if "NormalizedTwo" in t else ONE
                for n, (wc, wn) in want.items():
                    if not (wc == cls and contains(v, lambda x: x is wn)):
                        continue
                    some = T("some", T("new", cls, wn))
                    ok = v.op == "ite" and v.args[0] is T("call", "exists", wn) and v.args[1] is some and v.args[2].op == "none"
                    C.ob(ok, "Multigroup:%s is built from its own node when there is one" % n, loc(P, kc), "%s is %s" % (f["name"], show(v)[:300]))
                    got[n] = f["name"]
            elif "map" in t and "Reaction" in t:
                reactions(C, o, v, node, store, loc(P, kc))
            elif t in ("unsigned long", "Group", "size_t"):
                C.ob(groups(v, node), "Multigroup:number of groups", loc(P, kc), "%s is %s" % (f["name"], show(v)[:300]))
        C.ob(set(got) == set(want), "Multigroup:yield, spectrum and transfer probabilities all read", loc(P, kc), "found %s" % got)
        C.ob(len(set(got.values())) == len(got), "Multigroup:tables are kept apart", loc(P, kc), str(got))
        # each used as what it is
        who_uses(P, C, got)
    C.assumptions.append("real arithmetic; a column of zeros is left as it is")


def the_table(P, c):
    fs = P.recs[c]["fields"]
    if len(fs) != 1:
        raise AnalysisError("%s has %d members" % (c, len(fs)))
    return fs[0]["name"]


def facts_text(r):
    return "; ".join("%s=%s" % (show(c)[:150], p) for c, p in cfacts(r).items())[:400]


def groups(t, node):
    """the number of groups the document declares"""
    if t.op != "call" or not t.args[0].endswith(("as_uint", "as_ullong")):
        return False
    a = t.args[1]
    if a.op != "call" or not a.args[0].endswith("xml_node::attribute") or a.args[2] is not const("groups"):
        return False
    x = a.args[1]
    for n in ("multigroup", "nuclides", "minimc"):
        if x.op != "call" or not x.args[0].endswith("xml_node::child") or x.args[2] is not const(n):
            return False
        x = x.args[1]
    seen = False
    while x.op == "call" and x.args[0] in ("pugi::xml_node::root",):
        x = x.args[1]
        seen = True
    return seen and any(y is node for y in subterms(x))


def values_of(r, v, node):
    """the vector of all numbers in the text of the node, in order"""
    if v.op == "loop" and len(v.args) == 2 and v.args[0] is T("new", "std::vector"):
        b = v.args[1]
        if not (b.op == "upd" and b.args[0] in ("push_back", "emplace_back") and b.args[1] is T("acc") and b.args[2].op in ("read", "call")):
            return False
        if b.args[2].op == "call" and not contains(b.args[2], lambda x: x.op == "read"):
            return False
    elif not (v.op == "new" and v.args[0] == "std::vector" and contains(v, lambda x: x.op == "new" and "istream_iterator" in str(x.args[0]))):
        return False
    src = T("call", "pugi::xml_node::child_value", node)
    alt = T("call", "pugi::xml_text::as_string", T("call", "pugi::xml_node::text", node))
    return any(e.kind == "ext" and isinstance(e.val, T) and e.val.op == "new" and "stringstream" in e.val.args[0] and any(y is r.c(x) for y in (src, alt) for x in e.val.args[1:] if isinstance(x, T))
               for e in r.events("ext")) and one_stream(r)


def one_stream(r):
    return len({e.pos if hasattr(e, "pos") else e for e in r.events("ext") if isinstance(e.val, T) and e.val.op == "new" and "stringstream" in e.val.args[0]}) <= 1


def sized(r, v, node, n):
    """the constructor only returns when the vector has groups^n elements"""
    s = T("call", "size", v)
    for c, p in cfacts(r).items():
        if p and c.op in ("eq", "zero"):
            d = to_poly(c.args[0]) - (to_poly(c.args[1]) if c.op == "eq" else Poly())
            for sg in (1, -1):
                q = Poly.c(sg) * d
                rest = Poly.a(s) - q if contains(d.term(), lambda x: x is s) else None
                if rest is None:
                    continue
                ms = list(rest.m.items())
                if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == n and groups(ms[0][0][0][0], node):
                    return True
    return False


def vecparts(t):
    """(size, element, position) of a vector built element by element"""
    if t.op == "vec":
        return t.args
    return None


def inner(e, store):
    """the numbers of a one-dimensional table value"""
    return aggfield(e, store[ONE]) if e.op in ("agg", "ite") else None


def matrix(r, v, node, store):
    p = vecparts(v)
    if not p:
        return False, None, "is %s" % show(v)[:300]
    n, e, po = p
    x = inner(e, store)
    q = vecparts(x) if x is not None else None
    if not q:
        return False, None, "columns are %s" % show(e)[:300]
    ni, ei, pi = q
    if ei.op != "idx":
        return False, None, "entries are %s" % show(ei)[:300]
    V, i = ei.args
    want = to_poly(pi) * to_poly(n) + to_poly(po)
    ok = groups(n, node) and groups(ni, node) and values_of(r, V, node) and (to_poly(i) - want).zero()
    return ok, V, "entry %s, outer position %s, inner %s" % (show(i)[:300], show(po), show(pi))


def normalised(r, v, node, store):
    p = vecparts(v)
    if not p or not groups(p[0], node):
        return "is %s" % show(v)[:300]
    n, e, po = p
    x = inner(e, store)
    if x is None:
        return "columns are %s" % show(e)[:300]
    n_ok = 0
    for pth, l in leaves(x):
        q = vecparts(l)
        if not q or not groups(q[0], node):
            return "a column is %s" % show(l)[:300]
        ni, ei, pi = q
        # the number of the input behind the entry
        vs = [a for a in to_poly(ei).atoms() if a.op == "idx" and values_of(r, a.args[0], node)]
        if len(vs) != 1:
            return "an entry is %s" % show(ei)[:300]
        a = vs[0]
        want = to_poly(pi) * to_poly(n) + to_poly(po)
        if not (to_poly(a.args[1]) - want).zero():
            return "entry [incoming %s][outgoing %s] is number %s" % (show(po), show(pi), show(a.args[1])[:200])
        f = quotient(ei, a)
        if f is None:
            return "an entry is %s" % show(ei)[:300]
        conds = [(c, pol) for c, pol in pth]
        if f is Poly:
            # not divided: only when the sum is zero
            if not any(c.op == "zero" and pol and is_colsum(c.args[0], a.args[0], n, po, node) for c, pol in conds):
                return "a column is left as it is although its sum is not zero: %s" % [(show(c)[:800],p) for c,p in conds]
        else:
            if not is_colsum(f, a.args[0], n, po, node):
                return "entries are divided by %s" % show(f)[:300]
            n_ok += 1
            if any(not (c.op == "zero" and not pol and is_colsum(c.args[0], a.args[0], n, po, node)) and not positive(c, pol, f) for c, pol in conds):
                return "columns are only normalised when %s" % "; ".join(show(c)[:100] for c, x in conds)
    return None if n_ok else "no column is normalised"


def positive(c, pol, f):
    return c.op == "neg0" and pol and (to_poly(c.args[0]) + to_poly(f)).zero()


def quotient(e, a):
    """d if e == a/d, the class Poly if e == a"""
    if e is a:
        return Poly
    p = to_poly(e)
    if len(p.m) != 1:
        return None
    (k, v), = p.m.items()
    rest = [(x, n) for x, n in k if x is not a]
    if v != 1 or len(k) - len(rest) != 1 or dict(k)[a] != 1 or len(rest) != 1 or rest[0][1] != -1:
        return None
    return rest[0][0]


def is_colsum(t, V, n, po, node):
    """sum over all outgoing groups of the numbers of incoming group po"""
    s = summand(t)
    if s is None or s.op != "elem":
        if s is not None and s.op == "idx" and s.args[0] is V:
            p = to_poly(s.args[1]) - to_poly(po)
            cs = [a for a in p.atoms() if a.op in ("counter", "pos")]
            return len(cs) == 1 and cs[0] is not n and (p - Poly.a(cs[0]) * to_poly(n)).zero() and (cs[0].op != "counter" or groups(cs[0].args[0], node))
        return False
    q = vecparts(s.args[0])
    if not q or not groups(q[0], node):
        return False
    ni, ei, pi = q
    if ei.op != "idx" or ei.args[0] is not V:
        return False
    # the position of the incoming group inside the sum
    d = to_poly(ei.args[1]) - to_poly(pi) * to_poly(n)
    x = d.term()
    return x is po or x.op == "pos" and x is not pi


def reactions(C, o, v, node, store, where):
    """every child becomes the reaction of its name"""
    e = T("elem", node)
    nm = T("call", "pugi::xml_node::name", e)
    if not C.ob(v.op == "loop" and len(v.args) == 2, "Multigroup:reactions are made from all nodes", where, "are %s" % show(v)[:300]):
        return
    acc = T("acc")
    atoms = {x for x in subterms(v.args[1]) if x.op == "eq" and nm in x.args}
    for name in ("capture", "scatter", "fission"):
        facts = {a: any(y is const(name) for y in a.args) for a in atoms}
        l = deep_under(Canon(), v.args[1], facts)
        C.count("reactions")
        key = "Multigroup:reaction " + name
        if not C.ob(l.op == "upd" and l.args[1] is acc and str(l.args[0]).startswith("std::map::"), key + " is added", where, "gives %s" % show(l)[:300]):
            continue
        a = [y for y in l.args[2:] if y.op != "acc"]
        C.ob(a[0] is T("enum", "Reaction::" + name), key + " has the key of its name", where, "key %s" % show(a[0])[:100])
        val = a[1]
        if val.op == "new" and val.args[0] == ONE:
            val = val.args[1]
        if name == "capture":
            C.ob(val is e, key + " is read from its node", where, "is %s" % show(val)[:300])
        elif name == "fission":
            C.ob(val is child(e, "xs"), key + " is read from its node", where, "is %s" % show(val)[:300])
        else:
            x = inner(val, store) if val.op == "agg" else val
            q = vecparts(x) if x is not None else None
            ok = False
            if q:
                n, ei, pi = q
                s = summand(ei)
                col = T("fld", T("idx", T("fld", T("new", TWO, e), store[TWO]), pi), store[ONE])
                ok = s is T("elem", col) and (n.op == "call" and n.args[0] == "size" or groups(n, node))
            C.ob(ok, key + " is the sum over outgoing groups", where, "is %s" % show(val)[:300])


def who_uses(P, C, got):
    """yield in the number of secondaries, spectrum in their groups, transfer probabilities in the scattering: see the kinematics"""
    C.analysed["tables"] = got
