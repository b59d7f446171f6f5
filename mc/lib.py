"""Shared helpers for the checks."""
from .interp import Interp, facts_of, truth
from .canon import Canon, to_poly, clear, same, Poly, isnum
from .terms import T, TRUE, FALSE, BOT, const, isconst, subterms, show, contains, subst
from .names import short, last, strip_type, is_ref, is_ptr, is_const_obj, is_class_type, template_args, is_int, is_float
from . import prog as PR
from .prog import AnalysisError, targets, subclasses, is_subclass, where


def fn(P, q, pred=None):
    ks = [k for k in P.byq.get(q, ()) if pred is None or pred(P.fns[k])]
    if not ks:
        raise AnalysisError("anchor %s not found" % q)
    return ks[0]


def fns(P, q, pred=None):
    return [k for k in P.byq.get(q, ()) if pred is None or pred(P.fns[k])]


def concrete(P, base):
    """concrete classes derived from base"""
    if base not in P.recs:
        raise AnalysisError("class %s not found" % base)
    out = [c for c in sorted(subclasses(P, base)) if not P.recs[c]["abstract"]]
    return out


def virtual_impl(P, cls, base, name):
    """the function implementing base::name for objects of class cls"""
    decl = [m for m in P.recs[base]["methods"] if m["name"] == name]
    if not decl:
        raise AnalysisError("%s::%s not found" % (base, name))
    I = Interp(P)
    for d in decl:
        k = I.resolve_virtual(d["key"], cls)
        if k:
            return k
    return None


def leaves(t, path=()):
    """(path, leaf) pairs of an ordered decision tree"""
    if t.op == "ite":
        c = t.args[0]
        yield from leaves(t.args[1], path + ((c, True),))
        yield from leaves(t.args[2], path + ((c, False),))
    else:
        yield path, t


def loc(P, key):
    return "src/" + P.fns[key]["loc"]


def floc(f):
    return "src/" + f["loc"]


def nonimplicit(P):
    return {k: f for k, f in P.fns.items() if not f["implicit"] and not f["defaulted"]}


def callgraph(P):
    """key -> set of callee keys (direct, virtual overriders, constructors, closures created or named)"""
    if hasattr(P, "_cg"):
        return P._cg
    cg = {}
    for k, f in P.fns.items():
        s = set()
        for n in f["nodes"].values():
            for t in targets(P, n):
                s.add(t)
            if n["k"] == "LambdaExpr":
                s |= set(P.lam.get(n["cls"], ()))
            if n["k"] == "DeclRefExpr" and n.get("fn") in P.fns:
                s.add(n["fn"])
            # objects built in place by the library
            q = short(n.get("q", ""))
            if q in ("std::make_shared", "std::make_unique", "std::make_optional") or last(q) in ("emplace_back", "emplace", "push_back", "emplace_front") :
                s |= made_ctors(P, f, n)
        for b in f["blocks"]:
            for e in b["el"]:
                if "dtor" in e:
                    c = strip_type(e["t"])
                    if c in P.recs:
                        for m in P.recs[c]["methods"]:
                            if m["name"].startswith("~") and m["key"] in P.fns:
                                s.add(m["key"])
        cg[k] = s
    P._cg = cg
    return cg


def made_ctors(P, f, n):
    """constructors a library call that builds an object in place may run"""
    out = set()
    q = last(short(n.get("q", "")))
    if "pt" not in n:
        return out
    args = n["pt"]
    for c in made_classes(P, n):
        for m in P.recs[c]["methods"]:
            if not m["ctor"] or m["key"] not in P.fns:
                continue
            g = P.fns[m["key"]]
            ps = g["params"]
            own = g.get("copyctor") or g.get("movector")
            if len(args) == 1 and is_subclass(P, strip_type(args[0]), c):
                ok = bool(own)
            elif q in ("emplace",):
                ok = True
            else:
                ok = not own and len(ps) == len(args)
            if ok:
                out.add(m["key"])
    return out


def made_classes(P, n):
    """project classes constructed inside a library call (make_shared<T>, emplace_back)"""
    out = set()
    q = short(n.get("q", ""))
    if q in ("std::make_shared", "std::make_unique", "std::make_optional"):
        ta = template_args(n.get("t", ""))
        if ta:
            out.add(strip_type(ta[0]))
    else:
        for a in template_args(n.get("cls", "")):
            out.add(strip_type(a))
    return {c for c in out if c in P.recs}


def reach(P, roots):
    cg = callgraph(P)
    seen, todo = set(), list(roots)
    par = {}
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for c in cg.get(k, ()):
            if c not in seen:
                par.setdefault(c, k)
                todo.append(c)
    return seen, par


def chain(P, par, k, n=6):
    out = [P.fns[k]["q"]]
    while k in par and len(out) < n:
        k = par[k]
        out.append(P.fns[k]["q"])
    return " <- ".join(short(x) for x in out)


def flat(t, skip=lambda x: False):
    """items of a written text: ('lit', s) | ('val', term) | ('loop', [items])
    t is a canonical string or stream content"""
    out = []
    _flat(t, out)
    # merge literals
    r = []
    for k in out:
        if k[0] == "lit" and r and r[-1][0] == "lit":
            r[-1] = ("lit", r[-1][1] + k[1])
        else:
            r.append(k)
    return r


def _flat(t, out):
    if t.op == "cat":
        _flat(t.args[0], out)
        _flat(t.args[1], out)
    elif t.op == "call" and t.args[0] in ("str",) and len(t.args) == 2:
        _flat(t.args[1], out)
    elif t.op == "new" and t.args and t.args[0] in ("stream", "std::basic_string", "std::basic_stringstream", "std::basic_ostringstream"):
        if t.args[0] == "std::basic_string" and len(t.args) > 2 and isconst(t.args[2]) and isinstance(t.args[2].args[0], str):
            out.append(("fill", t.args[1], t.args[2].args[0]))
            return
        for x in t.args[1:]:
            if isinstance(x, T) and x.op in ("cat", "const"):
                _flat(x, out)
            elif isinstance(x, T):
                out.append(("val", x))
    elif t.op == "loop":
        _flat(t.args[0], out)
        body = []
        for b in t.args[1:]:
            x = []
            _flat(b, x)
            x = flatmerge(x)
            y = strip_acc(x)
            if y is None:
                # what was written before is lost or moved
                body = None
                break
            body.append(y)
        if body is None:
            out.append(("val", T("last", *t.args[1:])))
            return
        if len(body) == 1:
            out.append(("loop", body[0]))
        else:
            out.append(("alt", body))
    elif t.op == "acc":
        out.append(("acc",))
    elif t.op == "const":
        if isinstance(t.args[0], str):
            if t.args[0]:
                out.append(("lit", t.args[0]))
        elif t.args[0] is not None:
            out.append(("val", t))
    elif t.op == "fnref":
        pass          # manipulators
    elif t.op == "ite":
        a, b = [], []
        _flat(t.args[1], a)
        _flat(t.args[2], b)
        out.append(("ite", t.args[0], flatmerge(a), flatmerge(b)))
    else:
        out.append(("val", t))


def flatmerge(x):
    r = []
    for k in x:
        if k[0] == "lit" and r and r[-1][0] == "lit":
            r[-1] = ("lit", r[-1][1] + k[1])
        else:
            r.append(k)
    return r


def strip_acc(items):
    """items written by one iteration, after what was written before; None if that is not kept in front"""
    if not items:
        return None
    if items[0] == ("acc",):
        r = items[1:]
    elif items[0][0] == "ite":
        a, b = strip_acc(items[0][2]), strip_acc(items[0][3])
        if a is None or b is None:
            return None
        r = [("ite", items[0][1], a, b)] + items[1:]
    else:
        return None
    return None if any(("acc",) in inner(x) for x in r) else r


def inner(it):
    out = [it]
    for x in it[1:]:
        if isinstance(x, list):
            for y in x:
                out += inner(y) if isinstance(y, tuple) else [z for w in y for z in inner(w)]
    return out


def par(t, conts):
    """members of containers of equal length at the same position: idx(b, iter(c)) is elem(b)"""
    conts = set(conts)
    m = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x.op == "idx" and isinstance(x.args[1], T) and x.args[1].op == "iter" and x.args[1].args[0] in conts and x.args[0] in conts:
            r = T("elem", x.args[0])
        else:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else T(x.op, *na)
        m[x] = r
        return r
    return renorm(go(t))


def renorm(t):
    """rebuild polynomial keys after a substitution inside atoms"""
    m = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x in m:
            return m[x]
        if x.op in ("P", "poly"):
            p = Poly()
            for k, v in x.args[0]:
                q = Poly({(): v})
                for a, e in k:
                    b = go(a)
                    q = q * (to_poly(b).pow(e) if a.op != "poly" else unpoly_(b).pow(e))
                p = p + q
            if x.op == "P":
                r = p.term()
            else:
                r = T("poly", p.key())
        else:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else T(x.op, *na)
        m[x] = r
        return r
    return go(t)


def unpoly_(a):
    from .canon import unpoly
    return unpoly(a)


def aggfield(v, *path):
    """member of an object value known member by member"""
    if v.op == "agg":
        for p, x in v.args[1]:
            if p == tuple(path):
                return x
    if v.op == "ite":
        a, b = aggfield(v.args[1], *path), aggfield(v.args[2], *path)
        if a is not None and b is not None:
            return a if a is b else Canon().mk(v.args[0], a, b)
    return None
