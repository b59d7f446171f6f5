"""Which members a function may change, by name, callees included (an over-approximation read off the syntax tree)."""
from .names import last, strip_type, is_const_obj

CASTS = ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr")


def parents(f):
    if "_par" not in f:
        par = {}
        for i, n in f["nodes"].items():
            for o in n["ops"]:
                if o is not None:
                    par.setdefault(o, []).append(i)
        f["_par"] = par
    return f["_par"]


def written(f, i):
    """an lvalue node may be used to change the object"""
    n = f["nodes"][i]
    if n.get("t", "").startswith("const ") and not n.get("t", "").rstrip().endswith("*"):
        return False
    ps = parents(f).get(i, ())
    if not ps:
        return True
    for p in ps:
        m = f["nodes"][p]
        k = m["k"]
        if k in CASTS:
            if m.get("ck") == "LValueToRValue":
                continue
            if m.get("t", "").startswith("const ") or not m.get("lv") and m.get("ck") not in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", None):
                continue
            if written(f, p):
                return True
        elif k == "MemberExpr":
            if m.get("field"):
                if written(f, p):
                    return True
            else:
                # a method of it: see the call
                if any(not f["nodes"][c].get("cmeth") for c in parents(f).get(p, (p,))):
                    return True
        elif k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and "cmeth" in m and m["ops"] and m["ops"][0] == i:
            if not m["cmeth"]:
                return True
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
            off = 1 if "cmeth" in m and k != "CallExpr" else 0
            pts = m.get("pt") or []
            j = m["ops"].index(i) - off
            if not (0 <= j < len(pts)):
                return True
            t = pts[j]
            if t.rstrip().endswith("&") and not is_const_obj(t):
                return True
        elif k == "BinaryOperator" and m.get("op") in ("<", ">", "<=", ">=", "==", "!=", "+", "-", "*", "/", "&&", "||"):
            continue
        else:
            return True
    return False


def local_mods(P, key):
    f = P.fns[key]
    if "_mods" in f:
        return f["_mods"]
    out = set()
    for i, n in f["nodes"].items():
        if n["k"] == "MemberExpr" and n.get("field") and written(f, i):
            out.add(last(n["field"]))
        if n["k"] == "UnaryOperator" and n.get("lv") and n["ops"] and f["nodes"][n["ops"][0]]["k"] == "CXXThisExpr":
            if not is_const_obj(n.get("t", "")) and written(f, i) and not returned(f, i):
                out.add("*")
        if n["k"] == "DeclRefExpr" and "var" in n and n.get("lv") and strip_type(n.get("t", "")) in P.recs and assigned(f, i):
            out.add("*")
    if f.get("copyctor") or f.get("movector"):
        pass
    f["_mods"] = out
    return out


def returned(f, i):
    return all(f["nodes"][p]["k"] in ("ReturnStmt",) for p in parents(f).get(i, ()) or (i,)) and bool(parents(f).get(i))


def assigned(f, i):
    """a whole object is assigned to"""
    for p in parents(f).get(i, ()):
        m = f["nodes"][p]
        if m["k"] == "CXXOperatorCallExpr" and last(m.get("q", "")) == "operator=" and m["ops"] and m["ops"][0] == i:
            return True
    return False


def modfields(P, q):
    """names of members functions called q may change; None if any"""
    if not hasattr(P, "_modf"):
        P._modf = {}
    if q not in P._modf:
        from .lib import reach
        ks = list(P.byq.get(q, ()))
        todo = list(ks)
        while todo:
            k = todo.pop()
            for o in P.over.get(k, ()):
                if o not in ks:
                    ks.append(o)
                    todo.append(o)
        if not ks:
            P._modf[q] = None
        else:
            seen, par = reach(P, ks)
            out = set()
            for k in seen:
                out |= local_mods(P, k)
            P._modf[q] = None if "*" in out else frozenset(out)
    return P._modf[q]


RESIZE = {"push_back", "emplace_back", "pop_back", "resize", "clear", "erase", "insert", "emplace", "assign", "swap", "operator="}


def samesize(P, name):
    """the representative of the vector members of a class that always have the same number of elements as this one"""
    if not hasattr(P, "_same"):
        P._same = {}
        owner = {}
        for c, r in P.recs.items():
            for f in r["fields"]:
                owner.setdefault(f["name"], []).append((c, f["t"]))
        byc = {}
        for n, o in owner.items():
            if len(o) == 1 and strip_type(o[0][1]).startswith("std::vector"):
                byc.setdefault(o[0][0], []).append(n)
        for c, ns in byc.items():
            if len(ns) > 1:
                group(P, c, sorted(ns))
    return P._same.get(name, name)


def group(P, c, ns):
    for key, f in P.fns.items():
        for i, n in f["nodes"].items():
            if n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and last(n.get("q", "")) in RESIZE and n["ops"]:
                m = f["nodes"].get(n["ops"][0])
                while m is not None and m["k"] in ("ImplicitCastExpr", "ParenExpr", "MemberExpr") and not m.get("field") and m["ops"]:
                    m = f["nodes"].get(m["ops"][0])
                if m is not None and m.get("field") and last(m["field"]) in ns:
                    ns = [x for x in ns if x != last(m["field"])]
    # the number of elements each constructor gives them
    from .spec import Obj
    from .canon import Canon
    sizes = {n: [] for n in ns}
    if len(ns) < 2:
        return
    for m in P.recs[c]["methods"]:
        f = P.fns.get(m["key"])
        if not f or not f.get("ctor") or f.get("copyctor") or f.get("movector"):
            continue
        o = Obj(P, m["key"], inline=lambda k2, f2: False)
        for n in ns:
            sizes[n].append(Canon().size(o.field(n)))
    by = {}
    for n in ns:
        if sizes[n]:
            by.setdefault(tuple(sizes[n]), []).append(n)
    for g in by.values():
        for n in g:
            P._same[n] = g[0]


def lenrep(P, c):
    """the container that stands for all containers with the same number of elements"""
    if P is not None and c.op == "fld" and isinstance(c.args[1], str):
        n = samesize(P, c.args[1])
        if n != c.args[1]:
            from .terms import T
            return T("fld", c.args[0], n)
    return c
