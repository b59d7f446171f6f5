"""Multi-dimensional tables."""
from ..spec import *
from ..unroll import Unrolled
from ..lib import renorm, flat

RULE = ("for tables of one to four dimensions, whose control flow is fixed at compile time: loops, library algorithms and recursion over "
        "the axes are followed element by element; the constructor must read axis i from level i and all values of the value block, the "
        "index of a value must be the row-major polynomial of the axis indices (sum over axes of index times the sizes of all later axes), "
        "no index within its axis may be refused, and the nested table built from it must map the keys of each axis to that value")
MINIMUM = 20


def h5(P, k):
    """k reads the file, itself or through what it calls"""
    if not hasattr(P, "_h5"):
        P._h5 = {x for x in P.fns if any("H5::" in str(n.get("q", "")) for n in P.fns[x]["nodes"].values())}
        cg = callgraph(P)
        while True:
            more = {x for x in cg if x not in P._h5 and set(cg[x]) & P._h5}
            if not more:
                break
            P._h5 |= more
    return k in P._h5


def run(P, C):
    W = PR.load(witness=("tables",))
    W.repo = P.repo
    seen = 0
    for cls in sorted(c for c in W.recs if short(c) == "HDF5DataSet"):
        D = int(template_args(cls)[0].rstrip("UL"))
        fns_ = [k for k in W.fns if W.fns[k].get("cls") == cls]
        named = lambda n: [k for k in fns_ if last(short(W.fns[k]["q"])) == n]
        cs = [k for k in fns_ if W.fns[k]["ctor"] and W.fns[k]["params"] and not W.fns[k]["implicit"] and not W.fns[k].get("copyctor") and not W.fns[k].get("movector")]
        if len(cs) != 1:
            raise AnalysisError("constructor of %s not found" % cls)
        seen += 1
        C.count("dimensions")
        th = T("this")
        # what the constructor stores
        r = Run(W, cs[0], inline=lambda k, f: True, interp=Unrolled)
        arr, flat_, calc = [], [], {}
        for f in W.recs[cls]["fields"]:
            v = r.final(T("fld", th, f["name"]))
            rd = [v] if v.op == "h5read" else [x for p, x in v.args[1] if x.op == "h5read"] if v.op == "agg" else []
            if rd and v.op == "agg":
                arr.append(f["name"])
                axis(C, W, cs[0], cls, D, v)
            elif rd:
                flat_.append(f["name"])
                ok = whole(v) and "block0_values" in show(v.args[0])
                C.ob(ok, "%s: all values are read" % cls, loc(W, cs[0]), "values are %s" % show(v)[:300])
            else:
                calc[f["name"]] = None
        if len(arr) != 1 or len(flat_) != 1:
            C.ob(False, "%s: axes and values are read from the file" % cls, loc(W, cs[0]), "members read from the file: %s" % ", ".join(arr + flat_))
            continue
        axes, values = T("fld", th, arr[0]), T("fld", th, flat_[0])
        size = lambda j: T("call", "size", T("idx", axes, const(j)))
        # derived members, in terms of the axes: the constructor is run again with the file contents left opaque
        r2 = Run(W, cs[0], inline=lambda k, f: not h5(W, k), interp=Unrolled)
        ax = r2.final(axes)
        env = {}
        for n in calc:
            v = r2.final(T("fld", th, n))
            v = renorm(subst(v, {ax: axes}))
            env[n] = v

        def resolve(t):
            """members computed by the constructor replaced by their values"""
            m = {}
            for x in subterms(t):
                if x.op == "idx" and x.args[0].op == "fld" and x.args[0].args[0] is th and x.args[0].args[1] in env and isconst(x.args[1]):
                    v = element(env[x.args[0].args[1]], x.args[1])
                    if v is not None:
                        m[x] = v
                if x.op == "fld" and x.args[0] is th and x.args[1] in env:
                    m.setdefault(x, env[x.args[1]])
            return renorm(subst(t, m))

        def rowmajor(ix):
            p = Poly()
            for j in range(D):
                q = to_poly(ix[j])
                for l in range(j + 1, D):
                    q = q * to_poly(size(l))
                p = p + q
            return p
        # the element of given indices
        ats = [k for k in named("at") if len(W.fns[k]["params"]) == D]
        if not ats:
            raise AnalysisError("%s::at not found" % cls)
        k = ats[0]
        r = Run(W, k, this=th, inline=lambda k, f: True, interp=Unrolled)
        ix = [T("var", p["name"], "param", j) for j, p in enumerate(W.fns[k]["params"])]
        v = resolve(r.value)
        good = v.op == "idx" and v.args[0] is values and clear(to_poly(v.args[1]) - rowmajor(ix)).zero()
        C.ob(good, "%s: row-major element" % cls, loc(W, k), "the element of indices (%s) is %s" % (", ".join(map(show, ix)), show(v)[:400]))
        for e in r.events("throw"):
            out = False
            for a, pol in cfacts(r, e.facts).items():
                for j in range(D):
                    if a.op == "neg0" and not pol and clear(to_poly(a.args[0]) - (to_poly(ix[j]) - to_poly(size(j)))).zero():
                        out = True
                    if a.op == "neg0" and pol and clear(to_poly(a.args[0]) - (to_poly(size(j)) - to_poly(ix[j]) - Poly.c(1))).zero():
                        out = True
            C.ob(out, "%s: indices within the axes are accepted" % cls, r.loc(e), "thrown although no index is known to be outside its axis")
        # the nested table
        ks = [k for k in named("ToContinuousMap") if not W.fns[k]["params"]]
        if not ks:
            raise AnalysisError("%s::ToContinuousMap not found" % cls)
        k = ks[0]
        r = Run(W, k, this=th, inline=lambda k, f: True, interp=Unrolled)
        t = r.value
        its = []
        where = loc(W, k)
        ok = True
        for l in range(D):
            what = "%s: keys of level %d of the nested table" % (cls, l)
            got = entries(t)
            A = T("idx", axes, const(l))
            if got is None or got[0] is not A:
                C.ob(False, what, where, "level %d is %s" % (l, show(t)[:300]))
                ok = False
                break
            C.ob(True, what, where)
            its.append(T("iter", A))
            t = got[1]
        if ok:
            v = resolve(r.c(t))
            good = v.op == "idx" and v.args[0] is values and clear(to_poly(v.args[1]) - rowmajor(its)).zero()
            C.ob(good, "%s: values of the nested table" % cls, where, "value at keys %s is %s" % (", ".join(map(show, its)), show(v)[:400]))
    if seen < 4:
        raise AnalysisError("tables of dimension 1 to 4 not found")


def whole(v):
    """a read from the start of a buffer sized by the data set's number of points"""
    if v.op != "h5read" or not isconst(v.args[2], 0):
        return False
    for x in subterms(v.args[1]):
        if x.op == "call" and last(x.args[0]) in ("getSimpleExtentNpoints",):
            if any(y is v.args[0] for y in subterms(x)):
                return True
    return False


def axis(C, W, k, cls, D, v):
    for j in range(D):
        e = element(v, const(j))
        ok = e is not None and whole(e)
        if ok:
            ds = e.args[0]
            nm = [x for x in ds.args if isinstance(x, T)] if ds.op == "call" and last(ds.args[0]) == "openDataSet" else []
            ok = any(flat_text(x) == "axis1_level%d" % j for x in nm)
        C.ob(ok, "%s: axis %d is read from level %d" % (cls, j, j), loc(W, k), "axis %d is %s" % (j, show(e)[:300] if e is not None else "not set"))


def flat_text(t):
    out = ""
    for it in flat(t):
        if it[0] == "lit":
            out += it[1]
        elif it[0] == "val":
            v = it[1].args[1] if it[1].op == "call" and last(it[1].args[0]) == "to_string" else it[1]
            if not isconst(v):
                return None
            out += str(v.args[0])
        else:
            return None
    return out


def element(v, i):
    """element i of an array value"""
    if v.op == "agg":
        for p, x in v.args[1]:
            if len(p) == 1 and isinstance(p[0], T) and p[0].op == "ix" and p[0].args[0] is i:
                return x
    return None


def entries(t):
    """(container of keys, value at each key) of a table filled by one loop over its keys"""
    if t.op != "agg":
        return None
    for p, x in t.args[1]:
        if isinstance(p[-1], T) and p[-1].op == "ix" and x.op == "loop":
            k = p[-1].args[0]
            if k.op == "elem" and len(x.args) == 2:
                return k.args[0], x.args[1]
    return None
