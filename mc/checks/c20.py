"""Interpolated tables."""
from ..spec import *
from ..tables import Model, Outside, Unknown, ranks, key, val

RULE = ("value numbering of the table lookup; the resulting decision tree is evaluated on every order type of a key against a table of one to "
        "four entries (below, at each entry, between each pair, above): the value must be the first entry, the entry, the linear "
        "interpolation of the two neighbours, the last entry, and no entry outside the table may be read; the table is a container sorted "
        "by key in ascending order")
MINIMUM = 20


def run(P, C):
    ks = [k for k in P.fns if short(P.fns[k]["q"]) == "ContinuousMap::at"]
    if not ks:
        raise AnalysisError("no instantiation of ContinuousMap::at found")
    for key_ in ks:
        f = P.fns[key_]
        where = loc(P, key_)
        cls = f["cls"]
        flds = [x for x in P.recs[cls]["fields"] if short(strip_type(x["t"])) in ("std::map",)]
        other = [x for x in P.recs[cls]["fields"] if x not in flds]
        if len(flds) != 1:
            raise AnalysisError("%s: the table is not a single std::map" % cls)
        args = template_args(strip_type(flds[0]["t"]))
        C.ob(len(args) == 2 or short(args[2]) == "std::less", "%s: entries sorted by ascending key" % cls, where, "the table's order is %s" % args[2:3])
        if len(f["params"]) != 1:
            nested(P, C, key_)
            continue
        C.count("lookup functions")
        th = T("this")
        k = T("var", f["params"][0]["name"], "param", 0)
        r = Run(P, key_, this=th)
        table = T("fld", th, flds[0]["name"])
        is_table = lambda t: t is table or (t.op == "at_place" and t.args[0] is table)
        C.ob(not any(e.facts is not None for e in r.events("throw")), "%s: every key has a value" % cls, where, "some keys are refused")
        w = r.value
        for n in (1, 2, 3, 4):
            for rank in ranks(n):
                C.count("order types")
                M = Model(n, rank, k, is_table)
                what = ("below the first" if rank < 0 else "above the last" if rank > n - 1 else
                        "equal to entry %d" % rank if rank == int(rank) else "between entries %d and %d" % (rank - .5, rank + .5)) + " of %d" % n
                if rank < 0:
                    want = val(0)
                elif rank > n - 1:
                    want = val(n - 1)
                elif rank == int(rank):
                    want = val(int(rank))
                else:
                    i, j = int(rank - .5), int(rank + .5)
                    want = raw("v0 + (v1 - v0) * (k - k0) / (k1 - k0)", v0=val(i), v1=val(j), k=k, k0=key(i), k1=key(j))
                try:
                    g = M.go(w)
                except Outside as e:
                    C.ob(False, "%s: key %s entries" % (cls, what), where, "reads an entry outside the table: %s" % e)
                    continue
                except Unknown as e:
                    C.ob(False, "%s: key %s entries" % (cls, what), where, "the value depends on %s" % e)
                    continue
                want = Canon()(want)
                C.ob(clear(to_poly(g) - to_poly(want)).zero(), "%s: key %s entries" % (cls, what), where, "value is %s instead of %s" % (show(g), show(want)))


def nested(P, C, key_):
    raise AnalysisError("lookup in nested tables is instantiated but not analysed")
