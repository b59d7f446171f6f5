"""Schema and program agree on the input document."""
import itertools, os, re
from ..spec import *
from ..docs import *
from .. import prog as PR
from .c01 import owner_of

RULE = ("the schema (minimc.xsd and what it includes) is parsed into a tree of places; every function that reads the document is evaluated in every place it is called with "
        "(the node variables of callers bound to element paths, string comparisons with element names and enumerated values decided, contradictory branches dropped). "
        "Demanded: every element and attribute that is read is declared in at least one of the places the read happens at and character data are read only where they are declared; for every choice "
        "(of an element, of an enumerated value, of an optional attribute) that the program branches on, each alternative makes an object or throws, two alternatives never make the same object, and "
        "exchanging alternatives never fits their names better than what is made; strings turned into enumerators likewise; and every choice of the schema is told apart somewhere. With and without NDEBUG")
MINIMUM = 120

READS = {"child", "attribute", "find_child_by_attribute", "select_node", "child_value", "text"}


def lcs(a, b):
    """longest common substring"""
    best = 0
    t = [0] * (len(b) + 1)
    for x in a:
        n = [0] * (len(b) + 1)
        for j, y in enumerate(b):
            if x == y:
                n[j + 1] = t[j] + 1
                best = max(best, n[j + 1])
        t = n
    return best


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def affine(pairs):
    """pairs (alternative, outcome name): a better fitting exchange, or None"""
    n = len(pairs)
    if not 2 <= n <= 6:
        return None
    sc = [[lcs(norm(a), norm(last(o))) / max(len(norm(a)), 1) * 2 - abs(len(norm(a)) - len(norm(last(o)))) * 0.001 for _, o in pairs] for a, _ in pairs]
    own = sum(sc[i][i] for i in range(n))
    for p in itertools.permutations(range(n)):
        if sum(sc[i][p[i]] for i in range(n)) > own + 0.3:
            return [(pairs[i][0], pairs[p[i]][1]) for i in range(n) if p[i] != i]
    return None


def better(alt, made, others):
    """another class or enumerator that the alternative is named after"""
    a = norm(alt)
    if len(a) < 4 or made == "throw" or lcs(a, norm(last(made))) >= 0.5 * len(a):
        return None
    for o in sorted(others):
        if lcs(a, norm(last(o))) >= 0.75 * len(a):
            return last(o)
    return None


def bases(P, q):
    out = []
    for n, r in P.recs.items():
        if short(strip_type(n)) == q:
            for b in r.get("bases") or ():
                b = b if isinstance(b, str) else b.get("q") or b.get("t")
                if not str(b).startswith("std::"):
                    out.append(short(strip_type(str(b))))
    return out


def siblings(P, made):
    q = short(strip_type(str(made)))
    mine = set(bases(P, q))
    return {short(strip_type(n)) for n in P.recs if mine & set(bases(P, short(strip_type(n))))} - {q}


def label(v):
    if v is None:
        return "nothing"
    if isinstance(v, tuple):
        return v[-1] if v else "the document"
    return str(v)


def classes(P):
    """classes that take part in a hierarchy of the project"""
    out = set()
    for q, r in P.recs.items():
        for b in r.get("bases") or ():
            b = b if isinstance(b, str) else b.get("q") or b.get("t")
            if not str(b).startswith("std::"):
                out.add(short(strip_type(q)))
                out.add(short(strip_type(str(b))))
    return out


def examine(P, C):
    D = Reader(P).start()
    S = D.S
    for k, why in D.incomplete:
        if k in P.fns:
            raise AnalysisError("C02: %s: %s" % (P.fns[k]["q"], why))
    C.count("places declared by the schema", len(S.at))
    C.count("functions in a place", len(D.seen))
    hier = classes(P)
    # -- reads ----------------------------------------------------------------
    sites = {}
    for (k, ctx, r, e, facts, this, args, envs) in D.visits:
        if e.kind != "ext" or not (e.name or "").startswith("pugi::") or last(e.name) not in READS:
            continue
        f = last(e.name)
        n = e.node or {}
        key = (k, n.get("id"), n.get("line") or n.get("loc"), f, str(args[0]) if args else "")
        s = sites.setdefault(key, dict(loc=None, ok=False, places=set(), name=None, n=0, e=e, unknown=False))
        for env in envs:
            E = Eval(S, env)
            try:
                p = E.node(this)
            except Need:
                continue
            except Infeasible:
                continue
            s["n"] += 1
            if p is ANY:
                s["unknown"] = True
                continue
            if p is None:
                continue
            el = S.at.get(p)
            if f in ("child_value", "text"):
                q = p
                if f == "child_value" and args:
                    x = E.string(args[0])
                    s["name"] = x
                    q = p + (x,) if x is not None else p
                s["places"].add("/".join(p) or "document")
                el = S.at.get(q)
                if el is not None and el.text:
                    s["ok"] = True
                continue
            x = E.string(args[0]) if args else None
            if x is None:
                s["unknown"] = True
                continue
            s["name"] = x
            s["places"].add("/".join(p) or "document")
            if f == "attribute":
                s["ok"] |= el is not None and x in el.attrs
            elif f == "child":
                s["ok"] |= p == DOC and x == S.root.name or el is not None and x in el.kids
            elif f == "find_child_by_attribute":
                ks = [kk for kk, _ in el.kids.values()] if el is not None else []
                if len(args) >= 3:
                    a = E.string(args[1])
                    ks = [kk for kk in ks if kk.name == x]
                else:
                    a = x
                s["ok"] |= any(a in kk.attrs for kk in ks)
            elif f == "select_node":
                try:
                    s["ok"] |= E.node(T("call", e.name, this, *args)) is not None
                except Need:
                    s["ok"] = True
    nsite = {}
    for (k, nid, line, f, a), s in sorted(sites.items(), key=str):
        own = name(P, k)
        key = "%s of %s read in %s" % ("the text" if s["name"] is None else "'%s'" % s["name"], f, own)
        if s["unknown"] and not s["ok"]:
            continue
        if s["n"] == 0 or not s["places"]:
            continue
        C.ob(s["ok"], key, where(P.fns[k], s["e"].node) if s["e"].node else loc(P, k),
             ("declared in " if s["ok"] else "no document can contain this: not declared in ") + ", ".join(sorted(s["places"])[:4]))
    # -- choices ------------------------------------------------------------
    told = {}      # place of the choice -> pairs of alternatives told apart
    groups = {}
    for v in D.visits:
        groups.setdefault(v[0], {}).setdefault(frozenset(v[1].items()), []).append(v)
    for k, byctx in sorted(groups.items()):
        f = P.fns[k]
        own = name(P, k)
        params = set()
        table, every, fuzzy, asked = [], [], set(), set()
        conds = {}
        makes, rejects = [], []
        for cx in sorted(byctx, key=str):
            ctx = dict(cx)
            if any(v is None for v in ctx.values()):
                continue
            vs = byctx[cx]
            params |= set(ctx)
            for v in vs:
                if v[3].kind == "enter" and any(string_enum(P, P.fns[t]) for t in enter_keys(P, v[3])):
                    strings(P, C, D, v, own, told)
            makes = [v for v in vs if v[3].kind == "make" and short(strip_type(str(v[3].name).split("<")[0])) in hier]
            rejects = [v for v in vs if v[3].kind == "throw"]
            given = [v for v in vs if v[3].kind == "call" and not v[3].name.endswith("operator->") and any("_ptr<" in (P.fns[t].get("ret") or "") for t in D.callees(v[3]))]
            # what the conditions tell apart, one condition at a time
            for v in vs:
                for c in v[4]:
                    conds.setdefault(c, set()).add(cx)
            if not makes:
                continue
            ev = makes + rejects
            cs = {c for v in ev + given for c in v[4]}

            def goal(E):
                for c in cs:
                    quiet(E, c)
                for v in makes:
                    for a in v[6]:
                        if isinstance(a, T) and not D_node(D, ctx, a):
                            quiet(E, a)
            envs = assignments(S, ctx, [goal])
            if envs is None:
                raise AnalysisError("C02: too many places in " + f["q"])
            for env in assignments(S, ctx, [lambda E: ([quiet(E, c) for c in cs], True)[1]]) or ():
                asked |= set(env)
            for env in envs:
                E = Eval(S, env)
                out, handed = set(), False
                for v in ev + given:
                    if D.consistent(v[4])(E) is False:
                        continue
                    if any(vague(E, c) for c in v[4]):
                        fuzzy.add(key_of(env))
                    if v[3].kind == "throw":
                        out.add(("throw",))
                    elif v[3].kind == "call":
                        handed = True
                    else:
                        vals = []
                        for a in v[6]:
                            if isinstance(a, T) and not D_node(D, ctx, a):
                                x = quiet(E, a)
                                vals.append(str(a) if x is None else str(x))
                        out.add((str(v[3].name),) + tuple(vals))
                table.append((env, frozenset(out)))
                every.append((env, frozenset(out), handed, frozenset(ctx)))
        for c in conds:
            for cx in conds[c]:
                separate(D, dict(cx), c, told)
        acrosscontexts(D, conds, byctx, told)
        if "unique_ptr" in (f.get("ret") or ""):
            for env, out, handed, base in every:
                what = ", ".join(sorted("%s" % label(y) for x, y in env.items() if x not in base or len(y or ()) > 2 if y is not None)) or "the only alternative"
                C.ob(bool(out) or handed, "%s makes or rejects (%s)" % (own, what), loc(P, k), "gives " + show_out(out))
        keys = {x for env, _ in table for x in env}
        for key in sorted(keys, key=lambda t: t.uid):
            # rows that agree on everything else
            rest = {}
            for env, out in table:
                if key in env:
                    w = env[key]
                    up = w[:-1] if key in params and isinstance(w, tuple) else None
                    if key_of(env) in fuzzy:
                        continue
                    rest.setdefault((up, frozenset((x, str(y)) for x, y in env.items() if x != key)), {})[w] = out
            for _, d in sorted(rest.items(), key=str):
                real = [a for a in d if a is not None and a is not False and a is not True and a != ""]
                for a in real:
                    for o in d[a]:
                        x = better(label(a), o[0], siblings(P, o[0]))
                        if o[0] != "throw":
                            C.ob(x is None, "'%s' in %s is not taken for something else" % (label(a), own), loc(P, k), "makes " + last(o[0]) + ("" if x is None else " although there is " + x))
                if len(real) > 1 and key in asked and key not in params and len({d[a] for a in real}) == 1 and all(d[a] and ("throw",) not in d[a] for a in real):
                    C.ob(False, "'%s' in %s" % ("', '".join(sorted(label(a) for a in real)), own), loc(P, k), "the program asks which one it is and then makes %s for each" % show_out(d[real[0]]))
                if len(real) < 2 or len({d[a] for a in real}) < 2:
                    continue
                # the program does branch on this choice
                seen, pairs = {}, []
                for a in real:
                    nm = "'%s' in %s" % (label(a), own)
                    made = frozenset(o for o in d[a] if o[0] != "throw")
                    C.ob(bool(d[a]), nm + " is made or rejected", loc(P, k), "gives " + show_out(d[a]))
                    if made:
                        C.ob(made not in seen, nm + " is told apart", loc(P, k), "makes %s%s" % (show_out(d[a]), "" if made not in seen else ", the same as '%s'" % label(seen[made])))
                        seen.setdefault(made, a)
                    if len(made) == 1:
                        pairs.append((label(a), next(iter(made))[0]))
                b = affine(pairs)
                C.ob(b is None, "alternatives %s in %s" % (", ".join(sorted(label(a) for a in real)), own), loc(P, k),
                     "each makes what its name says" if b is None else "the names fit better the other way round: " + ", ".join("%s with %s" % x for x in b))
    # -- every choice is told apart somewhere ----------------------------------
    for p, el in sorted(S.at.items()):
        for names in el.choices:
            if len(names) < 2:
                continue
            same = [(a, b) for a, b in itertools.combinations(sorted(names), 2) if frozenset((a, b)) not in told.get(p, set())]
            C.ob(not same, "choice of %s" % ", ".join(sorted(names)) + " in " + "/".join(p[-3:]), os.path.relpath(S.files[0], P.repo),
                 "told apart by the program" if not same else "the program never tells apart " + ", ".join("%s and %s" % x for x in same))
    C.count("choices of the schema", sum(1 for e in S.at.values() for n in e.choices if len(n) > 1))


def name(P, k):
    return owner_of(P, k) if P.fns[k].get("lambda") else short(P.fns[k]["q"])


def tell(told, w1, w2):
    if isinstance(w1, tuple) and isinstance(w2, tuple) and w1 and w2 and len(w1) == len(w2):
        diff = [i for i in range(len(w1)) if w1[i] != w2[i]]
        if len(diff) == 1:
            i = diff[0]
            told.setdefault(w1[:i], set()).add(frozenset((w1[i], w2[i])))


def separate(D, ctx, c, told):
    """alternatives of a place that a condition tells apart"""
    envs = assignments(D.S, ctx, [lambda E: (quiet(E, c), True)[1]])
    rows = []
    for env in envs or ():
        E = Eval(D.S, env)
        v = quiet(E, c)
        if v is not None:
            rows.append((env, bool(v)))
        elif vague(E, c):
            rows.append((env, len(rows) + 2))
    for (e1, v1), (e2, v2) in itertools.combinations(rows, 2):
        if v1 != v2:
            ks = [x for x in set(e1) | set(e2) if e1.get(x, 0) != e2.get(x, 0)]
            for x in ks:
                if x in e1 and x in e2:
                    tell(told, e1[x], e2[x])


def acrosscontexts(D, conds, byctx, told):
    """the same for the place a function was called with"""
    ctxs = [dict(c) for c in byctx if not any(v is None for v in dict(c).values())]
    val = {}
    for c in conds:
        for i, x in enumerate(ctxs):
            try:
                val[c, i] = Eval(D.S, x).value(c)
            except (Unknown, Need, Infeasible):
                pass
    for i, j in itertools.combinations(range(len(ctxs)), 2):
        a, b = ctxs[i], ctxs[j]
        ks = [x for x in a if x in b and a[x] != b[x]]
        if len(ks) == 1 and a[ks[0]][:-1] == b[ks[0]][:-1] and any((c, i) in val and (c, j) in val and val[c, i] != val[c, j] for c in conds):
            tell(told, a[ks[0]], b[ks[0]])


def key_of(env):
    return frozenset((x, str(y)) for x, y in env.items())


def D_node(D, ctx, a):
    D.cur = dict(ctx)
    return D.nodeterm(a)


def show_out(out):
    return " or ".join(sorted(" ".join(o)[:80] for o in out)) or "nothing"


def enter_keys(P, e):
    return [k for k in P.byq.get(e.name, [])] or [k for k in P.fns if P.fns[k]["q"] == e.name]


def strings(P, C, D, v, own, told):
    """a string turned into an enumerator"""
    k, ctx, r, e, facts, this, args, envs = v
    if not args:
        return
    for t in enter_keys(P, e):
        g = P.fns[t]
        if not string_enum(P, g):
            continue
        run = Run(P, t)
        val = run.c(run.value)
        par = [x for x in subterms(val) if x.op == "var" and len(x.args) > 2 and x.args[1] == "param"]
        pterm = par[0] if par else T("var", g["params"][0]["name"], "param", 0)
        alts = {}
        allenvs = assignments(D.S, ctx, [D.consistent(facts), lambda E: (quiet(E, args[0]), True)[1]])
        for env in allenvs or ():
            E = Eval(D.S, env)
            s = quiet(E, args[0])
            if isinstance(s, str):
                src = {y for x, y in env.items() if x not in ctx and isinstance(y, tuple)}
                alts.setdefault(s, set()).update(src)
        if not alts:
            continue
        got, pairs, seen = {}, [], {}
        for s in sorted(alts):
            x = outcome(P, D.S, run, pterm, s, val)
            got[s] = x
            nm = "'%s' in %s (from %s)" % (s, short(g["q"]), own)
            C.ob(x != "nothing", nm, loc(P, t), "gives " + x)
            if x not in ("nothing", "throw", "unknown"):
                C.ob(x not in seen, nm + " is told apart", loc(P, t), "gives %s%s" % (x, "" if x not in seen else ", the same as '%s'" % seen[x]))
                seen.setdefault(x, s)
                pairs.append((s, x))
                o = better(s, x, {c["name"] for c in P.enums[short(strip_type(g["ret"]))]["consts"]} - {last(x)})
                C.ob(o is None, nm + " is not taken for something else", loc(P, t), "gives " + x + ("" if o is None else " although there is " + o))
        b = affine(pairs)
        C.ob(b is None, "alternatives %s in %s" % (", ".join(sorted(alts)), short(g["q"])), loc(P, t),
             "each gives what its name says" if b is None else "the names fit better the other way round: " + ", ".join("%s with %s" % x for x in b))
        for s1, s2 in itertools.combinations(sorted(alts), 2):
            if got[s1] != got[s2] or got[s1] == 'unknown':
                for p1 in alts[s1]:
                    for p2 in alts[s2]:
                        tell(told, p1, p2)
        # the place the caller was called with
        for x, w in ctx.items():
            if isinstance(w, tuple) and w and len(alts) == 1 and w[-1] in alts:
                told.setdefault(("string", t), {}).setdefault(w, got[w[-1]])
                for w2, o2 in told[("string", t)].items():
                    if o2 != got[w[-1]]:
                        tell(told, w, w2)


def E_allows(E, conds):
    for c, pol in conds:
        try:
            if bool(E.value(c)) is not bool(pol):
                return False
        except (Unknown, Need, Infeasible):
            pass
    return True


def vague(E, c):
    """a condition that cannot be decided although it looks at a known string of the document"""
    try:
        E.value(c)
        return False
    except (Need, Infeasible):
        return False
    except Unknown:
        pass
    return any(isinstance(quiet2(E, x), str) for x in subterms(c) if x.op == "call" and str(x.args[0]).startswith("pugi::"))


def quiet2(E, t):
    try:
        return E.value(t)
    except (Unknown, Need, Infeasible):
        return None


def outcome(P, S, run, pterm, s, val):
    """enumerator a string gives, 'throw', or 'nothing' when the program ends or a default is made up"""
    E = Eval(S, {pterm: s})

    def possible(facts):
        for c, pol in facts.items():
            try:
                if bool(E.value(c)) is not bool(pol):
                    return False
            except (Unknown, Need, Infeasible):
                pass
        return True
    thrown = []

    def delta(q, e, facts):
        if e.kind == "throw" and possible(facts):
            thrown.append(e)
            return None
        return q
    ends = Flow(run).explore(0, delta)
    if not any(possible(dict(d)) for _, d in ends):
        return "throw" if thrown else "nothing"
    try:
        x = E.value(val)
    except Infeasible:
        return "throw" if any(last(n.get("q") or "") == "at" for n in run.f["nodes"].values()) else "nothing"
    except (Unknown, Need):
        if any(x.op == "new" and len(x.args) == 1 for _, x in leaves(val) if E_allows(E, _)):
            return "nothing"
        return "unknown"
    return x[-1] if isinstance(x, tuple) else str(x)


def quiet(E, t):
    try:
        return E.value(t)
    except Unknown:
        return None


def run(P, C):
    examine(P, C)
    C.variant(" [without assertions]")
    examine(PR.load(extra=("-DNDEBUG",)), C)
    C.variant("")
    C.assumptions += ["documents satisfy the schema (C03)", "the schema validated against is minimc.xsd of the source tree"]
