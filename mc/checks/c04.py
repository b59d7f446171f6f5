"""References by name resolve or raise."""
from ..docs import *
from ..flow import under
from ..select import Loops
from .. import prog as PR

RULE = ("typestate of the result of every search (standard searches, associative containers, minimum searches, named nodes of the document): on every path it must be known to have found something before it is "
        "dereferenced or read, with and without assertions; where an assertion is the only test, every name that can be asked for must have been inserted into the searched container by the function that fills it "
        "(same document places, loops that leave no element out, objects named after the key); searches by name must compare whole names for equality with the name as written; lookups by name must end in an "
        "exception when nothing is found; orders of name-keyed containers must compare names")
MINIMUM = 20
SEARCH = {"find_if", "find", "find_if_not", "min_element", "max_element", "search", "adjacent_find", "find_end", "find_first_of"}
NODEFIND = ("find_child_by_attribute",)
ASSOC = ("std::map::find", "std::set::find", "std::unordered_map::find", "std::unordered_set::find")
MARK = T("a name asked for")


def run(P, C):
    decide(P, C)
    if not C.suffix:
        C.variant(" [without assertions]")
        decide(PR.load(("-DNDEBUG",)), C)


def decide(P, C):
    A = Lookups(P, C)
    A.searches()
    A.roles()
    A.references()
    A.links()
    A.orders()
    C.assumptions += ["documents satisfy the schema (C03)", "standard searches and pugixml behave as documented"]


class Lookups:
    def __init__(self, P, C):
        self.P, self.C = P, C
        self.S = Schema(P.repo)
        self.runs = {}

    def inline(self, k, f):
        return bool(f.get("lambda")) or not f.get("ctor")

    def get(self, k):
        if k not in self.runs:
            r = Run(self.P, k, inline=self.inline, derefs=True)
            self.runs[k] = (r, Flow(r))
        return self.runs[k]

    def reader(self):
        if not hasattr(self, "R"):
            self.R = Reader(self.P).start()
        return self.R

    # -- searches -----------------------------------------------------------
    def sites(self):
        P = self.P
        out = []
        for k, f in sorted(P.fns.items()):
            if f.get("lambda"):
                continue
            hit = False
            for n in f["nodes"].values():
                q = n.get("q") or ""
                if n["k"] in ("CallExpr", "CXXMemberCallExpr") and (last(q) in SEARCH and q.startswith("std::") and "basic_string" not in q or last(q) in NODEFIND):
                    hit = True
            if hit:
                out.append(k)
        return out

    def searches(self):
        P, C = self.P, self.C
        for k in self.sites():
            r, F = self.get(k)
            C.count("functions with searches")
            where = P.fns[k]["q"]
            seen, preds, nodes, uses = {}, {}, {}, {}

            def delta(q, e, facts):
                if e.kind == "deref":
                    x = under(r.c(e.args[0]), facts)
                    for y in ([x] if x.op != "ite" else [z for _, z in leaves(x)]):
                        ok = self.found(r, y, facts)
                        if ok is not None:
                            seen.setdefault((y, e.loc), []).append((ok, e, dict(facts)))
                for c in facts:
                    for y in subterms(c):
                        if y.op == "exists" and len(y.args) == 2:
                            preds.setdefault((y.args[0], y.args[1]), e)
                q = q | {c.args[1] for c, v in facts.items() if v and c.op == "call" and c.args[0] == "exists" and nodefind(c.args[1])}
                if e.kind == "ext" and last(e.name or "") in NODEFIND and isinstance(e.val, T):
                    y = r.c(e.val)
                    nodes.setdefault(y, e)
                    q = frozenset(x for x in q if x is not y)
                elif e.kind in ("ext", "make", "call", "out", "store", "write", "init"):
                    known_node(e, r, nodes, uses, q)
                return None if e.kind == "throw" else q
            ends = F.explore(frozenset(), delta)
            for (x, l), rs in sorted(seen.items(), key=lambda z: str(z[0][1])):
                C.count("dereferenced search results")
                bad = [z for z in rs if not z[0]]
                e = rs[0][1]
                ok = not bad
                why = ""
                if bad and x.op == "firstit":
                    ok, why = self.complete(k, r, F, x, [z[2] for z in bad])
                C.ob(ok, "%s:search result known before it is dereferenced (%s)" % (where, short_name(x)), "src/" + e.loc if e.loc else loc(P, k),
                     "%s; %s" % (show(x)[:300], why or "no test on the path: %s" % [show(c)[:80] + "=" + str(v) for c, v in bad[0][2].items()][:5] if bad else ""))
                if x.op == "firstit":
                    preds.setdefault((x.args[0], x.args[1]), e)
            for (c, p), e in sorted(preds.items(), key=lambda z: str(z[0][1])):
                self.byname(where, c, p, "src/" + e.loc if e.loc else loc(P, k))
            for t, e in sorted(nodes.items(), key=lambda z: str(z[0])):
                C.count("named nodes")
                C.ob(t.args[2] is const("name") if len(t.args) == 4 else t.args[3] is const("name"), where + ":nodes are searched by their attribute name", "src/" + e.loc if e.loc else loc(P, k), show(t)[:200])
                key = self.c_plain(t.args[-1])
                C.ob(plain_key(key), where + ":nodes are searched under the name as given", "src/" + e.loc if e.loc else loc(P, k), show(key)[:200])
            for (t, what), (ok, e) in sorted(uses.items(), key=lambda z: str(z[0])):
                C.ob(ok, where + ":node found before %s" % what, "src/" + e.loc if e.loc else loc(P, k), show(t)[:200])
            v = r.value
            if nodefind(v):
                for q, dec in ends:
                    d = dict(dec)
                    x = under(v, d)
                    C.ob(nodefind(x) and known(d, T("call", "exists", x)) is True, where + ":returns a node only when found", loc(P, k), show(x)[:200])

    def c_plain(self, t):
        while t.op == "call" and last(t.args[0]) in ("c_str", "data", "str") and len(t.args) == 2 or t.op == "new" and short(t.args[0]) in ("std::basic_string", "std::basic_string_view") and len(t.args) == 2:
            t = t.args[1]
        return t

    def found(self, r, x, facts):
        """is the search result known to be one? None: not a search result"""
        if x.op == "firstit":
            return known(facts, r.c.exists(*x.args)) is True or known(facts, T("exists", *x.args)) is True
        if x.op == "argminit":
            return known(facts, r.c.eq(T("call", "size", x.args[0]), const(0))) is False or known(facts, T("zero", T("call", "size", x.args[0]))) is False or any(
                not v and y.op in ("zero", "eq") and self.sized(y, x.args[0]) for y, v in facts.items())
        if x.op == "call" and x.args[0] in ASSOC:
            return known(facts, r.c.eq(x, T("call", "end", x.args[1]))) is False
        if x.op == "call" and last(str(x.args[0])) in SEARCH and str(x.args[0]).startswith("std::") and last(x.args[0]) not in ("lower_bound", "upper_bound"):
            return any(not v and y.op == "eq" and x in y.args for y, v in facts.items())
        return None

    def sized(self, y, c):
        return any(z.op in ("size",) and z.args[0] is c or z.op == "call" and z.args[0] == "size" and z.args[1] is c for z in subterms(y))

    def byname(self, where, c, p, l):
        el = T("elem", c)
        names = [y for y in subterms(p) if named(y, el)]
        if not names:
            return
        self.C.count("searches by name")
        sides = p.args if p.op == "eq" else ()
        ok = len(sides) == 2 and any(named(a, el) and not any(z is el for z in subterms(b)) for a, b in (sides, sides[::-1]))
        self.C.ob(ok, where + ":whole names are compared (%s)" % short_name(T("firstit", c, p)), l, show(p)[:300])
        if ok:
            key = [b for a, b in (sides, sides[::-1]) if named(a, el)][0]
            self.C.ob(plain_key(self.c_plain(key)), where + ":the name as given is searched for (%s)" % short_name(T("firstit", c, p)), l, show(key)[:300])

    # -- searches that only an assertion guards -----------------------------
    def complete(self, k, r, F, x, factsets):
        """every name asked for was inserted"""
        cont, pred = x.args
        el = T("elem", cont)
        if pred.op != "eq":
            return False, "not a search for equality"
        key = [b for a, b in (pred.args, pred.args[::-1]) if named(a, el)]
        if not key:
            return False, "not a search by name"
        if not (cont.op == "var" and cont.args[1] == "param"):
            return False, "searched container is not handed in"
        # what the callers hand in
        cases = []
        for facts in factsets:
            cases.append((cont, key[0], {c: v for c, v in facts.items()}))
        final, n = [], 0
        work = [(k, c, ke, fs, 0) for c, ke, fs in cases]
        while work:
            k1, c, ke, fs, depth = work.pop()
            n += 1
            if depth > 8 or n > 200:
                return False, "call chain too long"
            if not (c.op == "var" and c.args[1] == "param"):
                final.append((k1, c, ke, fs))
                continue
            cs = self.callers(k1)
            if not cs:
                return False, "nobody calls %s" % self.P.fns[k1]["q"]
            for k2, m, fs2 in cs:
                def s(t):
                    return self.tidy(rsub(t, m))
                f2 = {s(a): b for a, b in fs.items()}
                f2.update(fs2)
                work.append((k2, s(c), s(ke), f2, depth + 1))
        if not final:
            return False, "no call found"
        for k1, c, ke, fs in final:
            ok, why = self.filled(k1, c, ke, fs)
            if not ok:
                return False, why
        return True, ""

    def tidy(self, t):
        """c_str of what is a character array already, and the like"""
        def f(y):
            return y
        m = {}
        for y in subterms(t):
            if y.op == "call" and last(str(y.args[0])) in ("c_str", "data") and len(y.args) == 2 and y.args[1].op == "call" and last(str(y.args[1].args[0])) in ("as_string", "c_str", "value", "child_value"):
                m[y] = y.args[1]
        for _ in range(3):
            t2 = rsub(t, m) if m else t
            if t2 is t:
                break
            t = t2
        return t

    def callers(self, k):
        """(caller, parameters -> arguments, facts) of every call"""
        P = self.P
        cg = callgraph(P)
        out = []
        own = {y for y in cg if k in cg[y]}
        # closures belong to the function that makes them
        def maker(k2):
            while k2 in P.fns and P.fns[k2].get("lambda"):
                k2 = next((x for x in P.fns if any(n["k"] == "LambdaExpr" and k2 in P.lam.get(n["cls"], ()) for n in P.fns[x]["nodes"].values())), None)
            return k2
        for k2 in sorted({maker(x) for x in own} - {None}):
            if k2 not in P.fns:
                continue
            r, F = self.callrun(k2, k)
            seen = set()

            def delta(q, e, facts):
                if e.kind == "throw":
                    return None
                args = None
                if e.kind == "call" and k in self.targets(e):
                    args = e.args
                elif e.kind == "ext" and e.node is not None and k in made_ctors(P, None, e.node):
                    args = e.args
                elif e.kind == "make" and False:
                    args = e.args
                if args is not None and len(args) == len(P.fns[k]["params"]):
                    m = {}
                    for i, (p, a) in enumerate(zip(P.fns[k]["params"], args)):
                        if isinstance(a, T):
                            m[T("var", p["name"], "param", i)] = self.value_of(r.c(a))
                    key = (tuple(m.values()), frozenset(facts.items()))
                    if key not in seen:
                        seen.add(key)
                        out.append((k2, m, dict(facts)))
                return q
            F.explore(0, delta)
        return out

    def value_of(self, t):
        if t.op == "addr":
            return t.args[0]
        return t

    def callrun(self, k2, k):
        """a run of k2 in which the calls to k stay calls"""
        key = (k2, k)
        if key not in self.runs:
            cg = callgraph(self.P)
            keep = {y for y in cg if k in cg[y]} | {k}

            def inl(x, f):
                return bool(f.get("lambda")) or x not in keep and (isnode(f.get("ret") or "") or string_enum(self.P, f))
            r = Run(self.P, k2, inline=inl)
            self.runs[key] = (r, Flow(r))
        return self.runs[key]

    def targets(self, e):
        ks = e.this if isinstance(e.this, (list, tuple)) else None
        ks = ks or (e.extra if isinstance(e.extra, (list, tuple)) else None) or ()
        return [x for x in ks if isinstance(x, str)]

    def filled(self, k, c, key, facts):
        """container c (in function k) holds an object of that name"""
        P = self.P
        made = None
        if c.op == "fld" and c.args[0] in (T("this"), T("obj", "this")) or c.op == "fld":
            r, F = self.callrun(k, "")
            name = c.args[1]
            for e in r.events("init"):
                if last(e.name or "") == name and isinstance(e.val if e.val is not None else (e.args or (None,))[0], T):
                    made = r.c(e.val if isinstance(e.val, T) else e.args[0])
            if made is None:
                made = r.final(c)
        else:
            made = c
        if made.op != "call" or not P.byq.get(made.args[0]):
            # inlined or unknown
            return False, "cannot tell how %s is filled: %s" % (show(c)[:60], show(made)[:120])
        ks = P.byq[made.args[0]]
        if len(ks) != 1:
            return False, "several functions %s" % made.args[0]
        g = ks[0]
        r, F = self.get(g)
        m = {T("var", p["name"], "param", i): a for i, (p, a) in enumerate(zip(P.fns[g]["params"], [x for x in made.args[1:] if isinstance(x, T)]))}
        v = r.value
        gaps = []
        why = self.covers(r, g, v, key, m, gaps)
        if why:
            return False, why
        why = self.all_rounds(r, F, g)
        if why:
            return False, why
        for conds in gaps:
            fs = dict(facts)
            for a, b in conds:
                a = self.tidy(rsub(a, m))
                if fs.get(a, b) is not b:
                    break
                fs[a] = b
            else:
                def goal(E):
                    for a, b in fs.items():
                        try:
                            x = E.value(a)
                        except Unknown:
                            continue
                        if bool(x) is not bool(b):
                            return False
                    return True
                ctxs = [dict(x) for kk, x in self.reader().seen if kk == k] or [{}]
                if any(envs is None or envs for envs in [assignments(self.S, x, [goal]) for x in ctxs]):
                    return False, "%s leaves names out when %s" % (P.fns[g]["q"], [show(a)[:100] + "=" + str(b) for a, b in conds])
        return True, ""

    def covers(self, r, g, v, key, m, gaps, path=(), depth=0):
        """the value a filling loop builds has an object for each key; conditions under which it has none are collected"""
        if v.op in ("loop", "loopx") and depth < 5:
            init = v.args[0]
            if depth == 0 and init.op != "new":
                return "starts from %s" % show(init)[:80]
            for b in v.args[1:]:
                why = self.covers(r, g, b, key, m, gaps, path, depth + 1)
                if why:
                    return why
            return None
        if depth == 0:
            return "%s is not filled by a loop: %s" % (self.P.fns[g]["q"], show(v)[:100])
        if v.op == "ite":
            for pol, b in ((True, v.args[1]), (False, v.args[2])):
                why = self.covers(r, g, b, key, m, gaps, path + ((v.args[0], pol),), depth)
                if why:
                    return why
            return None
        if v.op == "bot":
            return None
        here = [(c, p) for c, p in path if c.op == "exists" and len(c.args) == 2]
        if v.op == "acc":
            for c, p in here:
                if p and self.tidy(rsub(self.keyof(c), m)) is key:
                    return None
            gaps.append([x for x in path])
            return None
        if v.op == "upd" and v.args[0] in ("push_back", "emplace_back") and len(v.args) == 3:
            name = self.nameof(r, v.args[2])
            if any(self.tidy(rsub(n, m)) is not key for n in name) or not name:
                return "inserts objects named %s, asked for %s" % ([show(self.tidy(rsub(n, m)))[:160] for n in name], show(key)[:160])
            return self.covers(r, g, v.args[1], key, m, gaps, path + ((MARK, True),), depth) if v.args[1].op != "acc" else None
        return "fills with %s" % show(v)[:120]

    def keyof(self, ex):
        c, p = ex.args
        if p.op != "eq":
            return T("none")
        for a, b in (p.args, p.args[::-1]):
            if named(a, T("elem", c)) or a.op == "fld" and a.args[1] == "name" and any(y.op == "elem" for y in subterms(a)):
                return b
        return T("none")

    def nameof(self, r, v):
        """names an inserted object can have"""
        out = []
        for _, x in leaves(v):
            if x.op == "bot" or isconst(x) and x.args[0] is None:
                continue
            y = x.args[0] if x.op == "addr" else x
            mk = [e for e in r.events("make") if isinstance(e.val, T) and (e.val is y or r.c(e.val) is y or r.c(e.val) is x)]
            if not mk:
                mk = [e for e in r.events("make") if any(isinstance(p, T) and (p is y or r.c(p) is y) for p in (e.places or ()))]
            if not mk and y.op == "heap":
                mk = [e for e in r.events("make") if short(e.name or "") == y.args[0] and (e.ctx,) + tuple(e.pos) == tuple(y.args[1:3]) + ()] or [e for e in r.events("make") if short(e.name or "") == short(y.args[0])]
            if not mk:
                out.append(T("unknown", y))
                continue
            for e in mk[:1]:
                out.append(self.made_name(r, e))
        return out

    def made_name(self, r, e):
        P = self.P
        cls = short(e.name)
        args = [r.c(a) if isinstance(a, T) else a for a in e.args or ()]
        n = len(args)
        ks = [m["key"] for m in P.recs.get(cls, {"methods": ()})["methods"] if m["ctor"] and m["key"] in P.fns and len(P.fns[m["key"]]["params"]) == n and not P.fns[m["key"]].get("copyctor") and not P.fns[m["key"]].get("movector")]
        if len(ks) != 1:
            return T("unknown", T(cls))
        k = ks[0]
        key = ("name", k)
        if key not in self.runs:
            # constructors of the class and its bases only
            def inl(x, f):
                return bool(f.get("ctor")) and is_subclass(P, cls, f.get("cls") or "")
            q = Run(P, k, inline=inl, this=T("var", "this object", "obj", 0))
            self.runs[key] = q
        q = self.runs[key]
        v = q.final(T("fld", T("var", "this object", "obj", 0), "name"))
        m = {T("var", p["name"], "param", i): a for i, (p, a) in enumerate(zip(P.fns[k]["params"], args)) if isinstance(a, T)}
        v = rsub(v, m)
        v = self.c_plain(v)
        # the name of the node that was found under a name
        if v.op == "call" and last(str(v.args[0])) == "as_string" and v.args[1].op == "call" and last(str(v.args[1].args[0])) == "attribute" and v.args[1].args[2] is const("name"):
            nd = v.args[1].args[1]
            if nodefind(nd) and nd.args[-2] is const("name"):
                return self.c_plain(nd.args[-1])
        return v

    def all_rounds(self, r, F, g):
        """no loop of the filling function is left early except by an exception"""
        L = Loops(F)
        dead = {n for n in F.nodes if any(e.kind == "throw" for e in F.nodes[n])}
        live, todo = {F.exit}, [F.exit]
        while todo:
            for p in L.pred.get(todo.pop(), ()):
                if p not in live and p not in dead:
                    live.add(p)
                    todo.append(p)
        for head, body in L.body.items():
            for n in body:
                for m in F.succ[n]:
                    if n != head and m not in body and m in live and not by_condition(F.label((n, m))[0]):
                        return "%s leaves a loop early" % self.P.fns[g]["q"]
        return None

    # -- lookups --------------------------------------------------------------
    def roles(self):
        """functions that turn a name into the object of that name"""
        P, C = self.P, self.C
        n = 0
        self.lookups = {}
        for k, f in sorted(P.fns.items()):
            if f.get("lambda") or f.get("ctor") or len(f["params"]) != 1 or not f.get("cls"):
                continue
            pt = strip_type(f["params"][0]["t"])
            if not ("basic_string" in pt or "char" in pt and "*" in f["params"][0]["t"]):
                continue
            rt = pointee(f.get("ret") or "")
            if rt not in P.recs or not any(m["name"] == "name" for c in [rt] + sorted(bases(P, rt)) for m in P.recs[c]["fields"] if c in P.recs):
                continue
            n += 1
            r, F = self.get(k)
            v = r.value
            while v.op in ("deref", "addr"):
                v = v.args[0]
            p = T("var", f["params"][0]["name"], "param", 0)
            ok = v.op == "first"
            if ok:
                c, pr = v.args
                ok = pr.op == "eq" and any(named(a, T("elem", c)) and self.c_plain(b) is p for a, b in (pr.args, pr.args[::-1]))
            C.ob(ok, f["q"] + ":returns the object of that name", loc(P, k), show(r.value)[:300])
            self.lookups[k] = rt
            C.count("lookup functions")
        C.ob(n >= 3, "lookup functions found", "src/", str(n))

    def references(self):
        """names handed to the lookups come from the document's references"""
        P, C = self.P, self.C
        R = self.reader()
        n = 0
        for k, ctx, r, e, facts, this, args, envs in R.visits:
            if e.kind != "call":
                continue
            hit = [t for t in R.callees(e) if t in self.lookups]
            if not hit:
                continue
            kind = self.lookups[hit[0]]
            key = self.c_plain(args[0])
            n += self.judge_ref(k, r, e, kind, key, envs)
        # calls in functions whose visits do not mention nodes: every call must have been met
        cg = callgraph(P)
        for t in self.lookups:
            for k in sorted(cg):
                if t in cg[k] and k in P.fns and any(isnode(p["t"]) for p in P.fns[k]["params"]):
                    met = any(v[0] == k for v in R.visits)
                    C.ob(met, P.fns[k]["q"] + ":reference analysed", loc(P, k))
        for k, why in R.incomplete:
            if any(t in callgraph(P).get(k, ()) for t in self.lookups):
                raise AnalysisError("%s: %s" % (k, why))

    def judge_ref(self, k, r, e, kind, key, envs):
        P, C = self.P, self.C
        l = r.loc(e)
        q = P.fns[k]["q"]
        if not C.ob(key.op == "call" and last(str(key.args[0])) in ("as_string", "value") and key.args[1].op == "call" and last(str(key.args[1].args[0])) == "attribute",
                    q + ":refers by a name written in the document", l, show(key)[:200]):
            return 0
        noun = next((x[:-1] for x in sorted(self.S.root.kids) if x.endswith("s") and kind.lower().endswith(x[:-1])), kind.lower())
        for env in envs:
            E = Eval(self.S, env)
            try:
                el, a, there = E.attr(key.args[1])
            except Unknown:
                C.ob(False, q + ":place of the reference known", l, show(key)[:200])
                continue
            except (Need, Infeasible):
                continue
            C.count("references")
            ok = el is not None and (a == noun or a == "name" and (el.name == noun or self.stands_for(el, noun)))
            C.ob(ok, q + ":a %s is referred to by %s" % (noun, "/".join(el.path[1:]) + "/@" + a if el else "?"), l, show(key)[:200])
        return 1

    # -- links between objects ------------------------------------------------
    def links(self):
        """members through which an object of the model refers to another one"""
        P, C = self.P, self.C
        me = T("var", "this object", "obj", 0)
        R = self.reader()
        n = 0
        for k, f in sorted(P.fns.items()):
            cls = f.get("cls")
            if not f.get("ctor") or f.get("copyctor") or f.get("movector") or not any(isnode(p["t"]) for p in f["params"]):
                continue
            for x in P.recs.get(cls, {"fields": ()})["fields"]:
                ty = strip_type(x["t"])
                many = short(ty) in ("std::map", "std::set", "std::unordered_map", "std::unordered_set")
                ta = template_args(ty)
                tgt = pointee(ta[0]) if many and ta else pointee(ty) if ("_ptr<" in ty or "*" in ty) else None
                kinds = [y[:-1] for y in sorted(self.S.root.kids) if y.endswith("s") and (tgt or "").lower().endswith(y[:-1])]
                if tgt not in P.recs or not kinds or not any(y["name"] == "name" for y in P.recs[tgt]["fields"]):
                    continue
                n += 1
                C.count("links")
                noun = kinds[0]
                key = ("link", k)
                if key not in self.runs:
                    r = Run(P, k, this=me, inline=lambda a, g, cls=cls: bool(g.get("lambda")) or not g.get("ctor") or is_subclass(P, cls, g.get("cls") or ""))
                    self.runs[key] = (r, Flow(r))
                r, F = self.runs[key]
                v = r.final(T("fld", me, x["name"]))
                what = "%s.%s" % (cls, x["name"])
                ctxs = [dict(c) for kk, c in R.seen if kk == k]
                if not C.ob(bool(ctxs), what + ":made from the document", loc(P, k)):
                    continue
                if many:
                    self.many(k, r, F, v, what, noun, ctxs)
                else:
                    for path, y in leaves(v):
                        self.link(k, y, dict(path), what, noun, ctxs)
        C.ob(n >= 4, "links found", "src/", str(n))

    def many(self, k, r, F, v, what, noun, ctxs):
        P, C = self.P, self.C
        while v.op in ("map",) and len(v.args) >= 1:
            v = v.args[0]
        if not C.ob(v.op in ("loop", "loopx") and v.args[0].op == "new" and len(v.args[0].args) == 1, what + ":filled by a loop", loc(P, k), show(v)[:200]):
            return
        why = self.all_rounds(r, F, k)
        C.ob(not why, what + ":no reference is left out", loc(P, k), why or "")
        for b in v.args[1:]:
            for path, y in leaves(b):
                if y.op == "bot":
                    continue
                if not C.ob(y.op == "upd" and last(str(y.args[0])) in ("emplace", "insert", "insert_or_assign", "try_emplace", "operator[]", "at") and any(z.op == "acc" for z in y.args[1:3]), what + ":every reference is entered", loc(P, k), show(y)[:200]):
                    continue
                xs = [z for z in y.args[1:] if isinstance(z, T) and z.op != "acc"]
                keyv = xs[0]
                if keyv.op in ("agg", "new"):
                    keyv = field(keyv, "first") or keyv
                self.link(k, keyv, dict(path), what, noun, ctxs)

    def link(self, k, y, facts, what, noun, ctxs):
        P, C = self.P, self.C
        if y.op == "bot":
            return
        if isconst(y) and y.args[0] is None:
            # nothing to refer to
            for ctx in ctxs:
                for env in assignments(self.S, ctx, [self.reader().consistent(facts)]) or ():
                    for p in ctx.values():
                        el = self.S.at.get(p) if p is not ANY and p else None
                        C.ob(el is not None and noun not in el.attrs, what + ":nothing only where the document names none", loc(P, k), "%s can name a %s" % ("/".join(p[1:]) if p else p, noun))
            return
        ok = y.op == "first"
        key = None
        if ok:
            c, pr = y.args
            key = [self.c_plain(b) for a, b in (pr.args, pr.args[::-1]) if named(a, T("elem", c))] if pr.op == "eq" else []
            ok = len(key) == 1
        if not C.ob(ok, what + ":is the object found under the name", loc(P, k), show(y)[:300]):
            return
        key = key[0]
        if not C.ob(key.op == "call" and last(str(key.args[0])) in ("as_string", "value") and key.args[1].op == "call" and last(str(key.args[1].args[0])) == "attribute", what + ":refers by a name written in the document", loc(P, k), show(key)[:200]):
            return
        n = 0
        for ctx in ctxs:
            def goal(E):
                E.attr(key.args[1])
                return True
            envs = assignments(self.S, ctx, [self.reader().consistent(facts), goal])
            for env in envs or ():
                el, a, there = Eval(self.S, env).attr(key.args[1])
                n += 1
                C.ob(el is not None and there and (a == noun or a == "name" and (el.name == noun or self.stands_for(el, noun))), what + ":a %s is referred to by %s" % (noun, "/".join(el.path[1:]) + "/@" + a if el else "?"), loc(P, k), show(key)[:200])
        C.ob(n > 0, what + ":place of the reference known", loc(P, k), show(key)[:200])

    def stands_for(self, el, noun):
        """does the element sit in a list of references to such objects"""
        return any(p.startswith("sensitivit") for p in el.path) and noun == "perturbation"

    # -- orders ---------------------------------------------------------------
    def orders(self):
        """comparators of containers keyed by pointers to named objects"""
        P, C = self.P, self.C
        for k, f in sorted(P.fns.items()):
            if last(f["q"]) != "operator()" or f.get("lambda") or len(f["params"]) != 2 or strip_type(f.get("ret") or "") != "bool":
                continue
            ts = [pointee(p["t"]) for p in f["params"]]
            if ts[0] != ts[1] or ts[0] not in P.recs:
                continue
            if not any(x["name"] == "name" for x in P.recs[ts[0]]["fields"]):
                continue
            r = Run(P, k, this=T("this"))
            a, b = [T("var", p["name"], "param", i) for i, p in enumerate(f["params"])]
            C.count("orders")
            nm = lambda v: T("fld", T("deref", v), "name")
            want = [Canon()(T("bin", "<", nm(x), nm(y))) for x, y in ((a, b), (b, a))]
            C.ob(r.value in want, f["q"] + ":objects are ordered by name", loc(P, k), show(r.value)[:200])


def short_name(x):
    c = x.args[1] if x.op == "call" else x.args[0]
    s = show(c)
    return s[:40]


def named(y, el):
    """the name of an element"""
    if y.op == "fld" and y.args[1] == "name":
        b = y.args[0]
        while b.op in ("deref", "addr"):
            b = b.args[0]
        return b is el or b.op == "elem" and b.args[0] is el.args[0] or b.op == "fld" and b.args[1] in ("first", "second") and (b.args[0] is el)
    if y.op == "call" and last(str(y.args[0])) == "as_string" and y.args[1].op == "call" and last(str(y.args[1].args[0])) == "attribute":
        return y.args[1].args[1] is el and y.args[1].args[2] is const("name")
    return False


def plain_key(t):
    """a name that nothing was done to"""
    while t.op in ("deref", "addr"):
        t = t.args[0]
    if t.op == "var":
        return True
    if t.op == "fld":
        return t.args[1] == "name" or True
    if t.op == "call" and last(str(t.args[0])) in ("as_string", "value", "name", "child_value") and t.args[0].startswith("pugi::"):
        return all(not isinstance(a, T) or a is const("") or not isconst(a) for a in t.args[2:])
    return t.op == "const"


def nodefind(t):
    return t.op == "call" and last(str(t.args[0])) in NODEFIND and str(t.args[0]).startswith("pugi::")


def known_node(e, r, nodes, uses, q):
    """nodes used by an event have been found"""
    for a in list(e.args or ()) + [e.extra]:
        if not isinstance(a, T):
            continue
        for y in subterms(r.c(a)):
            if nodefind(y):
                nodes.setdefault(y, e)
                what = "%s of %s" % (e.name, show(y.args[1])[:40]) if e.kind != "make" else "making %s" % e.name
                k = (y, what)
                if k not in uses or y not in q:
                    uses[k] = (y in q, e)


def by_condition(fs):
    """does an edge leave by the loop's own condition"""
    for a, p in fs.items():
        if p and a.op == "eq" and any(x.op == "iterator" for x in a.args) and any(x.op == "call" and x.args[0] == "end" for x in a.args):
            return True
        if a.op in ("neg0", "zero") and any(y.op in ("iter", "counter", "iterator") for y in subterms(a)):
            return True
    return False


def bases(P, c):
    out, todo = set(), [c]
    while todo:
        x = todo.pop()
        for b in P.recs.get(x, {"bases": ()})["bases"]:
            b = strip_type(b if isinstance(b, str) else b.get("t", b.get("name", "")))
            if b not in out:
                out.add(b)
                todo.append(b)
    return out


def pointee(t):
    t = strip_type(t)
    while True:
        ta = template_args(t)
        if short(t) in ("std::shared_ptr", "std::unique_ptr", "std::reference_wrapper", "std::optional") and ta:
            t = strip_type(ta[0])
            continue
        return strip_type(t.rstrip("*& "))
