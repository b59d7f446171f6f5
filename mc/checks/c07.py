"""A history is a function of the model and its seed."""
import re
from ..lib import *
from ..effects import parents, written, local_mods
from ..worker import worker_key

RULE = ("taint and effect analysis over every function a history or the construction of the model can reach: provenance of every generator (a particle's own, or one seeded by it or by the seed handed in), no copies of generators, "
        "no clock, environment or entropy, no state of the thread or program that outlives a history, no two operands of unspecified order that both draw or of which one changes what the other reads, "
        "no ordering, hashing, printing or order-sensitive traversal by memory address")
MINIMUM = 60

ENTROPY = re.compile(r"^(std::random_device|std::chrono::.*::now$|time$|std::time$|clock$|std::clock$|gettimeofday$|clock_gettime$|timespec_get$|std::timespec_get$|rand$|std::rand$|srand$|std::srand$|random$|srandom$|drand48$|lrand48$|mrand48$|rand_r$|erand48$|"
                     r"getpid$|gettid$|getppid$|getenv$|std::getenv$|secure_getenv$|std::this_thread::get_id$|std::thread::get_id$|std::thread::id|pthread_self$|std::thread::hardware_concurrency$|std::filesystem::last_write_time$|tmpnam$|std::tmpnam$|getrandom$|arc4random|sched_getcpu$|"
                     r"std::hash<.*\*>|__rdtsc|__builtin_ia32_rdtsc|std::random_shuffle$|gethostname$|getrusage$|times$)")


CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")


def engine(t):
    t = strip_type(t or "")
    return "_engine<" in t.split("(")[0] and t.startswith("std::") and "vector" not in t.split("<")[0]


def run(P, C):
    wk = worker_key(P)
    hist, hpar = reach(P, [wk])
    roots = [k for k in P.byq.get("Driver::Create", ())] + [k for k, f in P.fns.items() if f.get("ctor") and (f["cls"] == "Driver" or f["cls"] in subclasses(P, "Driver")) and not f["implicit"]]
    model, mpar = reach(P, roots)
    A = An(P, C, wk, hist, hpar)
    A.generators()
    A.entropy(hist | model, dict(mpar, **hpar))
    A.lasting(hist, hpar)
    A.order()
    A.addresses(set(P.fns))
    C.count("functions of a history", len(hist))
    C.count("functions of the model", len(model))


class An:
    def __init__(self, P, C, wk, hist, par):
        self.P, self.C, self.wk, self.hist, self.par = P, C, wk, hist, par
        self.draw = self.drawing()
        C.count("functions that draw", len(self.draw))

    # -- which functions advance a generator
    def is_draw(self, f, n):
        if n["k"] == "CXXOperatorCallExpr" and engine(n.get("cls", "")) and last(n.get("q", "")) == "operator()":
            return True
        if n["k"] == "CXXMemberCallExpr" and engine(n.get("cls", "")) and not n.get("cmeth"):
            return True
        if n["k"] in ("CallExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and not targets(self.P, n):
            for o in n["ops"]:
                if o is not None and engine(f["nodes"][o].get("t", "")) and f["nodes"][o].get("lv") and not f["nodes"][o]["t"].startswith("const "):
                    if n["k"].startswith("CXXConstruct") and engine(n.get("cls", "")):
                        continue
                    return True
        return False

    def drawing(self):
        P = self.P
        base = {k for k, f in P.fns.items() if any(self.is_draw(f, n) for n in f["nodes"].values())}
        cg = callgraph(P)
        ch = True
        out = set(base)
        while ch:
            ch = False
            for k, s in cg.items():
                if k not in out and any(x in out for x in s):
                    # a closure that is only created does not draw by itself; its caller does
                    out.add(k)
                    ch = True
        return out

    # -- generators
    def generators(self):
        P, C = self.P, self.C
        self.seedparams = set()
        for k, f in sorted(P.fns.items(), key=lambda x: str(x[0])):
            if f["implicit"] or f["defaulted"] or k not in self.hist:
                continue
            nm = fname(f)
            for p in f["params"]:
                if engine(p["t"]) and not is_ref(p["t"]):
                    C.ob(False, "%s:uses the generator itself" % nm, loc(P, k), "takes a copy of a generator: drawing from it does not advance the particle's")
            for i, n in f["nodes"].items():
                if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and engine(n.get("cls", "")):
                    if n.get("copy") or n.get("move"):
                        own = f.get("copyctor") or f.get("movector") or f.get("implicit")
                        elided = n["ops"] and not f["nodes"][n["ops"][0]].get("lv") and f["nodes"][n["ops"][0]]["k"] in ("CXXTemporaryObjectExpr", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr")
                        C.ob(bool(own or elided), "%s:uses the generator itself" % nm, "src/" + n["loc"], "copies a generator: both copies give the same numbers")
                    else:
                        ops = [o for o in n["ops"] if o is not None]
                        bad = None if ops and self.seeded(f, k, ops[0]) else "a generator is not seeded by the seed of the history or a draw of a particle's generator"
                        C.ob(bad is None, "%s:generator is seeded" % nm, "src/" + n["loc"], bad or "")
                if n["k"] == "LambdaExpr":
                    for cp in n.get("caps", ()):
                        if not cp.get("byref") and cp.get("op") is not None and engine(f["nodes"][cp["op"]].get("t", "")):
                            C.ob(False, "%s:uses the generator itself" % nm, "src/" + n["loc"], "a closure keeps a copy of a generator")
                if n["k"] in ("CallExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    for j, o in enumerate(n["ops"]):
                        if o is None:
                            continue
                        m = f["nodes"][o]
                        if engine(m.get("t", "")) and m.get("lv") and not (n["k"].startswith("CXXConstruct") and engine(n.get("cls", ""))):
                            why = self.good(f, o)
                            C.ob(why is None, "%s:draws from its particle's generator" % nm, "src/" + n["loc"], why or "")
                            C.count("uses of a generator")
        self.seed_sites()

    def good(self, f, o, depth=0):
        """None, or why the generator an expression denotes is not a particle's own or handed in"""
        P = self.P
        if depth > 12:
            return "unknown generator"
        n = f["nodes"][o]
        k = n["k"]
        if k == "MemberExpr" and n.get("field"):
            c = n.get("cls")
            if c == "Particle" or n["field"].startswith("Particle::"):
                return None
            if is_ref(n.get("ft", "")):
                return None         # bound where the object is built, see there
            return "draws from %s, which is not a particle's" % n["field"]
        if k == "DeclRefExpr" and "var" in n:
            if n["var"] in P.vars or n.get("glob"):
                return "draws from %s, which is not a particle's" % (n.get("q") or n["name"])
            if n.get("param"):
                return None
            # a local: constructed or bound
            for g in P.fns.values():
                if g["tu"] != f["tu"]:
                    continue
                for m in g["nodes"].values():
                    if m["k"] == "DeclStmt":
                        for d in m["decls"]:
                            if d["var"] == n["var"]:
                                if d.get("static"):
                                    return "draws from %s, which outlives the history" % n["name"]
                                if is_ref(d["t"]) and d.get("op") is not None:
                                    return self.good(g, d["op"], depth + 1)
                                return None      # its construction is checked
            return None
        if k in ("CallExpr", "CXXMemberCallExpr"):
            ts = targets(P, n)
            for t in ts:
                g = P.fns[t]
                for m in g["nodes"].values():
                    if m["k"] == "ReturnStmt" and m["ops"] and m["ops"][0] is not None:
                        w = self.good(g, m["ops"][0], depth + 1)
                        if w:
                            return w
            if ts or last(n.get("q", "")) in ("forward", "move", "ref", "get"):
                if not ts and n["ops"]:
                    return self.good(f, n["ops"][-1], depth + 1)
                return None
            return "draws from a generator of unknown origin"
        if k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "UnaryOperator", "MaterializeTemporaryExpr", "CXXConstCastExpr", "ConditionalOperator", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"):
            for x in n["ops"][1:] if k == "ConditionalOperator" else n["ops"][:1]:
                if x is not None:
                    w = self.good(f, x, depth + 1)
                    if w:
                        return w
            return None
        if k == "CXXConstructExpr":
            return None
        if k == "CXXOperatorCallExpr" and n["ops"]:
            return self.good(f, n["ops"][0], depth + 1)
        return "draws from a generator of unknown origin (%s)" % k

    def seeded(self, f, key, o, depth=0):
        """the value comes from a seed handed in or from a draw"""
        if depth > 10:
            return False
        for i in subtree(f, o):
            n = f["nodes"][i]
            if self.is_draw(f, n) or n["k"] in ("CallExpr", "CXXMemberCallExpr") and any(t in self.draw for t in targets(self.P, n)):
                return True
            if n["k"] == "DeclRefExpr" and n.get("param") and is_int(n.get("t", "")):
                for g in self.P.fns.values():
                    for j, p in enumerate(g["params"]):
                        if p["var"] == n["var"]:
                            self.seedparams.add((g["key"], j))
                return True
            if n["k"] == "DeclRefExpr" and "var" in n and not n.get("param") and n["var"] not in self.P.vars:
                g, op = self.definition(f, n["var"])
                if op is not None and self.seeded(g, g["key"], op, depth + 1):
                    return True
        if any(f["nodes"][i].get("field") == "Driver::seed" for i in subtree(f, o)) and any(f["nodes"][i]["k"] == "DeclRefExpr" and "var" in f["nodes"][i] for i in subtree(f, o)):
            return True
        return False

    def definition(self, f, var):
        for g in self.P.fns.values():
            if g["tu"] != f["tu"]:
                continue
            for m in g["nodes"].values():
                if m["k"] == "DeclStmt":
                    for d in m["decls"]:
                        if d["var"] == var:
                            return g, d.get("op")
        return f, None

    def seed_sites(self):
        """whoever hands a seed on has it from a seed or a draw"""
        P, C = self.P, self.C
        done = set()
        todo = list(self.seedparams)
        while todo:
            key, j = todo.pop()
            if (key, j) in done:
                continue
            done.add((key, j))
            before = set(self.seedparams)
            for k, f in sorted(P.fns.items(), key=lambda x: str(x[0])):
                if k not in self.hist:
                    continue
                for i, n in f["nodes"].items():
                    if n["k"] not in CALLS:
                        continue
                    ts = targets(P, n)
                    arg = None
                    if key in ts:
                        off = 1 if "cmeth" in n and n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else 0
                        arg = j + off
                    elif n["k"] in ("CallExpr", "CXXMemberCallExpr") and key in made_ctors(P, f, n):
                        off = 1 if "cmeth" in n else 0
                        arg = j + off
                    if arg is None:
                        continue
                    if arg >= len(n["ops"]) or n["ops"][arg] is None:
                        continue
                    C.ob(self.seeded(f, k, n["ops"][arg]), "%s:hands a seed of its own to %s" % (fname(f), fname(P.fns[key])), "src/" + n["loc"], "the seed handed on comes neither from a seed nor from a draw")
            todo += list(self.seedparams - before)

    # -- entropy
    def entropy(self, ks, par):
        P, C = self.P, self.C
        for k in sorted(ks, key=str):
            f = P.fns[k]
            if f["implicit"]:
                continue
            bad = None
            for n in f["nodes"].values():
                q = n.get("q") or ""
                s = short(q)
                if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "DeclRefExpr") and s and not targets(P, n):
                    C.count("library references")
                    if ENTROPY.match(s) or ENTROPY.match(q):
                        bad = bad or (n, s)
                if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "random_device" in (n.get("cls") or ""):
                    bad = bad or (n, "std::random_device")
            C.ob(bad is None, "%s:no entropy, clock or environment" % fname(f), "src/" + bad[0]["loc"] if bad else loc(P, k), "uses %s (reached by %s)" % (bad[1], chain(P, par, k)) if bad else "")

    # -- state that outlives a history
    def lasting(self, ks, par):
        P, C = self.P, self.C
        for k in sorted(ks, key=str):
            f = P.fns[k]
            bad = None
            for i, n in f["nodes"].items():
                if n["k"] in ("DeclRefExpr", "MemberExpr") and n.get("var") in P.vars and not P.vars[n["var"]].get("ext"):
                    C.count("uses of variables of the program or thread")
                    if not P.vars[n["var"]].get("const") and written(f, i):
                        bad = bad or (n, "changes %s, which outlives the history" % P.vars[n["var"]].get("q", n.get("name")))
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if d.get("static") and d.get("op") is not None:
                            dep = [m for m in (f["nodes"][x] for x in subtree(f, d["op"])) if m["k"] == "CXXThisExpr" or m["k"] == "DeclRefExpr" and "var" in m and m["var"] not in P.vars]
                            if dep:
                                bad = bad or (n, "%s keeps what the first history gave it" % d["name"])
            C.ob(bad is None, "%s:keeps nothing between histories" % fname(f), "src/" + bad[0]["loc"] if bad else loc(P, k), "%s (reached by %s)" % (bad[1], chain(P, par, k)) if bad else "")

    # -- evaluation order
    def order(self):
        P, C = self.P, self.C
        self.eff = {}
        for k, f in sorted(P.fns.items(), key=lambda x: str(x[0])):
            if f["implicit"] or f["defaulted"] or not (k in self.hist):
                continue
            bad = None
            for i, n in f["nodes"].items():
                ops = unordered(n)
                if len(ops) < 2:
                    continue
                es = [self.effects(f, o) for o in ops]
                C.count("groups of operands without an order")
                for a in range(len(es)):
                    for b in range(len(es)):
                        if a == b:
                            continue
                        (da, ma, ta), (db, mb, tb) = es[a], es[b]
                        if a < b and da and db:
                            bad = bad or (n, "two operands whose order is unspecified both draw random numbers")
                        x = ma & tb
                        if x:
                            bad = bad or (n, "one operand changes %s, another one reads it, and their order is unspecified" % sorted(x))
            C.ob(bad is None, "%s:order of evaluation does not matter" % fname(f), "src/" + bad[0]["loc"] if bad else loc(P, k), bad[1] if bad else "")

    def effects(self, f, o):
        """draws, members of particles changed, members of particles touched"""
        d, m, t = False, set(), set()
        for i in subtree(f, o):
            n = f["nodes"][i]
            if self.is_draw(f, n):
                d = True
            if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                ks = set(targets(self.P, n)) | (made_ctors(self.P, f, n) if n["k"] in ("CallExpr", "CXXMemberCallExpr") else set())
                for k in ks:
                    x = self.summary(k)
                    d, m, t = d or x[0], m | x[1], t | x[2]
            if n["k"] == "MemberExpr" and (n.get("field") or "").startswith("Particle::") and not engine(n.get("ft", "")):
                t.add(n["field"])
                if written(f, i) and any(p in set(subtree(f, o)) for p in parents(f).get(i, ())) and not accessor(f, i):
                    m.add(n["field"])
        return d, m, t

    def summary(self, k):
        if k not in self.eff:
            seen, _ = reach(self.P, [k])
            m, t = set(), set()
            for x in seen:
                g = self.P.fns[x]
                if "_pm" not in g:
                    a, b = set(), set()
                    for i, n in g["nodes"].items():
                        if n["k"] == "MemberExpr" and (n.get("field") or "").startswith("Particle::") and not engine(n.get("ft", "")):
                            b.add(n["field"])
                            if written(g, i):
                                a.add(n["field"])
                    g["_pm"] = (a, b)
                m |= g["_pm"][0]
                t |= g["_pm"][1]
            self.eff[k] = (k in self.draw, m, t)
        return self.eff[k]

    # -- addresses
    def addresses(self, ks):
        P, C = self.P, self.C
        for k in sorted(ks, key=str):
            f = P.fns[k]
            if f["implicit"]:
                continue
            bad = None
            for i, n in f["nodes"].items():
                w = self.address_use(f, n)
                if w:
                    bad = bad or (n, w)
            for i, n, t in traversals(f):
                C.count("traversals of a container")
                if addr_ordered(P, t):
                    C.count("traversals of a container ordered by address")
                    w = self.elementwise(f, i, n)
                    if w:
                        bad = bad or (n, "%s over %s, whose order is that of memory addresses" % (w, shorten(t)))
            C.ob(bad is None, "%s:no result depends on addresses" % fname(f), "src/" + bad[0]["loc"] if bad else loc(P, k), bad[1] if bad else "")

    def address_use(self, f, n):
        k = n["k"]
        if k == "BinaryOperator" and n["op"] in ("<", ">", "<=", ">=", "<=>"):
            ts = [f["nodes"][o].get("t", "") for o in n["ops"]]
            if all(is_ptr(t) and "char" not in t for t in ts):
                return "compares memory addresses"
        if k in ("CXXOperatorCallExpr", "CallExpr") and last(n.get("q", "")) in ("operator<", "operator>", "operator<=", "operator>=") and "cmeth" not in n:
            if n.get("pt") and any(x in n["pt"][0] for x in ("shared_ptr<", "unique_ptr<")) and strip_type(n["pt"][0]).split("<")[0] in ("std::shared_ptr", "std::unique_ptr"):
                return "compares memory addresses"
        if k == "CXXOperatorCallExpr" and re.match(r"std::(less|greater)<[^<]*\*", n.get("cls") or ""):
            return "compares memory addresses"
        if n.get("ck") == "PointerToIntegral" or k == "CXXReinterpretCastExpr" and is_int(n.get("t", "")) and is_ptr(n.get("st", "")):
            return "turns a memory address into a number"
        if k == "CXXOperatorCallExpr" and last(n.get("q", "")) == "operator<<" and any(re.search(r"\bvoid \*", t) for t in (n.get("pt") or ())[-1:]):
            return "prints a memory address"
        if k == "CXXOperatorCallExpr" and re.match(r"std::hash<.*(\*|_ptr<)", n.get("cls") or ""):
            return "hashes a memory address"
        if k in ("CallExpr",) and short(n.get("q", "")) in ("std::sort", "std::stable_sort", "std::min_element", "std::max_element", "std::partial_sort", "std::nth_element") and len(n.get("pt") or ()) in (2, 3):
            t = (n.get("pt") or [""])[0]
            if len(n["pt"]) == 2 and re.search(r"(\* *\*|_ptr<)", t) and "normal_iterator" in t:
                return "sorts by memory address"
        return None

    def elementwise(self, f, i, n):
        """None, or why the traversal depends on the order of the elements"""
        P = self.P
        if n["k"] == "CallExpr":
            q = last(n.get("q", ""))
            if q in ("any_of", "all_of", "none_of", "count_if", "count", "distance"):
                return None
            if q != "for_each":
                return "%s" % q
            from ..regions import classof
            for o in n["ops"]:
                cl = classof(f, o) if o is not None else None
                for lk in P.lam.get(cl, ()):
                    g = P.fns[lk]
                    vs = {p["var"] for p in g["params"]}
                    w = self.body_order(g, set(g["nodes"]), vs)
                    if w:
                        return w
            return None
        # a loop: every statement of its body
        var, body = n["loopvar"], n["body"]
        return self.body_order(f, body, {var})

    def body_order(self, f, body, vs):
        P = self.P
        # references to the element
        own = set(vs)
        ch = True
        while ch:
            ch = False
            for i in body:
                n = f["nodes"][i]
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if d["var"] not in own:
                            own.add(d["var"])
                            for b in d.get("bindings", ()):
                                own.add(b["var"])
                                if b.get("hold"):
                                    own.add(b["hold"])
                            ch = True
        for i in body:
            n = f["nodes"][i]
            k = n["k"]
            if self.is_draw(f, n):
                return "random numbers are drawn in the traversal"
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                for t in targets(P, n):
                    if t in self.draw:
                        return "random numbers are drawn in the traversal"
                    s, _ = reach(P, [t])
                    mods = set()
                    for x in s:
                        mods |= local_mods(P, x)
                    if mods and not P.fns[t].get("ctor"):
                        return "%s changes %s" % (fname(P.fns[t]), sorted(mods)[:3])
            if k in ("CompoundAssignOperator", "BinaryOperator") and (k != "BinaryOperator" or n["op"] == "=") or k == "UnaryOperator" and n["op"] in ("++", "--"):
                if k == "UnaryOperator" and is_ptr(n.get("t", "")):
                    continue
                if not rooted(f, n["ops"][0], own):
                    return "changes something other than the element"
            if k == "CXXMemberCallExpr" and not n.get("cmeth") and not targets(P, n) and last(n.get("q", "")) not in ("begin", "end", "find", "at", "get"):
                if n["ops"] and not rooted(f, n["ops"][0], own):
                    return "changes something other than the element"
            if k == "ReturnStmt" and not f.get("lambda"):
                return "stops at the first element that fits"
            if k == "CXXOperatorCallExpr" and last(n.get("q", "")) in ("operator<<", "operator+=", "operator=") and n["ops"] and not targets(P, n) and not rooted(f, n["ops"][0], own):
                return "collects"
        return None


def rooted(f, o, own):
    for _ in range(20):
        n = f["nodes"][o]
        if n["k"] == "DeclRefExpr":
            if n.get("var") in own or n.get("decomp") in own:
                return True
            if n.get("binding") and n["ops"]:
                o = n["ops"][0]
                continue
            return False
        if not n["ops"] or n["ops"][0] is None:
            return False
        if n["k"] == "CXXOperatorCallExpr" or n["k"] in ("CallExpr",):
            o = n["ops"][-1] if n["k"] == "CallExpr" else n["ops"][0]
            continue
        o = n["ops"][0]
    return False


def subtree(f, o):
    out, todo = [], [o]
    seen = set()
    while todo:
        i = todo.pop()
        if i is None or i in seen:
            continue
        seen.add(i)
        out.append(i)
        n = f["nodes"][i]
        if n["k"] == "DeclRefExpr":
            continue
        todo += n["ops"]
    return out


def unordered(n):
    """operands of a node that the language may evaluate in any order"""
    k = n["k"]
    ops = [o for o in n["ops"] if o is not None]
    if n.get("listinit"):
        return []
    if k == "BinaryOperator":
        return [] if n["op"] in ("&&", "||", ",", "=", "<<", ">>", ".*", "->*") else ops
    if k == "CXXOperatorCallExpr":
        o = last(n.get("q", ""))
        if o in ("operator<<", "operator>>", "operator&&", "operator||", "operator,", "operator[]", "operator->*") or re.match(r"operator([-+*/%&|^]|<<|>>)?=$", o):
            return []
        if o == "operator()":
            return ops[1:]
        return ops
    if k in ("CallExpr", "CXXMemberCallExpr"):
        if k == "CXXMemberCallExpr" and "cmeth" in n:
            return ops[1:]
        return ops
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return ops
    return []


def addr_ordered(P, t):
    t = strip_type(t)
    h = t.split("<")[0]
    if not re.match(r"std::(multi)?(map|set)$|std::unordered_(multi)?(map|set)$", h):
        return False
    a = template_args(t)
    if not a or not (is_ptr(a[0]) or re.match(r"std::(shared|unique)_ptr<", strip_type(a[0]))):
        return False
    if "unordered" in h:
        return True
    cmp = a[2] if "map" in h and len(a) > 2 else a[1] if "set" in h and len(a) > 1 else "std::less<>"
    return cmp.startswith(("std::less<", "std::greater<", "std::owner_less"))


def shorten(t):
    return re.sub(r", std::allocator<.*", ">", t)[:100]


def accessor(f, i):
    """only asked for its range"""
    for p in parents(f).get(i, ()):
        m = f["nodes"][p]
        if m["k"] in ("ImplicitCastExpr", "ParenExpr"):
            if not accessor(f, p):
                return False
            continue
        if m["k"] == "CallExpr" and len(m["ops"]) <= 2 and (m.get("q") or "").startswith("std::") and last(m["q"]) in ("begin", "end", "rbegin", "rend", "data", "size", "empty"):
            continue
        if m["k"] == "CXXMemberCallExpr" and m["ops"] and m["ops"][0] == i and (m.get("q") or "").startswith("std::") and last(m["q"]) in ("begin", "end", "rbegin", "rend", "data", "size"):
            continue
        if m["k"] != "MemberExpr" or m.get("field"):
            return False
        for c in parents(f).get(p, ()):
            q = f["nodes"][c].get("q") or ""
            if not (q.startswith("std::") and last(q) in ("begin", "end", "rbegin", "rend", "data", "size")):
                return False
    return True


def traversals(f):
    """loops over containers and library traversals: (node, node, container type)"""
    out = []
    for i, n in f["nodes"].items():
        if n["k"] == "CallExpr" and short(n.get("q", "")).startswith("std::") and len(n["ops"]) >= 3:
            o = n["ops"][1] if f["nodes"][n["ops"][0]]["k"] == "ImplicitCastExpr" and False else n["ops"][0]
            for o in n["ops"][:2]:
                if o is None:
                    continue
                for j in subtree(f, o):
                    m = f["nodes"][j]
                    if m["k"] == "CXXMemberCallExpr" and last(m.get("q", "")) in ("begin", "cbegin", "rbegin", "crbegin") and m["ops"]:
                        out.append((i, n, m.get("cls") or f["nodes"][m["ops"][0]].get("t", "")))
    # loops by iterator or range: the body is every node of the blocks of the loop
    for i, n in f["nodes"].items():
        if n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d.get("op") is None:
                    continue
                for j in subtree(f, d["op"]):
                    m = f["nodes"][j]
                    if m["k"] == "CXXMemberCallExpr" and last(m.get("q", "")) in ("begin", "cbegin", "rbegin", "crbegin") and m["ops"]:
                        t = m.get("cls") or f["nodes"][m["ops"][0]].get("t", "")
                        body = loop_nodes(f, d["var"])
                        if body:
                            out.append((i, {"k": "loop", "loc": n["loc"], "loopvar": d["var"], "body": body}, t))
    return out


def loop_nodes(f, var):
    """nodes of the blocks from which control returns to the test of the iterator"""
    bl = {b["id"]: b for b in f["blocks"]}
    incs = set()
    for b in f["blocks"]:
        for e in b["el"]:
            if "s" in e:
                n = f["nodes"][e["s"]]
                if (n["k"] == "CXXOperatorCallExpr" and last(n.get("q", "")) == "operator++" or n["k"] == "UnaryOperator" and n["op"] == "++") and n["ops"]:
                    if any(f["nodes"][x].get("var") == var for x in subtree(f, n["ops"][0])):
                        incs.add(b["id"])
    out = set()
    for h in incs:
        # natural loop of the back edge: blocks that reach h without leaving through the head
        pred = {}
        for b in f["blocks"]:
            for s in b["su"]:
                if s is not None and s >= 0:
                    pred.setdefault(s, set()).add(b["id"])
        heads = [s for s in bl[h]["su"] if s is not None and s >= 0]
        seen = {h} | set(heads)
        todo = [h]
        while todo:
            x = todo.pop()
            for p in pred.get(x, ()):
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        # blocks leaving the loop by return belong to the body, too
        body = seen - set(heads)
        for b in list(body):
            for s in bl[b]["su"]:
                if s is not None and s >= 0 and s not in seen and any(f["nodes"][e["s"]]["k"] == "ReturnStmt" for e in bl[s]["el"] if "s" in e):
                    if s not in [x for hd in heads for x in bl[hd]["su"]]:
                        body.add(s)
        for b in body:
            for e in bl[b]["el"]:
                if "s" in e:
                    n = f["nodes"][e["s"]]
                    if n["k"] == "CXXOperatorCallExpr" and last(n.get("q", "")) == "operator++":
                        continue
                    out.add(e["s"])
    return out


def fname(f):
    return short(f["q"]) if not f.get("lambda") else "closure in " + f["loc"].split(":")[0]
