"""Errors reported by throwing reach the caller."""
from ..spec import *

RULE = ("interprocedural exception escape: the set of throw expressions that can leave each function is propagated over the resolved call graph "
        "(virtual calls to every overrider, closures where they are handed out, objects built in place by the library); no such set may reach a function "
        "that promises not to throw or the entry of a bare thread, no handler may end without throwing, and every future is asked for its result")
MINIMUM = 40

BASES = {"std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"], "std::out_of_range": ["std::logic_error"],
         "std::invalid_argument": ["std::logic_error"], "std::domain_error": ["std::logic_error"], "std::length_error": ["std::logic_error"],
         "std::range_error": ["std::runtime_error"], "std::overflow_error": ["std::runtime_error"], "std::underflow_error": ["std::runtime_error"]}


def bases(P, t):
    t = strip_type(t)
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += BASES.get(x, [])
        if x in P.recs:
            todo += [strip_type(b) for b in P.recs[x]["bases"]]
    return out


def catches(P, h, site):
    return h["t"] == "..." or strip_type(h["t"]) in bases(P, site[1])


def rethrows(f, h):
    """every path through the handler throws or ends the program"""
    blocks = {b["id"]: b for b in f["blocks"]}
    start = [b["id"] for b in f["blocks"] if b.get("catchloc") == h["loc"] and b.get("catch") == h["t"]]
    if not start:
        return h["throws"]
    seen, todo = set(), list(start)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        b = blocks[x]
        if b.get("noreturn") or any("s" in e and f["nodes"][e["s"]]["k"] == "CXXThrowExpr" for e in b["el"]):
            continue
        if x == f["exit"]:
            return False
        todo += [s for s in b["su"] if s is not None and s >= 0]
    return True


def stored(h):
    """the handler passes the exception on as an object"""
    return any(last(c) in ("current_exception", "set_exception", "rethrow_exception", "throw_with_nested", "nested_exception") for c in h.get("calls", ()))


def escapes(P):
    """function key -> {throw site: (callee it came through, node)}"""
    if hasattr(P, "_esc"):
        return P._esc
    # call edges with the node they come from, so that try blocks apply to the right ones
    edges, own = {}, {}
    cg = callgraph(P)
    for k, f in P.fns.items():
        es = {}
        own[k] = {}
        for i, n in f["nodes"].items():
            ts = list(targets(P, n))
            if n["k"] == "LambdaExpr":
                ts += P.lam.get(n["cls"], ())
            if n["k"] == "DeclRefExpr" and n.get("fn") in P.fns:
                ts.append(n["fn"])
            for t in ts:
                es.setdefault(t, set()).add(i)
            if n["k"] == "CXXThrowExpr" and n.get("tt"):
                own[k][(n.get("loc") or f["loc"], n["tt"], k)] = i
        for t in cg[k]:
            es.setdefault(t, {None})
        edges[k] = es
    esc = {k: {} for k in P.fns}

    def passes(f, i, site):
        """does an exception raised at node i leave f"""
        for t in f["tries"]:
            if i is not None and i in t["stmts"]:
                for h in t["handlers"]:
                    if catches(P, h, site):
                        return h["throws"] or rethrows(f, h)
        return True
    work = set(P.fns)
    rev = {}
    for k, es in edges.items():
        for t in es:
            rev.setdefault(t, set()).add(k)
    for k in P.fns:
        for s, i in own[k].items():
            if passes(P.fns[k], i, s):
                esc[k][s] = None
    changed = True
    while changed:
        changed = False
        for k, es in edges.items():
            f = P.fns[k]
            for t, nodes in es.items():
                if P.fns[t]["nothrow"]:
                    continue
                for s in esc[t]:
                    if s not in esc[k] and any(passes(f, i, s) for i in nodes):
                        esc[k][s] = t
                        changed = True
    P._esc = (esc, edges)
    return P._esc


def route(P, esc, k, s):
    out = [P.fns[k]["q"]]
    while esc[k].get(s) and len(out) < 12:
        k = esc[k][s]
        out.append(P.fns[k]["q"])
    return " -> ".join(short(x) or "lambda" for x in out)


def run(P, C):
    esc, edges = escapes(P)
    sites = {s for k in P.fns for s in esc[k] if s[2] == k}
    C.count("functions", len(P.fns))
    C.count("call edges", sum(len(e) for e in edges.values()))
    C.count("throw expressions", len(sites))
    for k, f in sorted(P.fns.items()):
        if not f["nothrow"] or f["implicit"]:
            continue
        C.count("functions that promise not to throw")
        bad = sorted(esc[k])
        q = short(f["q"]) or f["q"]
        if f.get("lambda"):
            q = "lambda in " + owner_of(P, k)
        C.ob(not bad, "no exception escapes %s" % q, loc(P, k),
             "; ".join("the exception thrown at src/%s ends the program: %s" % (s[0], route(P, esc, k, s)) for s in bad[:3]))
    # implicit functions: constructors etc. whose implicit specification hides nothing because it is computed from their parts
    # handlers
    for k, f in sorted(P.fns.items()):
        for t in f["tries"]:
            for h in t["handlers"]:
                C.count("handlers")
                inside = set(t["stmts"])
                caught = set()
                for callee, nodes in edges[k].items():
                    if nodes & inside:
                        caught |= {s for s in esc[callee] if catches(P, h, s)}
                caught |= {s for s in sites if s[2] == k and catches(P, h, s)}
                ok = rethrows(f, h) or stored(h) or not caught or f["name"] == "main"
                C.ob(ok, "handler in %s passes errors on" % short(f["q"]), "src/" + h["loc"], "errors such as the one thrown at src/%s are swallowed" % (sorted(caught)[0][0] if caught else ""))
    # threads
    nfut = 0
    for k, f in sorted(P.fns.items()):
        for i, n in f["nodes"].items():
            q = short(n.get("q", "")) or ""
            if q == "std::async":
                nfut += 1
            if strip_type(n.get("cls", "") or "") in ("std::thread", "std::jthread") and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("ops"):
                ent = [m["fn"] for m in f["nodes"].values() if m["k"] == "DeclRefExpr" and m.get("fn") in P.fns]
                ent += [l for m in f["nodes"].values() if m["k"] == "LambdaExpr" for l in P.lam.get(m["cls"], ())]
                bad = [s for m in ent for s in esc[m]]
                C.ob(not bad, "bare thread started in %s ends without exceptions" % short(f["q"]), "src/" + (n.get("loc") or f["loc"]), "an exception thrown at src/%s leaves a thread that has no caller" % (bad[0][0] if bad else ""))
    for k, f in sorted(P.fns.items()):
        asy = [n for n in f["nodes"].values() if short(n.get("q", "")) == "std::async"]
        if not asy:
            continue
        r = Run(P, k, inline=lambda k2, f2: False)
        gets = [e for e in r.events("ext") if last(e.name) == "get" and "future" in e.name]
        C.count("asynchronous calls", len(asy))
        results = [r.c(e.val) for e in r.events("ext") if e.name == "std::async"]
        ok = bool(gets) and bool(results)
        C.ob(ok, "results of workers started in %s are collected" % short(f["q"]), loc(P, k), "no future is asked for its result, so errors in a worker are lost")
        if ok:
            # the futures asked: every element of the container they are kept in, without a condition
            for e in gets:
                pc = [x for x in conditions(r, e)]
                C.ob(not pc, "every worker's result is collected in %s" % short(f["q"]), r.loc(e), "asked only if %s" % ", ".join(show(x)[:80] for x in pc))
    C.assumptions.append("only throw expressions of the project's own sources; exceptions raised inside library functions are not tracked")


def conditions(r, e):
    """conditions of an event other than loop bounds"""
    out = []
    for c in e.facts or ():
        if contains(c, lambda x: x.op in ("iterator", "iterator?", "iter", "phi", "loopvar", "begin", "end") or (x.op == "call" and x.args and x.args[0] in ("begin", "end"))):
            continue
        a = r.c(c[0] if isinstance(c, tuple) else c)
        if a.op == "neg0" and contains(a, lambda x: x.op in ("counter", "loop", "loopx", "iter", "loopphi")):
            continue      # bounds of counted loops
        out.append(c)
    return out


def owner_of(P, k):
    for k2, f in P.fns.items():
        for n in f["nodes"].values():
            if n["k"] == "LambdaExpr" and k in P.lam.get(n["cls"], ()):
                return (short(f["q"]) or f["q"]) if not f.get("lambda") else "lambda in " + owner_of(P, k2)
    return "?"
