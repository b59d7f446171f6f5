"""Input is validated before it is used."""
import re
from ..spec import *
from ..flow import Flow
from ..lib import callgraph
from ..interp import root
from .c01 import owner_of, rethrows

RULE = ("must-pass-through typestate over every path (helpers inlined) from each function that loads a document up to those that nobody calls: a document is loaded only from a file that a "
        "parser with schema validation switched on, and with an error handler of which error and fatalError never return, has parsed before on that path; the load result is tested; the tested document is what "
        "the constructor stores; nothing alters a document afterwards and no handler on the way swallows the exception")
MINIMUM = 6

LOADS = {"load", "load_file", "load_string", "load_buffer", "load_buffer_inplace", "load_buffer_inplace_own"}
MUTATE = re.compile(r"^pugi::xml_(node|document|attribute|text)::(append_\w+|prepend_\w+|insert_\w+|remove_\w+|set_\w+|set|reset|operator=)$")
PATHFN = {"string", "c_str", "native", "data", "u8string", "generic_string", "ctor", "basic_string", "path"}
SETTERS = {"setValidationScheme": "scheme", "setDoSchema": "schema", "setDoNamespaces": "namespaces", "setErrorHandler": "handler",
           "setLoadSchema": "loadschema", "setIdentityConstraintChecking": "identity"}


def pugi_doc(n):
    return (n.get("q") or "").startswith("pugi::xml_document::") and last(n["q"]) in LOADS and n["k"] == "CXXMemberCallExpr"


def source_of(r, t):
    """the file a string names: the term below conversions of the path"""
    t = r.c(t)
    while True:
        if t.op == "call" and last(t.args[0]) in PATHFN and len(t.args) == 2:
            t = t.args[1]
        elif t.op == "new" and last(t.args[0]) in ("basic_string", "path") and len([a for a in t.args[1:] if isinstance(a, T)]) >= 1:
            t = [a for a in t.args[1:] if isinstance(a, T)][0]
        else:
            return t


class Val:
    def __init__(self, P, C):
        self.P, self.C = P, C
        self.handlers = {}

    def handler_ok(self, cls):
        """errors of the parser end in an exception"""
        P, C = self.P, self.C
        if cls in self.handlers:
            return self.handlers[cls]
        ok = True
        for m in ("error", "fatalError"):
            ks = [k for k, f in P.fns.items() if f.get("cls") == cls and f["name"] == m]
            if not ks:
                C.ob(False, "%s::%s reports" % (cls, m), "src/" + (P.recs.get(cls) or {"loc": ""})["loc"], "the error handler does not say what to do on errors")
                ok = False
                continue
            r = Run(P, ks[0], inline=lambda k, f: (f.get("cls") == cls or not f.get("cls")))
            F = Flow(r)
            ends = F.explore(0, lambda q, e, facts: None if e.kind == "throw" else q)
            good = not ends
            C.ob(good, "%s::%s reports" % (cls, m), loc(P, ks[0]),
                 "every path ends in an exception" if good else "a document the validator objects to is accepted: the handler returns without throwing on some path")
            ok = ok and good
        self.handlers[cls] = ok
        return ok

    def class_of(self, r, a):
        """class of the object a pointer argument points to"""
        a = r.c(a)
        for x in subterms(a):
            if x.op == "new" and isinstance(x.args[0], str) and short(x.args[0]) in self.P.recs:
                return short(x.args[0])
            if x.op == "heap" and isinstance(x.args[0], str) and short(x.args[0]) in self.P.recs:
                return short(x.args[0])
        p = a.args[0] if a.op in ("addr", "ref") and a.args else a
        t = getattr(r.I, "ptype", {}).get(p) if isinstance(p, T) else None
        return short(strip_type(t)) if t else None

    def analyse(self, k):
        """events of k in order: complaints, whether something loads unvalidated"""
        P = self.P
        r = Run(P, k, inline=lambda kk, f: kk in self.way)
        types = {}
        for e in r.events("decl"):
            if e.args and isinstance(e.args[0], T) and e.places:
                v = e.args[0]
                if v.op == "new":
                    types[e.places[0]] = short(v.args[0])
        bad, early = [], []
        self.loads = 0

        def settings(q, p):
            return dict(x[2] for x in q if x[0] == "set" and x[1] is p)

        def delta(q, e, facts):
            if e.kind == "throw":
                return None
            if e.kind == "dtor":
                gone = e.this
                return frozenset(x for x in q if not (x[0] == "set" and x[2][0] == "handler" and x[2][1] is gone)) | ({("gone", gone)} if gone is not None else frozenset())
            if e.kind not in ("ext", "call"):
                return q
            nm = last(e.name or "")
            if e.name.startswith("xercesc"):
                if nm in SETTERS and e.this is not None:
                    v = r.c(e.args[0]) if e.args else None
                    if nm == "setErrorHandler":
                        a = e.args[0]
                        v = a.args[0] if isinstance(a, T) and a.op == "addr" else v
                    p = self.obj(r, e.this)
                    q = frozenset(x for x in q if not (x[0] == "set" and x[1] is p and x[2][0] == SETTERS[nm]))
                    return q | {("set", p, (SETTERS[nm], v))}
                if nm == "parse" and e.args:
                    s = settings(q, self.obj(r, e.this))
                    why = []
                    if not (s.get("scheme") is not None and s["scheme"].op == "enum" and last(s["scheme"].args[0]) == "Val_Always"):
                        why.append("the parser does not always validate")
                    for key, what in (("schema", "schema processing is off"), ("namespaces", "namespace processing is off")):
                        if not (key in s and isconst(s[key], True)):
                            why.append(what)
                    for key, what in (("loadschema", "schemas are not loaded"), ("identity", "identity constraints are not checked")):
                        if key in s and not isconst(s[key], True):
                            why.append(what)
                    h = s.get("handler")
                    hc = None
                    if h is not None:
                        for d, t in types.items():
                            if d is h:
                                hc = t
                        hc = hc or self.class_of(r, h)
                    if h is None or isconst(h) and h.args[0] is None:
                        why.append("the parser has no error handler (or it is gone already)")
                    elif ("gone", h) in q:
                        why.append("the error handler is gone already")
                    elif hc is None or hc not in P.recs:
                        why.append("the error handler is not known")
                    elif not self.handler_ok(hc):
                        why.append("its error handler does not report every error")
                    if why:
                        bad.append((r.loc(e), "validation", "; ".join(why)))
                        return q
                    return q | {("valid", source_of(r, e.args[0]))}
            if e.name.startswith("pugi::xml_document::") and nm in LOADS:
                self.loads += 1
                src = source_of(r, e.args[0]) if e.args else None
                d = self.obj(r, e.this)
                if ("valid", src) not in q:
                    early.append((r.loc(e), "a document is loaded here that has not been validated" + (": %s" % show(src)[:120] if src is not None else "")))
                return frozenset(x for x in q if x[0] != "loaded") | {("loaded", d, e)}
            return q
        F = Flow(r)
        ends = F.explore(frozenset(), delta)
        for q, dec in ends:
            for x in q:
                if x[0] == "loaded" and not self.tested(r, x[2], dict(dec)):
                    bad.append((r.loc(x[2]), "load result", "the result of loading the document is not tested on some path that goes on with it"))
        self.r, self.ends = r, ends
        return sorted(set(bad)), sorted(set(early))

    def obj(self, r, p):
        return p

    def tested(self, r, e, facts):
        def isload(t):
            return t.op == "call" and t.args[0] == e.name
        for c, pol in facts.items():
            for x in subterms(c):
                if not isload(x):
                    continue
                # conversion to bool, or comparison of the status
                if c.op == "call" and c.args[0] == "exists" and c.args[1] is x and pol is True or c.op == "call" and last(c.args[0]) == "operator bool" and pol is True:
                    return True
                if c.op == "call" and last(c.args[0]) == "operator!" and pol is False:
                    return True
                if c.op == "eq" and pol is True and any(a.op == "enum" and last(a.args[0]) == "status_ok" for a in c.args if isinstance(a, T)):
                    return True
        return False

    def matters(self, k):
        """does the function validate or load"""
        f = self.P.fns[k]
        return any(pugi_doc(n) or last(n.get("q") or "") in SETTERS or (n.get("q") or "").startswith("xercesc") and last(n["q"]) == "parse" for n in f["nodes"].values())


def run(P, C):
    V = Val(P, C)
    cg = callgraph(P)
    rev = {}
    for k, ts in cg.items():
        for t in ts:
            rev.setdefault(t, set()).add(k)
    V.way = val = {k for k in P.fns if V.matters(k)}
    todo = list(val)
    while todo:
        x = todo.pop()
        for c in rev.get(x, ()):
            if c not in val:
                val.add(c)
                todo.append(c)
    sites = [k for k in sorted(P.fns) if any(pugi_doc(n) for n in P.fns[k]["nodes"].values())]
    if not sites:
        raise AnalysisError("nothing loads an input document")
    done = {}

    def judge(k, chain):
        """validated here, or by every caller"""
        if k in done:
            return done[k]
        done[k] = []
        bad, early = V.analyse(k)
        out = []
        for l, what, m in bad:
            C.ob(False, "%s in %s" % (what, short(P.fns[k]["q"])), l, m)
        if early:
            # what anyone may call has to validate by itself
            open_ = P.fns[k].get("cls") and not P.fns[k].get("lambda") and P.fns[k].get("access") == 0
            cs = [] if open_ else sorted(c for c in rev.get(k, ()) if not P.fns[c]["implicit"])
            if not cs:
                out = ["%s (%s)" % (m, l) for l, m in early]
            else:
                for c in cs:
                    out += judge(c, chain + (k,))
        elif not bad:
            C.ob(True, "validation in %s" % short(P.fns[k]["q"]), loc(P, k), "%d loads, all after validation of the same file, result tested" % V.loads)
        done[k] = out
        return out
    for k in sites:
        n = sum(pugi_doc(x) for x in P.fns[k]["nodes"].values())
        C.count("places where a document is loaded", n)
        out = judge(k, ())
        C.ob(not out, "documents loaded in %s are validated before" % short(P.fns[k]["q"]), loc(P, k), "; ".join(out)[:500] or "on every path, by this function or its callers")
    # what owns a document gets it from there
    for c, rec in sorted(P.recs.items()):
        docs = [f for f in rec["fields"] if strip_type(f["t"]) == "pugi::xml_document"]
        if not docs:
            continue
        ctors_ = [k for k, f in sorted(P.fns.items()) if f.get("ctor") and f["cls"] == c and not f.get("copyctor") and not f.get("movector")]
        live = [m for m in rec["methods"] if m["ctor"] and not m["deleted"] and m["key"] not in P.fns and not m["implicit"]]
        for m in live:
            C.ob(False, "constructor of %s" % c, "src/" + m["loc"], "this constructor leaves the document empty")
        for k in ctors_:
            V.analyse(k)
            r = V.r
            for d in docs:
                v = r.c(r.final(T("fld", T("this"), d["name"])))
                lv = list(leaves(v))
                good = all(any(x.op in ("call", "upd") and isinstance(x.args[0], str) and x.args[0].startswith("pugi::xml_document::") and last(x.args[0]) in LOADS for x in subterms(l)) for _, l in lv)
                held = good and not any(x.op == "bot" for _, x in lv if x.op == "bot" and len(lv) == 1)
                C.ob(held, "%s of every %s is a validated document" % (d["name"], c), loc(P, k),
                     "every constructor stores the document that was validated and loaded" if held else "the constructor stores %s" % show(v)[:200])
            for f in rec["fields"]:
                if strip_type(f["t"]) == "pugi::xml_node":
                    v = r.c(r.final(T("fld", T("this"), f["name"])))
                    good = all(any(x.op in ("call", "upd") and isinstance(x.args[0], str) and last(x.args[0]) in LOADS or x.op == "fld" and x.args[1] in [d["name"] for d in docs] for x in subterms(l)) for _, l in leaves(v))
                    C.ob(good, "%s of every %s lies in the validated document" % (f["name"], c), loc(P, k), show(v)[:200])
    # documents made anywhere else
    for k in sorted(P.fns):
        f = P.fns[k]
        for n in f["nodes"].values():
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and strip_type(n["t"]) == "pugi::xml_document" and not n.get("copy") and not n.get("move"):
                C.ob(k in sites or any(k in rev.get(s, ()) for s in sites) or any(s in cg.get(k, ()) for s in sites), "document made in %s" % short(f["q"]), where(f, n),
                     "an XML document is made here that is never validated")
            q = n.get("q") or ""
            if n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and MUTATE.match(q) and not (last(q) == "operator=" and not q.startswith("pugi::xml_attribute") and not q.startswith("pugi::xml_text") and len(n["ops"]) == 2 and "xml_" in (n.get("pt") or ["xml_"])[-1]):
                C.ob(False, "documents stay as validated", where(f, n), "%s alters the document after it was validated" % short(q))
    # handlers on the way
    val = V.way
    for k in sorted(val):
        f = P.fns[k]
        for t in f["tries"]:
            hits = [i for i in t["stmts"] if i in f["nodes"] and (set(targets(P, f["nodes"][i])) | made_ctors(P, f, f["nodes"][i])) & val or i in f["nodes"] and (pugi_doc(f["nodes"][i]) or (f["nodes"][i].get("q") or "").startswith("xercesc") and last(f["nodes"][i]["q"]) == "parse")]
            if not hits:
                continue
            for h in t["handlers"]:
                C.ob(rethrows(f, h), "handler in %s" % short(f["q"]), "src/" + (h.get("loc") or f["loc"]),
                     "the handler passes the error on" if rethrows(f, h) else "an invalid document is accepted: this handler ends without throwing")
    C.count("functions on the way from the program to the validator", len(val))
