"""Where in the input document the program reads: the schema, and the places (paths of element names) every node variable
can stand for, context by context."""
import glob, numbers, os, re
import xml.etree.ElementTree as ET
from .spec import *
from .flow import Flow
from .canon import to_poly
from .lib import made_ctors

XS = "{http://www.w3.org/2001/XMLSchema}"


class El:
    """a declared element"""

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.attrs = {}       # name -> (required, values or None)
        self.kids = {}        # name -> (El, optional)
        self.choices = []     # alternatives offered side by side
        self.one = []         # of which exactly one (at most one) appears once: (names, optional)
        self.text = False     # has character data
        self.values = None    # its enumeration

    def __repr__(self):
        return "/".join(self.path)


class Schema:
    def __init__(self, repo, root="minimc"):
        files = [f for f in sorted(glob.glob(os.path.join(repo, "**", "*.xsd"), recursive=True)) if "/_build" not in f and "/build" not in f]
        self.top, self.simple, self.complex, self.files = None, {}, {}, []
        for f in files:
            t = ET.parse(f).getroot()
            if any(e.get("name") == root for e in t.findall(XS + "element")):
                self.load(f)
                break
        if self.top is None:
            raise AnalysisError("no schema declares the element " + root)
        self.root = self.element(self.top, ())
        self.at = {}
        todo = [self.root]
        while todo:
            e = todo.pop()
            self.at[e.path] = e
            todo += [k for k, _ in e.kids.values()]

    def load(self, f):
        if f in self.files:
            return
        self.files.append(f)
        t = ET.parse(f).getroot()
        for c in t:
            n = c.get("name")
            if c.tag == XS + "include":
                self.load(os.path.join(os.path.dirname(f), c.get("schemaLocation")))
            elif c.tag == XS + "element" and self.top is None:
                self.top = c
            elif c.tag == XS + "simpleType":
                self.simple[n] = c
            elif c.tag == XS + "complexType":
                self.complex[n] = c

    def values(self, st):
        """enumerated values of a simple type (None: not enumerated)"""
        if isinstance(st, str):
            return self.values(self.simple[st]) if st in self.simple else None
        es = [e.get("value") for e in st.iter(XS + "enumeration")]
        if es and st.find(XS + "list") is None:
            return es
        r = st.find(XS + "restriction")
        return self.values(r.get("base")) if r is not None and r.get("base") in self.simple else None

    def element(self, n, path):
        path = path + (n.get("name"),)
        e = El(n.get("name"), path)
        t = n.get("type")
        ct, st = n.find(XS + "complexType"), n.find(XS + "simpleType")
        if t in self.complex:
            ct = self.complex[t]
        if ct is not None:
            self.fill(e, ct)
            e.text = ct.get("mixed") == "true" or ct.find(XS + "simpleContent") is not None
        elif st is not None or t is not None:
            e.text = True
            e.values = self.values(st if st is not None else t)
        else:
            e.text = True  # anything goes
        return e

    def fill(self, e, ct):
        for c in ct:
            if c.tag == XS + "attribute":
                st = c.find(XS + "simpleType")
                vs = self.values(st) if st is not None else self.values(c.get("type")) if c.get("type") else None
                e.attrs[c.get("name")] = (c.get("use") == "required", vs)
            elif c.tag in (XS + "all", XS + "sequence", XS + "choice"):
                self.group(e, c, False)
            elif c.tag in (XS + "complexContent", XS + "simpleContent"):
                for x in c:
                    b = x.get("base")
                    if x.tag == XS + "extension" and b in self.complex:
                        self.fill(e, self.complex[b])
                    self.fill(e, x)

    def group(self, e, g, optional):
        choice = g.tag == XS + "choice"
        optional = optional or g.get("minOccurs") == "0"
        names = []
        for c in g:
            if c.tag == XS + "element":
                k = self.element(c, e.path)
                many = choice and len([x for x in g if x.tag != XS + "annotation"]) > 1
                e.kids[k.name] = (k, optional or many or c.get("minOccurs") == "0")
                names.append(k.name)
            elif c.tag in (XS + "all", XS + "sequence", XS + "choice"):
                self.group(e, c, optional or choice)
        if choice and names:
            e.choices.append(names)
            if g.get("maxOccurs", "1") == "1" and all(c.get("maxOccurs", "1") == "1" for c in g):
                e.one.append((names, optional))


class Need(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class Unknown(Exception):
    pass


DOC = ()          # the document node
ANY = ("*",)      # a place that cannot be told
CHILD, FIRST = "pugi::xml_node::child", "pugi::xml_node::first_child"
STR = ("new", "ref")


def same_value(a, b):
    N = 2 ** 64 - 1
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or {a, b} == {-1, N}
    if a == ("named", "std::basic_string::npos") or b == ("named", "std::basic_string::npos"):
        return N in (a, b) or a == b
    return a == b


class Eval:
    """values of node and string terms once some choices are made"""

    def __init__(self, S, env):
        self.S, self.env = S, env

    def choose(self, key, options):
        if key in self.env:
            return self.env[key]
        options = list(options)
        if len(options) == 1:
            return options[0]
        raise Need(key, options)

    def el(self, p):
        return self.S.at.get(p)

    def node(self, t):
        """path a node term stands for; None for the null node; ANY when it cannot be told"""
        if t in self.env:
            return self.env[t]
        if t.op in ("deref", "ref", "addr"):
            return self.node(t.args[0])
        if t.op == "fld" and t.args[1].rstrip("&") == "root":
            return (self.S.root.name,)
        if t.op == "new" and t.args[0] in ("pugi::xml_node",):
            return None if len(t.args) == 1 else self.node(t.args[1])
        if t.op == "new" and str(t.args[0]).startswith("pugi::xml_document") or t.op == "upd":
            return DOC
        if t.op == "ite":
            return self.node(t.args[1] if self.value(t.args[0]) else t.args[2])
        if t.op == "elem":
            p = self.node(t.args[0])
            if p is ANY:
                return ANY
            if p is None:
                raise Infeasible()
            ks = self.kids(p)
            if not ks:
                raise Infeasible()
            return self.choose(t, [p + (k,) for k in ks])
        if t.op == "call" and t.args[0].startswith(("pugi::xml_node::", "pugi::xml_document::", "pugi::xpath_node::", "pugi::xml_attribute::", "pugi::xml_named_node_iterator", "pugi::xml_node_iterator", "pugi::xml_object_range")):
            f = last(t.args[0])
            p = self.node(t.args[1])
            if p is ANY:
                return ANY
            if f in ("node", "internal_object", "operator*", "operator->", "begin", "children") and len(t.args) == 2:
                return p
            if f == "children" and len(t.args) == 3:
                return T("children", t)
            if f == "root":
                return DOC
            if p is None:
                return None
            if f == "document_element":
                return (self.S.root.name,)
            if f == "parent":
                return p[:-1] if p else None
            if f == "child":
                s = self.string(t.args[2])
                if s is None:
                    return self.choose(t, [p + (k,) for k in self.kids(p)] + [None])
                return self.step(t, p, s)
            if f in ("first_child", "last_child"):
                ks = self.kids(p)
                if not ks:
                    return None
                if self.el(p) is not None and len(self.el(p).one) == 1 and len(self.el(p).one[0][0]) == len(ks):
                    names, optional = self.el(p).one[0]
                    return self.choose(T("one", p, tuple(names)), [p + (n,) for n in names] + ([None] if optional else []))
                must = self.el(p) is None or any(not o for _, o in self.el(p).kids.values()) or self.el(p).choices
                return self.choose(t, [p + (k,) for k in ks] + ([] if must else [None]))
            if f in ("next_sibling", "previous_sibling"):
                s = self.string(t.args[2]) if len(t.args) > 2 else None
                ks = self.kids(p[:-1]) if s is None else [s]
                return self.choose(t, [p[:-1] + (k,) for k in ks] + [None])
            if f in ("find_child_by_attribute", "find_child"):
                ks = self.kids(p)
                if len(t.args) == 5:
                    s = self.string(t.args[2])
                    ks = [k for k in ks if k == s]
                return self.choose(t, [p + (k,) for k in ks] + [None])
            if f in ("select_node", "select_single_node", "first_element_by_path"):
                x = self.string(t.args[2])
                if x is None or not re.match(r"^/?[\w./-]+$", x):
                    return ANY
                q = DOC if x.startswith("/") else p
                for part in x.strip("/").split("/"):
                    if part == ".":
                        continue
                    if q is None:
                        return None
                    if part == "..":
                        q = q[:-1]
                        continue
                    q = self.step(T("sel", t, q + (part,)), q, part)
                return q
        if t.op == "bot":
            raise Infeasible()
        return ANY

    def kids(self, p):
        if p == DOC:
            return [self.S.root.name]
        e = self.el(p)
        return list(e.kids) if e else []

    def step(self, key, p, s):
        if p == DOC:
            return (s,) if s == self.S.root.name else None
        e = self.el(p)
        if e is None or s not in e.kids:
            return None
        for names, optional in e.one:
            if s in names:
                x = self.choose(T("one", p, tuple(names)), [p + (n,) for n in names] + ([None] if optional else []))
                return x if x == p + (s,) else None
        return self.choose(key, [p + (s,), None] if e.kids[s][1] else [p + (s,)])

    def attr(self, t):
        """(element, attribute name, present)"""
        p = self.node(t.args[1])
        a = self.string(t.args[2])
        if p is ANY or a is None:
            raise Unknown()
        e = self.el(p) if p is not None else None
        if e is None or a not in e.attrs:
            return e, a, False
        if e.attrs[a][0]:
            return e, a, True
        return e, a, self.choose(T("present", t), [True, False])

    def string(self, t):
        try:
            v = self.value(t)
        except Unknown:
            return None
        return v if isinstance(v, str) else None

    def number(self, t):
        s = 0
        for k, c in to_poly(t).m.items():
            p = c
            for a, e in k:
                v = self.value(a)
                if isinstance(v, bool) or not isinstance(v, (int, float, numbers.Rational)):
                    raise Unknown()
                if e.denominator != 1 or e < 0:
                    raise Unknown()
                p *= v ** int(e)
            s += p
        return s

    def value(self, t):
        if t in self.env:
            return self.env[t]
        o = t.op
        if o == "const":
            return t.args[0]
        if o in ("enum", "named"):
            return (o, t.args[0])
        if o == "ite":
            return self.value(t.args[1] if self.value(t.args[0]) else t.args[2])
        if o == "not" or o == "un" and t.args[0] == "!":
            return not self.value(t.args[-1])
        if o == "eq" or o == "bin" and t.args[0] in ("==", "!="):
            a, b = t.args[-2], t.args[-1]
            v = same_value(self.value(a), self.value(b))
            return not v if o == "bin" and t.args[0] == "!=" else v
        if o == "new" and short(t.args[0]) in ("std::basic_string", "std::basic_string_view", "std::string") and len(t.args) >= 2:
            return self.value(t.args[1])
        if o == "bot":
            raise Infeasible()
        if o in ("zero", "neg0"):
            v = self.number(t.args[0])
            return v == 0 if o == "zero" else v < 0
        if o == "size":
            v = self.value(t.args[0])
            if not isinstance(v, str):
                raise Unknown()
            return len(v)
        if o == "call":
            f = last(t.args[0])
            if t.args[0] == "exists":
                x = t.args[1]
                if x.op == "call" and last(x.args[0]) in ("attribute", "first_attribute") and len(x.args) == 3:
                    return self.attr(x)[2]
                p = self.node(x)
                if p is ANY:
                    raise Unknown()
                return p is not None
            if f in ("c_str", "data", "str", "string") and len(t.args) == 2:
                return self.value(t.args[1])
            if f in ("size", "length", "strlen") and len(t.args) == 2:
                v = self.value(t.args[1])
                if not isinstance(v, str):
                    raise Unknown()
                return len(v)
            if f == "empty" and len(t.args) == 2:
                v = self.value(t.args[1])
                if not isinstance(v, str):
                    raise Unknown()
                return v == ""
            if f in ("find", "rfind", "starts_with", "ends_with", "substr", "front", "back", "contains") and "basic_string" in t.args[0] or f in ("strncmp", "strstr"):
                xs = [self.value(a) for a in t.args[1:] if not (isinstance(a, T) and a.op == "call" and "allocator" in str(a.args[0]))]
                if not xs or not isinstance(xs[0], str):
                    raise Unknown()
                s, y = xs[0], xs[1:]
                N = 2 ** 64 - 1
                try:
                    if f == "find":
                        p = s.find(y[0], int(y[1]) if len(y) > 1 else 0)
                        return N if p < 0 else p
                    if f == "rfind":
                        p = s.rfind(y[0], 0, min(len(s), (int(y[1]) if len(y) > 1 else N) + len(y[0])))
                        return N if p < 0 else p
                    if f == "contains":
                        return y[0] in s
                    if f == "starts_with":
                        return s.startswith(y[0])
                    if f == "ends_with":
                        return s.endswith(y[0])
                    if f == "substr":
                        return s[int(y[0]):][:int(y[1]) if len(y) > 1 else None]
                    if f == "strncmp":
                        return 0 if s[:int(y[1])] == y[0][:int(y[1])] else 1
                except (TypeError, ValueError, IndexError, AttributeError):
                    pass
                raise Unknown()
            if f in ("strcmp", "compare") and len(t.args) == 3:
                return 0 if self.value(t.args[1]) == self.value(t.args[2]) else 1
            if t.args[0].startswith("pugi::"):
                if f == "name" and len(t.args) == 2:
                    p = self.node(t.args[1])
                    if p is ANY:
                        raise Unknown()
                    return p[-1] if p else ""
                if f in ("child_value", "get", "as_string", "value") and len(t.args) >= 2:
                    x = t.args[1]
                    if f == "child_value" and len(t.args) == 3:
                        p = self.node(T("call", CHILD, x, t.args[2]))
                    elif x.op == "call" and last(x.args[0]) == "attribute":
                        e, a, there = self.attr(x)
                        if not there:
                            return self.value(t.args[2]) if len(t.args) > 2 else ""
                        if e.attrs[a][1] is None:
                            raise Unknown()
                        return self.choose(t, e.attrs[a][1])
                    elif x.op == "call" and last(x.args[0]) == "text":
                        p = self.node(x.args[1])
                    else:
                        p = self.node(x)
                    if p is None:
                        return ""
                    e = self.el(p) if p is not ANY else None
                    if e is None or e.values is None:
                        raise Unknown()
                    return self.choose(t, e.values)
        raise Unknown()


class Infeasible(Exception):
    pass


def allows(env, conds):
    """can (condition, polarity) pairs hold when the terms of env have the given values"""
    E = Eval(None, env)
    for c, pol in conds:
        try:
            if bool(E.value(c)) is not bool(pol):
                return False
        except (Unknown, Need, Infeasible, AttributeError):
            pass
    return True


def assignments(S, env0, goals, limit=3000):
    """all ways to settle the choices that the goals depend on. goals: functions of an Eval returning False to reject"""
    out, todo, n = [], [dict(env0)], 0
    while todo:
        env = todo.pop()
        n += 1
        if n > limit:
            return None
        E = Eval(S, env)
        try:
            ok = True
            for g in goals:
                if g(E) is False:
                    ok = False
                    break
            if ok:
                out.append(env)
        except Need as x:
            for o in x.options:
                todo.append({**env, x.key: o})
        except Infeasible:
            pass
    return out


def isnode(t):
    return strip_type(t) in ("pugi::xml_node", "pugi::xml_document", "pugi::xml_node_struct") or "pugi::xml_node" in t


def string_enum(P, f):
    return short(strip_type(f.get("ret") or "")) in P.enums and len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"] or \
        short(strip_type(f.get("ret") or "")) in P.enums and len(f["params"]) == 1 and "char *" in f["params"][0]["t"]


class Reader:
    """every function that reads the document, in every place it can be called with"""

    def __init__(self, P):
        self.P = P
        self.S = Schema(P.repo)
        self.runs, self.seen = {}, {}
        self.visits = []          # (function, event, facts, environments)
        self.incomplete = []

    def inline(self, k, f):
        return bool(f.get("lambda")) or isnode(f.get("ret") or "") or string_enum(self.P, f)

    def get(self, k):
        if k not in self.runs:
            r = Run(self.P, k, inline=self.inline)
            F = Flow(r)
            pairs = {}

            def delta(q, e, facts):
                pairs.setdefault((id(e), frozenset(facts.items())), (e, dict(facts)))
                return None if e.kind == "throw" else q
            ends = F.explore(0, delta)
            # an event met under several sets of facts: drop the ones that say more than another
            by = {}
            for (i, fs), (e, facts) in pairs.items():
                by.setdefault(i, []).append((fs, e, facts))
            keep = []
            for i, l in by.items():
                l.sort(key=lambda x: len(x[0]))
                got = []
                for fs, e, facts in l:
                    if not any(g <= fs for g in got):
                        got.append(fs)
                        keep.append((e, facts))
            self.runs[k] = (r, keep, [dict(d) for _, d in ends])
        return self.runs[k]

    def start(self):
        P = self.P
        for k, f in sorted(P.fns.items()):
            if not any(isnode(p["t"]) for p in f["params"]) and not f.get("lambda") and any(n.get("q", "").startswith("pugi::xml_node::") or n["k"] == "MemberExpr" and isnode(n.get("ft") or "") for n in f["nodes"].values()):
                if isnode(f.get("ret") or "") or (f.get("ctor") and any(strip_type(x["t"]) == "pugi::xml_document" for x in (P.recs.get(f["cls"]) or {"fields": ()})["fields"])):
                    continue
                self.visit(k, {})
        return self

    def consistent(self, facts):
        def g(E):
            for c, pol in facts.items():
                try:
                    v = E.value(c)
                except Unknown:
                    continue
                if bool(v) is not bool(pol):
                    return False
            return True
        return g

    def nodeterm(self, t):
        """does the term denote a node"""
        if not isinstance(t, T):
            return False
        if t.op == "call":
            return t.args[0].startswith("pugi::") and last(t.args[0]) in ("child", "first_child", "last_child", "parent", "root", "find_child_by_attribute", "select_node", "node", "next_sibling", "document_element", "first_element_by_path", "previous_sibling", "find_child")
        if t.op == "elem":
            return self.nodeterm(t.args[0]) or t.args[0] in self.cur
        if t.op == "ite":
            return self.nodeterm(t.args[1]) or self.nodeterm(t.args[2])
        if t.op == "fld":
            return t.args[1].rstrip("&") == "root" and isinstance(t.args[0], T)
        return t in self.cur

    def visit(self, k, ctx):
        key = (k, frozenset(ctx.items()))
        if key in self.seen:
            return
        self.seen[key] = True
        P, f = self.P, self.P.fns[k]
        try:
            r, keep, ends = self.get(k)
        except AnalysisError as e:
            self.incomplete.append((k, str(e)))
            return
        self.cur = dict(ctx)
        todo = []
        for e, facts in keep:
            base = self.consistent(facts)
            if e.kind in ("ext", "call", "make", "throw", "enter", "init", "ret", "out", "store"):
                self.cur = dict(ctx)
                this = r.c(e.extra) if isinstance(e.extra, T) else None
                args = [r.c(a) if isinstance(a, T) else a for a in (e.args or ())]
                goals = [base]
                nodes = [a for a in args if self.nodeterm(a)]
                if this is not None and (self.nodeterm(this) or e.kind == "ext" and (e.name or "").startswith("pugi::xml_node::")):
                    goals.append(lambda E, t=this: (E.node(t), True)[1])
                for a in nodes:
                    goals.append(lambda E, t=a: (E.node(t), True)[1])
                relevant = nodes or len(goals) > 1 or e.kind in ("make", "throw", "call", "enter")
                if not relevant:
                    continue
                envs = assignments(self.S, ctx, goals)
                if envs is None:
                    self.incomplete.append((k, "too many places"))
                    continue
                self.visits.append((k, ctx, r, e, facts, this, args, envs))
                if e.kind == "call":
                    for t in self.callees(e):
                        g = P.fns[t]
                        ps = g["params"]
                        if not any(isnode(p["t"]) for p in ps):
                            continue
                        for env in envs:
                            E = Eval(self.S, env)
                            c2 = {}
                            for i, p in enumerate(ps):
                                if isnode(p["t"]) and i < len(args) and isinstance(args[i], T):
                                    c2[T("var", p["name"], "param", i)] = E.node(args[i])
                            todo.append((t, c2))
                elif e.kind in ("ext", "make") and nodes and e.kind == "ext":
                    n = e.node
                    for t in sorted(made_ctors(P, None, n)) if n is not None and last(e.name) in ("emplace_back", "emplace", "push_back", "make_optional", "make_unique", "make_shared", "emplace_front", "try_emplace") else ():
                        g = P.fns[t]
                        ps = g["params"]
                        want = [i for i, p in enumerate(ps) if isnode(p["t"])]
                        if len(want) != 1 or len(nodes) != 1 or not (len(ps) == len(args) or last(e.name) in ("emplace", "try_emplace") and len(ps) == 1):
                            continue
                        for env in envs:
                            E = Eval(self.S, env)
                            todo.append((t, {T("var", ps[want[0]]["name"], "param", want[0]): E.node(nodes[0])}))
        for t, c2 in todo:
            self.visit(t, c2)

    def callees(self, e):
        ks = e.this if isinstance(e.this, (list, tuple)) else None
        ks = ks or (e.extra if isinstance(e.extra, (list, tuple)) else None) or ()
        return [k for k in ks if isinstance(k, str) and k in self.P.fns]
