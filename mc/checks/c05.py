"""Strings and the life of the XML library."""
import re
from ..spec import *
from .c01 import owner_of

RULE = ("ownership: every string that the XML library allocates (transcode, replicate, and project functions handing on such a string) is followed to its owner: "
        "a smart pointer whose deleter gives it to XMLString::release, a class that releases it in its destructor and cannot be copied, or a local that is released once on "
        "every path with nothing in between that may throw; nothing else is ever released. Typestate: on every path of every function (implicit destructors and calls of functions that need "
        "the library included) the library is used only while a guard object (constructor initialises once, destructor terminates once, not copyable) or a balanced pair of calls keeps it initialised")
MINIMUM = 6

def name(P, k):
    f = P.fns[k]
    return "the function object in " + owner_of(P, k) if f.get("lambda") else short(f["q"])


ACQ = {"transcode", "replicate"}


def xq(n):
    """name of the library function a call resolves to"""
    q = n.get("q") or ""
    return re.sub(r"^xercesc[^:]*::", "", q) if q.startswith("xercesc") else None


def calls(n):
    return n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")


class Fn:
    def __init__(self, P, k):
        self.P, self.k, self.f = P, k, P.fns[k]
        self.n = self.f["nodes"]
        self.parents = {}
        for i, n in self.n.items():
            for o in n.get("ops") or ():
                if isinstance(o, int):
                    self.parents.setdefault(o, []).append(i)
        self.inits, self.fieldinits, self.vt = {}, {}, {}
        self.order = []
        for b in self.f["blocks"]:
            for j, e in enumerate(b["el"]):
                if "s" in e:
                    n = self.n[e["s"]]
                    if n["k"] == "DeclStmt":
                        for d in n["decls"]:
                            if d.get("op") is not None:
                                self.inits[d["op"]] = d
                            self.vt[d.get("var")] = d
                if e.get("init") and e.get("field") and e.get("op") is not None:
                    self.fieldinits[e["op"]] = e

    def strip(self, i):
        """through conversions that keep the pointer"""
        while True:
            n = self.n.get(i)
            if n is None:
                return i
            if n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "InitListExpr") and len(n["ops"]) == 1:
                i = n["ops"][0]
                continue
            return i

    def users(self, i):
        """nodes (or declarations) that receive the value of node i, through conversions"""
        out, todo, seen = [], [i], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.inits:
                out.append(("var", self.inits[x], x))
            if x in self.fieldinits:
                out.append(("field", self.fieldinits[x], x))
            for p in self.parents.get(x, ()):
                n = self.n[p]
                if self.strip(p) == self.strip(x) and p != x:
                    todo.append(p)
                elif n["k"] == "ConditionalOperator":
                    todo.append(p)
                elif n["k"] != "DeclStmt":
                    out.append(("node", n, p, x))
        return out

    def var(self, i):
        n = self.n.get(self.strip(i))
        return n.get("var") if n is not None and n["k"] == "DeclRefExpr" else None

    def addr(self, i):
        """variable or member whose address node i takes"""
        i = self.strip(i)
        n = self.n.get(i)
        if n is None or n["k"] != "UnaryOperator" or n.get("op") != "&":
            # std::addressof
            if n is None or not (n["k"] == "CallExpr" and last(n.get("q") or "") in ("addressof", "__addressof")):
                return None
        j = self.strip(n["ops"][0])
        m = self.n.get(j)
        if m is None:
            return None
        if m["k"] == "DeclRefExpr":
            return m.get("var")
        if m["k"] == "MemberExpr" and m.get("ops") and self.n[self.strip(m["ops"][0])]["k"] == "CXXThisExpr":
            return ("field", m["name"])
        return None


def smart(t):
    t = strip_type(t or "")
    return re.match(r"std::(unique_ptr|shared_ptr)\b", t)


def record_of_lambda(t):
    m = re.search(r"\(lambda at [^)]*?/([^/)]+:\d+:\d+)\)", t)
    return "lambda@" + m.group(1) if m else None


class Own:
    def __init__(self, P, C):
        self.P, self.C = P, C
        self.fn = {k: Fn(P, k) for k in P.fns}
        self.wrap = set()      # functions whose result the caller has to release
        self.eats = {}         # (function, parameter) -> releases what it is given
        self.allowed = set()   # release calls accounted for: (function, node)
        self.msgs = []

    def acquisition(self, n):
        q = xq(n)
        if n["k"] == "CallExpr" and q and q.startswith("XMLString::") and last(q) in ACQ and n["t"].rstrip().endswith("*"):
            return True
        return n["k"] in ("CallExpr", "CXXMemberCallExpr") and any(t in self.wrap for t in targets(self.P, n))

    def release(self, n):
        return n["k"] == "CallExpr" and xq(n) == "XMLString::release"

    # -- typestate of one place (variable or member) inside one function
    def once(self, k, place, start=None, held=True):
        """place is released exactly once on every path of k from element start (or the entry) on; list of complaints"""
        F = self.fn[k]
        f = F.f
        blocks = {b["id"]: b for b in f["blocks"]}
        bad, seen = set(), set()
        todo = [(f["entry"], 0, "held" if start is None and held else "none")]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            b, j, q = x
            els = blocks[b]["el"]
            stop = False
            while j < len(els):
                e = els[j]
                j += 1
                if "s" not in e:
                    continue
                i = e["s"]
                n = F.n[i]
                if start is not None and i == start:
                    if q == "held":
                        bad.add(("is overwritten before it is released", n.get("loc")))
                    q = "held"
                    continue
                if self.release(n) and F.addr(n["ops"][0]) == place:
                    self.allowed.add((k, i))
                    q = "released"
                    continue
                if n["k"] == "CXXThrowExpr":
                    if q == "held":
                        bad.add(("is not released when an exception is thrown", n.get("loc")))
                    stop = True
                    break
                if calls(n) and q == "held" and n.get("ops"):
                    # handed to an owner
                    hit = False
                    for a, o in enumerate(n["ops"]):
                        if isinstance(o, int) and F.var(o) == place and place is not None and self.takes(k, i, n, a, o) is True:
                            hit = True
                    if hit:
                        q = "owned"
                        continue
                if q == "held" and calls(n) and not n.get("nothrow") and not self.harmless(n):
                    bad.add(("is not released when %s throws" % (short(n.get("q") or "") or "a call"), n.get("loc")))
                if q == "held" and n["k"] == "BinaryOperator" and n.get("op") == "=" and F.var(n["ops"][0]) == place and isinstance(place, str):
                    bad.add(("is overwritten before it is released", n.get("loc")))
                if q == "released" and n["k"] == "DeclRefExpr" and n.get("var") == place and isinstance(place, str) and not self.onlyaddr(F, i):
                    bad.add(("is used after it was released", n.get("loc")))
                if n["k"] == "ReturnStmt" and q == "held" and n["ops"] and F.var(n["ops"][0]) == place and isinstance(place, str):
                    q = "returned"
                    self.newwrap.add(k)
            if stop:
                continue
            if b == f["exit"]:
                if q == "held":
                    bad.add(("is not released on some path", f.get("end")))
                continue
            for s in blocks[b]["su"]:
                if s is not None and s >= 0:
                    todo.append((s, 0, q))
        return bad

    def onlyaddr(self, F, i):
        todo, seen = [i], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for p in F.parents.get(x, ()):
                n = F.n[p]
                if n["k"] == "UnaryOperator" and n.get("op") == "&":
                    return True
                if n["k"] == "BinaryOperator" and n.get("op") == "=" and F.strip(n["ops"][0]) == i:
                    return True
                if F.strip(p) == i:
                    todo.append(p)
        return False

    def harmless(self, n):
        """calls that cannot raise although they do not say so"""
        q = xq(n)
        return q is not None and (q.startswith("XMLString::") and last(q) in ("stringLen", "equals", "release"))

    def deleters(self, F, ctor):
        """functions a smart pointer built by this construction hands its pointer to"""
        t = strip_type(ctor["t"])
        out = []
        if len(ctor["ops"]) > 1 and isinstance(ctor["ops"][1], int):
            o = F.strip(ctor["ops"][1])
            n = F.n[o]
            if n["k"] == "LambdaExpr":
                return list(self.P.lam.get(n["cls"], ()))
            if n["k"] == "DeclRefExpr" and n.get("fn"):
                return [n["fn"]] if n["fn"] in self.P.fns else []
            if n["k"] == "UnaryOperator" and F.n[F.strip(n["ops"][0])].get("fn") in self.P.fns:
                return [F.n[F.strip(n["ops"][0])]["fn"]]
            if n["k"] == "DeclRefExpr" and n.get("var") in F.vt:
                d = F.vt[n["var"]]
                c = record_of_lambda(d["t"])
                if c:
                    return list(self.P.lam.get(c, ()))
                if d.get("op") is not None:
                    m = F.n[F.strip(d["op"])]
                    if m.get("fn") in self.P.fns and m["k"] in ("DeclRefExpr", "LambdaExpr"):
                        return [m["fn"]]
                    if m["k"] == "UnaryOperator" and F.n[F.strip(m["ops"][0])].get("fn") in self.P.fns:
                        return [F.n[F.strip(m["ops"][0])]["fn"]]
            if n.get("cls") or n.get("t"):
                t = t + "," + strip_type(n.get("t") or "")
        c = record_of_lambda(t)
        if c:
            out += self.P.lam.get(c, ())
        m = re.match(r"std::(?:unique_ptr|shared_ptr)<.*?,\s*(?:const )?([\w:]+)\s*>?(?:,.*)?$", t)
        if m and m.group(1) in self.P.recs:
            out += self.P.byq.get(m.group(1) + "::operator()", [])
        return out

    def good_deleter(self, d):
        f = self.P.fns[d]
        if len(f["params"]) < 1:
            return "takes no pointer"
        v = f["params"][0]["var"]
        bad = self.once(d, v)
        return "; ".join("%s" % b[0] for b in sorted(bad, key=str)) or None

    def takes(self, k, i, n, a, x):
        """does the call n (argument a is the string) become its owner? True / complaint / None (does not)"""
        F = self.fn[k]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and smart(n["t"]):
            if a != 0:
                return None
            ds = self.deleters(F, n)
            if not ds:
                return "the smart pointer does not return it with XMLString::release"
            for d in ds:
                g = self.good_deleter(d)
                if g:
                    return "the deleter at src/%s does not release it once: it %s" % (self.P.fns[d]["loc"], g)
            return True
        if n["k"] == "CXXMemberCallExpr" and last(n.get("q") or "") == "reset" and smart(n.get("cls") or ""):
            t = strip_type(n["cls"])
            ds = self.deleters(F, {"t": t, "ops": []})
            if not ds:
                return "the smart pointer does not return it with XMLString::release"
            for d in ds:
                g = self.good_deleter(d)
                if g:
                    return "the deleter at src/%s does not release it once: it %s" % (self.P.fns[d]["loc"], g)
            return True
        ts = targets(self.P, n)
        if ts:
            for t in ts:
                g = self.P.fns[t]
                p = a - (1 if n["k"] == "CXXMemberCallExpr" and len(n["ops"]) == len(g["params"]) + 1 else 0)
                if not 0 <= p < len(g["params"]):
                    return None
                v = g["params"][p]["var"]
                # a function that keeps the pointer in a member of an owning class
                own = self.member_owner(t, v)
                if own is not None:
                    if own is not True:
                        return own
                    continue
                if not any(self.release(m) and self.fn[t].addr(m["ops"][0]) == v for m in g["nodes"].values()) and not any(
                        calls(m) and any(isinstance(o, int) and self.fn[t].var(o) == v and self.takes(t, j, m, b, o) is True for b, o in enumerate(m.get("ops") or ()))
                        for j, m in g["nodes"].items()):
                    return None
                bad = self.once(t, v)
                if bad:
                    return "in %s it %s" % (short(g["q"]), "; ".join(sorted(b[0] for b in bad)))
            return True
        return None

    def member_owner(self, ctor, v):
        """a constructor that stores its parameter v in a member of an owning class"""
        F = self.fn[ctor]
        for x, e in F.fieldinits.items():
            if F.var(x) == v:
                return self.owner_class(F.f["cls"], last(e["field"]), ctor)
        return None

    def owner_class(self, cls, field, ctor):
        P = self.P
        r = P.recs.get(cls)
        if r is None:
            return "its owner is not a class of the project"
        fl = [x for x in r["fields"] if x["name"] == field]
        if fl and smart(fl[0]["t"]):
            ds = self.deleters(self.fn[ctor], {"t": fl[0]["t"], "ops": []})
            bad = [g for g in map(self.good_deleter, ds) if g]
            return True if ds and not bad else "the smart pointer it is kept in does not return it with XMLString::release"
        dt = [k for k, f in P.fns.items() if f.get("dtor") and f.get("cls") == cls]
        if not dt:
            return "class %s has no destructor that releases it" % cls
        bad = self.once(dt[0], ("field", field))
        if bad:
            return "in the destructor of %s it %s" % (cls, "; ".join(sorted(b[0] for b in bad)))
        if copyable(P, cls):
            return "class %s can be copied, so that it would be released twice" % cls
        # the destructor does not run when the constructor itself throws
        g = P.fns[ctor]
        risky = [n for n in g["nodes"].values() if n["k"] == "CXXThrowExpr" or calls(n) and not n.get("nothrow") and not self.acquisition(n) and not self.harmless(n)]
        if risky:
            return "the constructor of %s may throw while it holds it" % cls
        return True

    def run(self):
        P, C = self.P, self.C
        for _ in range(6):
            self.newwrap = set()
            self.allowed = set()
            obs = []
            for k in sorted(P.fns):
                F = self.fn[k]
                for i, n in sorted(F.n.items()):
                    if self.acquisition(n):
                        obs.append((k, i, n, self.site(k, i, n)))
                    if n["k"] == "CXXMemberCallExpr" and last(n.get("q") or "") == "release" and smart(n.get("cls") or "") and self.owns(n["cls"]):
                        obs.append((k, i, n, self.site(k, i, n)))
            if self.newwrap <= self.wrap:
                break
            self.wrap |= self.newwrap
        # deleters and destructors account for their own release calls
        for k in sorted(P.fns):
            f = P.fns[k]
            if f.get("lambda") and self.is_deleter(k) and f["params"]:
                self.once(k, f["params"][0]["var"])
        for k, i, n, bad in obs:
            C.count("strings obtained from the library")
            C.ob(not bad, "string from %s in %s" % (last(n.get("q") or ""), name(P, k)), where(P.fns[k], n),
                 bad or "its owner releases it exactly once on every path")
        for k in sorted(P.fns):
            for i, n in sorted(self.fn[k].n.items()):
                if self.release(n):
                    C.count("release calls")
                    C.ob((k, i) in self.allowed, "release in %s" % name(P, k), where(P.fns[k], n),
                         "what is released here is owned here" if (k, i) in self.allowed else "this releases a string that is not owned here (it is released elsewhere, or never came from the library)")

    def owns(self, t):
        return any(self.is_deleter(d) for d in self.deleters(None, {"t": t, "ops": []}))

    def is_deleter(self, d):
        return any(self.release(m) for m in self.P.fns[d]["nodes"].values())

    def site(self, k, i, n):
        F = self.fn[k]
        us = F.users(i)
        if not us:
            return "the string is dropped without being released"
        out = []
        for u in us:
            if u[0] == "var":
                d = u[1]
                if d.get("static"):
                    continue
                v = d["var"]
                bad = self.once(k, v, start=u[2])
                # the value reaches the variable with the declaration
                bad = self.once(k, v, start=i) if bad else bad
                out += ["the string held by '%s' %s" % (d["name"], b[0]) for b in sorted(bad, key=str)]
            elif u[0] == "field":
                own = self.owner_class(F.f["cls"], last(u[1]["field"]), k)
                if own is not True:
                    out.append(own)
            else:
                _, m, p, x = u
                if m["k"] == "ReturnStmt":
                    self.newwrap.add(k)
                elif m["k"] == "BinaryOperator" and m.get("op") == "=" and F.var(m["ops"][0]):
                    v = F.var(m["ops"][0])
                    bad = self.once(k, v, start=p)
                    out += ["the string %s" % b[0] for b in sorted(bad, key=str)]
                elif m["k"] == "BinaryOperator" and m.get("op") in ("==", "!=") or m["k"] in ("UnaryOperator",):
                    out.append("the string is dropped without being released")
                elif calls(m):
                    a = [b for b, o in enumerate(m["ops"]) if isinstance(o, int) and F.strip(o) == F.strip(x)]
                    g = self.takes(k, p, m, a[0], x) if a else None
                    if g is None:
                        g = "the string is handed to %s, which does not release it" % (short(m.get("q") or "") or "a function")
                    if g is not True:
                        out.append(g)
                else:
                    out.append("the string is dropped without being released")
        return "; ".join(sorted(set(out))) or None


def copyable(P, cls):
    r = P.recs[cls]
    for m in r["methods"]:
        if m.get("ctor") and m["key"].split("#", 1)[-1].startswith(("&1$@S@%s#" % cls.split("::")[-1], "&1S0_", "&1$@")) and cls.split("::")[-1] in m["key"].split("#", 1)[-1] and not m["deleted"]:
            return True
    # no copy constructor seen at all: a move operation or a member suppresses it, otherwise it exists
    if not any(m.get("ctor") and "&1" in m["key"].split("#", 1)[-1] for m in r["methods"]):
        return not any(m.get("ctor") and m["key"].split("#", 1)[-1].startswith("&&") for m in r["methods"])
    return False


# ------------------------------------------------------------ initialised

def is_x(P, t):
    """is an object of this type one of the library's, or built on one"""
    t = strip_type(t or "")
    if t.endswith("*") or t.endswith("&"):
        return False
    if t.startswith("xercesc"):
        return True
    if t in P.recs:
        return any(is_x(P, b) for b in P.recs[t]["bases"]) or any(is_x(P, f["t"]) for f in P.recs[t]["fields"])
    m = smart(t)
    if m:
        inner = re.match(r"std::\w+<(.*)>$", t)
        return bool(inner) and is_x(P, split_targs(inner.group(1))[0])
    return False


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        cur += ch
    return out + [cur.strip()]


def once_only(f):
    """nodes that run for the first caller only: initialisers of static locals"""
    out, todo = set(), []
    for n in f["nodes"].values():
        if n["k"] == "DeclStmt":
            todo += [d["op"] for d in n["decls"] if d.get("static") and d.get("op") is not None]
    while todo:
        i = todo.pop()
        if i in out or i not in f["nodes"]:
            continue
        out.add(i)
        todo += [o for o in f["nodes"][i].get("ops") or () if isinstance(o, int)]
    return out


def path_counts(P, k, pred, stack=()):
    """possible numbers of matching elements on the paths of k and of what it calls (2 means more than one)"""
    f = P.fns[k]
    blocks = {b["id"]: b for b in f["blocks"]}
    out, seen, todo = set(), set(), [(f["entry"], (0,))]
    rare = once_only(f)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        b, cs = x
        dead = False
        for e in blocks[b]["el"]:
            if "s" in e:
                n = f["nodes"][e["s"]]
                more = {1} if pred(n) else {0}
                if calls(n) and k not in stack and len(stack) < 4:
                    ts = [t for t in targets(P, n) if t in P.fns and t != k and P.fns[t].get("cls") in (None, "", f.get("cls")) ]
                    ts = [t for t in ts if not P.fns[t].get("ctor") or f.get("ctor")]
                    if ts:
                        more = {m for t in ts for m in path_counts(P, t, pred, stack + (k,))} or {0}
                if e["s"] in rare:
                    more |= {0}
                cs = tuple(sorted({min(2, c + m) for c in cs for m in more}))
                if n["k"] == "CXXThrowExpr":
                    dead = True
        if dead:
            continue
        if b == f["exit"]:
            out |= set(cs)
        for s in blocks[b]["su"]:
            if s is not None and s >= 0:
                todo.append((s, cs))
    return out


def initq(n):
    return xq(n) == "XMLPlatformUtils::Initialize" and n["k"] == "CallExpr"


def termq(n):
    return xq(n) == "XMLPlatformUtils::Terminate" and n["k"] == "CallExpr"


def guards(P, C):
    """classes whose life time is the life time of the library"""
    out = {}
    for c, r in sorted(P.recs.items()):
        ct = [k for k, f in P.fns.items() if f.get("ctor") and f.get("cls") == c]
        dt = [k for k, f in P.fns.items() if f.get("dtor") and f.get("cls") == c]
        has = any(path_counts(P, k, lambda n: initq(n) or termq(n)) - {0} for k in ct + dt if P.fns[k].get("blocks"))
        if not has:
            continue
        bad = []
        for k in ct:
            pc = path_counts(P, k, initq)
            if pc != {1}:
                bad.append("a constructor does not initialise the library exactly once on every path")
            if path_counts(P, k, termq) - {0}:
                bad.append("a constructor terminates the library")
        if not ct:
            bad.append("no constructor initialises the library")
        if not dt or path_counts(P, dt[0], termq) != {1} or path_counts(P, dt[0], initq) - {0}:
            bad.append("the destructor does not terminate the library exactly once on every path")
        if copyable(P, c):
            bad.append("it can be copied, after which the library is terminated more often than initialised")
        out[c] = bad
    return out


def guard_of(P, G, t):
    """does an object of this type keep the library initialised"""
    t = strip_type(t or "")
    if t.endswith("*") or t.endswith("&"):
        return False
    if t in G:
        return True
    m = smart(t) or re.match(r"std::optional\b", t)
    if m:
        inner = re.match(r"std::\w+<(.*)>$", t)
        return bool(inner) and guard_of(P, G, split_targs(inner.group(1))[0])
    if t in P.recs:
        return any(guard_of(P, G, b) for b in P.recs[t]["bases"]) or any(guard_of(P, G, f["t"]) for f in P.recs[t]["fields"] if not f["t"].startswith("static"))
    return False


class Init:
    def __init__(self, P, C, G):
        self.P, self.C, self.G = P, C, G
        self.needs = {}       # function -> list of (loc, what) used while not initialised
        self.own = Own(P, C)

    def start(self, k):
        f = self.P.fns[k]
        if self.globalguard:
            return 1
        c = f.get("cls")
        if c in self.P.recs and not f.get("ctor") and not f.get("static") and guard_of(self.P, self.G, c) and c not in self.G:
            return 1
        return 0

    def use(self, n):
        """what of the library this node uses, calls of functions that need it included"""
        P = self.P
        if not calls(n) and n["k"] not in ("LambdaExpr", "CXXNewExpr", "CXXDeleteExpr"):
            return None
        if initq(n) or termq(n):
            return None
        q = n.get("q") or ""
        if calls(n) and q.startswith("xercesc"):
            # passing a library object by value into an exception etc. counts as well
            return short(q)
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_x(P, n["t"]):
            return "an object of type " + short(strip_type(n["t"]))
        if n["k"] == "LambdaExpr":
            for t in P.lam.get(n["cls"], ()):
                if t in self.needs:
                    return "a function object that uses it"
            return None
        if calls(n):
            if last(q) in ("make_unique", "make_shared", "make_optional") and is_x(P, n["t"]):
                return "an object of type " + short(strip_type(n["t"]))
            made = made_ctors(P, None, n) if last(q) in ("make_unique", "make_shared", "make_optional", "emplace_back", "emplace", "push_back", "emplace_front") else ()
            for t in list(targets(P, n)) + list(made):
                if t in self.needs:
                    return short(P.fns[t]["q"])
        return None

    def part(self, k):
        """k is called by constructors and destructors of its own class only"""
        P, c = self.P, self.P.fns[k]["cls"]
        by = [g for g, f in P.fns.items() for n in f["nodes"].values() if calls(n) and k in targets(P, n)]
        return bool(by) and all(P.fns[g].get("cls") == c and (P.fns[g].get("ctor") or P.fns[g].get("dtor")) for g in by)

    def dtor_use(self, e):
        t = e.get("t") or ""
        if is_x(self.P, t):
            return "the destructor of '%s'" % e.get("name")
        for m in (self.P.recs.get(strip_type(t)) or {"methods": ()})["methods"]:
            if m["name"].startswith("~") and m["key"] in self.needs:
                return "the destructor of '%s'" % e.get("name")
        c = record_of_lambda(t)
        if smart(t):
            ds = list(self.P.lam.get(c, ())) if c else self.own.deleters(None, {"t": t, "ops": []})
            if any(d in self.needs for d in ds):
                return "the destructor of '%s'" % e.get("name")
        return None

    def analyse(self, k):
        """[(loc, what)] used uninitialised, [(loc, message)] broken pairs"""
        P, f = self.P, self.P.fns[k]
        F = self.own.fn[k]
        blocks = {b["id"]: b for b in f["blocks"]}
        uses, bad, seen = {}, set(), set()
        inclass = f.get("cls") in self.G and (f.get("ctor") or f.get("dtor") or self.part(k))
        todo = [(f["entry"], frozenset(), 0)]
        s0 = self.start(k)
        guardvars = {d["op"]: d for d in F.inits.values() if guard_of(P, self.G, d["t"]) and d.get("op") is not None}
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 20000:
                raise AnalysisError("too many states in " + f["q"])
            b, alive, raw = x
            dead = False
            for e in blocks[b]["el"]:
                on = s0 or alive or raw
                if e.get("init") and e.get("field"):
                    fl = P.fields.get((f.get("cls"), last(e["field"])))
                    if fl and guard_of(P, self.G, fl["t"]):
                        alive = alive | {"this." + last(e["field"])}
                    elif fl and is_x(P, fl["t"]) and not on:
                        uses.setdefault((f["loc"], "member " + e["field"]), None)
                    continue
                if "dtor" in e:
                    if e["dtor"] in alive:
                        alive = alive - {e["dtor"]}
                        continue
                    u = self.dtor_use(e)
                    if u and not on:
                        uses.setdefault((f.get("end") or f["loc"], u), None)
                    continue
                if "s" not in e:
                    continue
                n = f["nodes"][e["s"]]
                for t in f["tries"]:
                    if e["s"] in t["stmts"]:
                        inner = {d["var"] for i in t["stmts"] if f["nodes"].get(i, {}).get("k") == "DeclStmt" for d in f["nodes"][i]["decls"]}
                        for h in t["handlers"]:
                            for hb in blocks.values():
                                if hb.get("catch") == h["t"]:
                                    todo.append((hb["id"], alive - inner, 0))
                if initq(n) and not inclass:
                    raw = min(raw + 1, 3)
                    continue
                if termq(n) and not inclass:
                    if not raw:
                        bad.add((n.get("loc"), "the library is terminated more often than it was initialised"))
                    raw = max(0, raw - 1)
                    continue
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if guard_of(P, self.G, d["t"]):
                            alive = alive | {d["var"]}
                    continue
                if n["k"] == "CXXMemberCallExpr" and last(n.get("q") or "") in ("reset", "release") and smart(n.get("cls") or "") and guard_of(P, self.G, n["cls"]):
                    v = F.var(n["ops"][0])
                    if v in alive:
                        alive = alive - {v}
                        on = s0 or alive or raw
                    continue
                u = self.use(n)
                if u and not on:
                    uses.setdefault((n.get("loc"), u), None)
                if raw and not alive and not s0:
                    if n["k"] == "CXXThrowExpr":
                        bad.add((n.get("loc"), "the library stays initialised when this exception is thrown"))
                    elif calls(n) and not n.get("nothrow") and not self.own.harmless(n):
                        bad.add((n.get("loc"), "the library stays initialised when %s throws" % (short(n.get("q") or "") or "this call")))
                if n["k"] == "CXXThrowExpr":
                    if is_x(P, n.get("tt") or ""):
                        uses.setdefault((n.get("loc"), "an exception object of the library leaves the function"), None) if not s0 else None
                    dead = True
                if n["k"] == "ReturnStmt" and alive and re.search(r"\bxercesc", f.get("ret") or ""):
                    bad.add((n.get("loc"), "an object of the library is returned although the library is terminated here"))
            if dead:
                continue
            if b == f["exit"]:
                if raw and not inclass:
                    bad.add((f.get("end"), "the library is not terminated on some path"))
                continue
            for s in blocks[b]["su"]:
                if s is not None and s >= 0:
                    todo.append((s, alive, raw))
        return uses, bad

    def run(self):
        P, C, G = self.P, self.C, self.G
        self.globalguard = any(guard_of(P, G, v.get("t")) and "::" not in (v.get("fn") or "") for v in P.vars.values() if v.get("t"))
        # only functions that can matter: those using the library, and their callers
        cg = callgraph(P)
        rel = set()
        for k, f in P.fns.items():
            if any((n.get("q") or "").startswith("xercesc") and calls(n) or n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (is_x(P, n["t"]) or guard_of(P, G, n["t"])) for n in f["nodes"].values()):
                rel.add(k)
        direct = set(rel)
        rev = {}
        for k, ts in cg.items():
            for t in ts:
                rev.setdefault(t, set()).add(k)
        todo = list(rel)
        while todo:
            x = todo.pop()
            for c in rev.get(x, ()):
                if c not in rel:
                    rel.add(c)
                    todo.append(c)
        pairs, res = {}, {}
        changed = True
        while changed:
            changed = False
            for k in sorted(rel):
                uses, bad = self.analyse(k)
                pairs[k] = bad
                res[k] = uses
                if uses and not self.callback(k) and k not in self.needs:
                    self.needs[k] = uses
                    changed = True
        for k in sorted(direct):
            f = P.fns[k]
            q = name(P, k)
            if f.get("implicit"):
                continue
            C.count("functions that use the library")
            chain = self.to_root(k, rev) if k in self.needs else None
            u = sorted(res[k], key=str)
            C.ob(not chain, "%s uses the library while it is initialised" % q, where(f),
                 ("%s is used at src/%s although nothing has initialised the library there or it is terminated already; reached through %s" % (u[0][1], u[0][0], " <- ".join(chain))) if chain
                 else "every use lies in the life of a guard, or every caller provides one")
        for k in sorted(rel):
            for l, m in sorted(pairs[k], key=str):
                C.ob(False, "initialisation and termination in %s" % name(P, k), "src/%s" % l, m)
        C.count("functions followed", len(rel))

    def callback(self, k):
        """the library itself calls it"""
        f = self.P.fns[k]
        return any("xercesc" in o for o in f.get("overrides") or ())

    def to_root(self, k, rev):
        """call chain from k up to a function that nobody calls, every member needing the library"""
        todo, seen = [(k, (short(self.P.fns[k]["q"]),))], {k}
        while todo:
            x, ch = todo.pop(0)
            cs = [c for c in rev.get(x, ()) if not self.P.fns[c].get("implicit")]
            if not cs or x.endswith("@F@main#") or self.P.fns[x]["name"] == "main":
                # destructors and deleters run where the objects they belong to end
                if self.P.fns[x].get("implicit") or self.P.fns[x].get("lambda") or self.P.fns[x].get("dtor") or self.own.is_deleter(x):
                    continue
                return ch
            for c in cs:
                if c in self.needs and c not in seen and not self.callback(c):
                    seen.add(c)
                    todo.append((c, ch + (short(self.P.fns[c]["q"]),)))
        return None


def run(P, C):
    Own(P, C).run()
    G = guards(P, C)
    for c, bad in sorted(G.items()):
        C.count("guard classes")
        C.ob(not bad, "guard %s" % c, "src/" + P.recs[c]["loc"], "; ".join(bad) or "initialises once when it is made, terminates once when it goes, cannot be copied")
    # pairs outside of guard classes are followed path by path
    I = Init(P, C, {c: b for c, b in G.items()})
    I.run()
    C.need(6, "uses of the XML library")
