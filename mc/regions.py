"""Which objects the code run by a worker may change: a points-to analysis with two regions.

A region is True if other threads may reach the object, False if it is the thread's own.  The value of an expression is
a triple (r0, r1, r2): the region of the object it denotes, of the objects that pointers stored in it lead to, and of
everything further.  Members and local variables of the thread's own objects have one such entry each; functions are
analysed once per combination of regions of their arguments, to a fixpoint over all of them."""
import re
from .lib import *
from .names import SCALARS

L = (False, False, False)
S = (True, True, True)

ATOMIC = ("std::atomic", "std::__atomic_base", "std::atomic_flag", "std::__atomic_float")
# library functions that only look at what the iterators, pointers and references they are given lead to
READERS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "data", "size", "empty", "at", "operator[]", "front", "back", "find", "lower_bound", "upper_bound", "equal_range", "count", "get", "value",
           "operator*", "operator->", "operator bool", "operator()", "has_value", "top", "str", "c_str", "length", "first", "second",
           "forward", "move", "next", "prev", "distance", "advance", "all_of", "any_of", "none_of", "find_if", "find_if_not", "count_if", "accumulate", "reduce", "transform_reduce", "inner_product",
           "for_each", "for_each_n", "visit", "min_element", "max_element", "minmax_element", "binary_search", "partition_point", "equal", "mismatch", "lexicographical_compare", "adjacent_find", "search", "is_sorted", "max", "min", "minmax", "clamp", "get_if",
           "holds_alternative", "addressof", "as_const", "make_pair", "make_tuple", "tie", "forward_as_tuple", "invoke", "apply", "ref", "cref", "make_unique", "make_shared", "make_optional", "operator==", "operator!=", "operator<", "operator>",
           "operator<=", "operator>=", "operator+", "operator-", "static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "back_inserter", "inserter", "make_move_iterator", "make_reverse_iterator", "base", "index", "to_string", "pow", "abs", "async", "generate_canonical"}
STREAM = ("basic_ostream", "basic_istream", "basic_iostream", "basic_ios", "ios_base")


def join(a, b):
    return (a[0] or b[0], a[1] or b[1], a[2] or b[2])


def norm(v):
    return S if v[0] else (v[0], v[1], v[1] and v[2] or v[2])


def deref(v):
    return S if v[1] else (v[1], v[2], v[2])


def addr(v):
    return (False, v[0], v[1] or v[2])


def copy(v):
    return (False, v[1], v[2])


SCAL = SCALARS | {"unsigned long", "signed char", "wchar_t", "char16_t", "char32_t", "__int128", "std::size_t", "size_t"}


def carries(P, t, seen=()):
    """a value of this type may hold pointers or references"""
    if not t:
        return True
    if is_ptr(t) or is_ref(t):
        return True
    t = strip_type(t)
    if t in SCAL or t in P.enums or t == "void":
        return False
    if t in seen:
        return False
    m = (P, t)
    c = P.__dict__.setdefault("_carries", {})
    if t in c:
        return c[t]
    r = True
    if t in P.recs:
        rec = P.recs[t]
        r = any(carries(P, fl["t"], seen + (t,)) for fl in rec["fields"]) or any(carries(P, b, seen + (t,)) for b in rec["bases"])
    elif t.startswith(("std::", "__gnu_cxx::")) and t.split("<")[0].split("::")[-1] in ("vector", "list", "deque", "set", "map", "multimap", "multiset", "unordered_map", "unordered_set", "array", "pair", "tuple", "variant", "optional", "basic_string", "complex"):
        args = [a for a in template_args(t) if not a.split("<")[0].split("::")[-1] in ("allocator", "less", "greater", "char_traits", "hash", "equal_to") and not re.match(r"^\d+[UL]*$", a)]
        args = [a for a in args if not (a in P.recs and any(m["name"] == "operator()" for m in P.recs[a]["methods"]))]
        r = any(carries(P, a, seen + (t,)) for a in args)
    elif t.startswith("std::") and ("_distribution" in t or "_engine" in t):
        r = False
    if not seen:
        c[t] = r
    return r


def pointerlike(t):
    t = strip_type(t)
    return is_ptr(t) or "_ptr<" in t.split("(")[0][:40] or re_iter(t) or "reference_wrapper" in t[:30]


def re_iter(t):
    t = t.split("<")[0]
    return "iterator" in t.lower()


class Ctx:
    def __init__(self, key, this, args, parent=None):
        self.key, self.this, self.args, self.parent = key, this, args, parent
        self.env = parent.env if parent is not None else {}
        self.ret = L


class Regions:
    def __init__(self, P):
        self.P = P
        self.pt = {}            # member -> entry
        self.ctxs = {}
        self.bad = {}           # (function, node) -> text
        self.changed = False
        self.n = {"writes": 0, "calls": 0, "library calls": 0, "reads of shared objects": 0}
        self.spawned = []
        self.unknown = {}
        self.lamctx = {}        # closure -> functions in context that create it

    # -- driver
    def run(self, roots):
        """roots: (key, this, args)"""
        self.rounds = 0
        while True:
            self.changed = False
            self.rounds += 1
            self.done = set()
            for k in self.n:
                self.n[k] = 0
            self.seen_writes = set()
            for key, this, args in roots:
                self.call(key, this, args)
            if not self.changed:
                return
            if self.rounds > 60:
                raise AnalysisError("region analysis does not converge")

    def call(self, key, this, args, parent=None):
        f = self.P.fns[key]
        args = list(args)[:len(f["params"])] if f["params"] else []
        vals = []
        for i, p in enumerate(f["params"]):
            a = args[i] if i < len(args) else L
            vals.append(norm(a) if is_ref(p["t"]) else self.value(norm(a), p["t"]))
        ck = (key, this, tuple(vals), id(parent.env) if parent is not None else None)
        c = self.ctxs.get(ck)
        if c is None:
            c = self.ctxs[ck] = Ctx(key, this, vals, parent)
            self.changed = True
        if ck in self.done:
            return c.ret
        self.done.add(ck)
        for p, v in zip(f["params"], vals):
            self.setenv(c, p["var"], v)
        self.body(c, f)
        return c.ret

    def value(self, v, t):
        return copy(v) if carries(self.P, t) else L

    def setenv(self, c, var, v):
        o = c.env.get(var)
        n = v if o is None else join(o, v)
        if n != o:
            c.env[var] = n
            self.changed = True

    def setpt(self, field, v):
        v = (False, v[1], v[2])
        o = self.pt.get(field, L)
        n = join(o, v)
        if n != o:
            self.pt[field] = n
            self.changed = True

    # -- function bodies
    def body(self, c, f):
        memo = {}
        for b in f["blocks"]:
            for e in b["el"]:
                if "s" in e:
                    self.ev(c, f, e["s"], memo)
                elif e.get("init"):
                    if e.get("op") is not None:
                        v = self.ev(c, f, e["op"], memo)
                        if e.get("field"):
                            self.setpt(e["field"], addr(v) if is_ref(e.get("ft", "")) else self.value(v, e.get("ft", "")))
                elif "dtor" in e:
                    cl = strip_type(e["t"])
                    v = c.env.get(e["dtor"], L)
                    self.destroy(cl, v)
        if (f.get("copyctor") or f.get("movector") or last(f["q"]) == "operator=") and c.args and f.get("implicit") and not f["nodes"]:
            self.memberwise(f["cls"], c.args[0])

    def destroy(self, cl, v):
        if cl in self.P.recs:
            for m in self.P.recs[cl]["methods"]:
                if m["name"].startswith("~") and m["key"] in self.P.fns:
                    self.call(m["key"], v, [])

    def memberwise(self, cls, src):
        """a member by member copy from src"""
        if not src[0]:
            return
        r = self.P.recs.get(cls)
        if not r:
            return
        for fl in r["fields"]:
            self.setpt("%s::%s" % (cls, fl["name"]), self.value(S, fl["t"]))
        for b in r["bases"]:
            self.memberwise(b, src)

    # -- expressions
    def ev(self, c, f, i, memo):
        if i is None:
            return L
        if i in memo:
            return memo[i]
        memo[i] = L
        v = norm(self.ev1(c, f, i, memo))
        n = f["nodes"][i]
        if not n.get("lv") and not v[0] and (v[1] or v[2]) and not carries(self.P, n.get("t", "")):
            v = L
        memo[i] = v
        return v

    def ev1(self, c, f, i, memo):
        n = f["nodes"][i]
        k = n["k"]
        ev = lambda j: self.ev(c, f, j, memo)
        ops = n["ops"]
        if k == "CXXThisExpr":
            return addr(c.this)
        if k == "DeclRefExpr":
            if n.get("binding") and ops:
                return ev(ops[0])
            if "var" in n:
                return self.variable(c, f, n)
            return L
        if k == "MemberExpr":
            b = ev(ops[0]) if ops else L
            if n.get("arrow"):
                b = deref(b)
            if n.get("field"):
                return self.member(b, n)
            if "var" in n or n.get("glob"):
                return self.variable(c, f, n)
            return b
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr", "BuiltinBitCastExpr"):
            v = ev(ops[0])
            if n.get("ck") == "LValueToRValue":
                return copy(v)
            if n.get("ck") == "ArrayToPointerDecay":
                return addr(v)
            return v
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "SubstNonTypeTemplateParmExpr", "OpaqueValueExpr"):
            return ev(ops[0]) if ops else L
        if k == "UnaryOperator":
            v = ev(ops[0])
            o = n["op"]
            if o == "*":
                return deref(v)
            if o == "&":
                return addr(v)
            if o in ("++", "--"):
                self.write(c, f, i, ops[0], v, "changes")
                return v
            return copy(v) if o not in ("__extension__",) else v
        if k in ("CompoundAssignOperator",) or k == "BinaryOperator" and n["op"] == "=":
            v = ev(ops[0])
            w = ev(ops[1])
            self.write(c, f, i, ops[0], v, "assigns to")
            self.store(c, f, ops[0], self.value(w, f["nodes"][ops[1]].get("t", "")), memo)
            return v
        if k == "BinaryOperator":
            a, b = ev(ops[0]), ev(ops[1])
            if n["op"] == ",":
                return b
            return join(copy(a), copy(b))
        if k == "ArraySubscriptExpr":
            return deref(join(ev(ops[0]), ev(ops[1])))
        if k == "ConditionalOperator":
            ev(ops[0])
            return join(ev(ops[1]), ev(ops[2]))
        if k == "DeclStmt":
            for d in n["decls"]:
                v = ev(d["op"]) if d.get("op") is not None else L
                if d.get("static"):
                    continue
                self.setenv(c, d["var"], v if is_ref(d["t"]) else self.value(v, d["t"]))
                if d.get("decomp"):
                    pass
            return L
        if k == "ReturnStmt":
            v = ev(ops[0]) if ops and ops[0] is not None else L
            g = self.P.fns[c.key]
            v = v if is_ref(g["ret"]) else self.value(v, g["ret"])
            n2 = join(c.ret, v)
            if n2 != c.ret:
                c.ret = n2
                self.changed = True
            return L
        if k == "InitListExpr":
            v = L
            for j, o in enumerate(ops):
                w = ev(o)
                v = join(v, copy(w))
                cls = strip_type(n.get("t", ""))
                r = self.P.recs.get(cls)
                if r and j < len(r["fields"]):
                    fl = r["fields"][j]
                    self.setpt("%s::%s" % (cls, fl["name"]), addr(w) if fl.get("ref") else self.value(w, fl["t"]))
            return v
        if k == "LambdaExpr":
            v = L
            for cp in n.get("caps", ()):
                if cp.get("op") is not None:
                    w = ev(cp["op"])
                    v = join(v, addr(w) if cp.get("byref") else copy(w))
                    if cp.get("init") and cp.get("var"):
                        self.setenv(c, cp["var"], w if cp.get("byref") else copy(w))
            for lk in self.P.lam.get(n["cls"], ()):
                self.lamctx.setdefault(lk, {})[id(c.env)] = c
            return v
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
            return self.callexpr(c, f, i, n, memo)
        if k == "CXXNewExpr":
            v = L
            for o in ops:
                v = join(v, copy(ev(o)))
            return (False, False, v[1] or v[2])
        if k == "CXXDeleteExpr":
            v = deref(ev(ops[0]))
            self.write(c, f, i, ops[0], v, "deletes")
            return L
        v = L
        for o in ops:
            if o is not None:
                v = join(v, copy(ev(o)))
        return v

    def variable(self, c, f, n):
        var = n["var"]
        g = self.P.vars.get(var)
        if g is not None or n.get("glob"):
            if g is not None and g.get("tls"):
                return L
            self.n["reads of shared objects"] += 1
            return S
        if var in c.env:
            return c.env[var]
        return L

    def member(self, b, n):
        if b[0]:
            self.n["reads of shared objects"] += 1
            return S
        p = self.pt.get(n["field"])
        if n.get("cls") not in self.P.recs and strip_type(n.get("cls") or "") not in self.P.recs:
            return b
        p = p or L
        if is_ref(n.get("ft", "")):
            return deref(p)
        return (False, p[1], p[2])

    def creators(self, k, c):
        """contexts whose variables a closure called by c refers to"""
        d = self.lamctx.get(k, {})
        if id(c.env) in d or not d:
            return [d.get(id(c.env), c)]
        return list(d.values())

    # -- effects
    def write(self, c, f, i, j, v, what):
        if (f["key"], i) not in self.seen_writes:
            self.seen_writes.add((f["key"], i))
            self.n["writes"] += 1
        if v[0]:
            n = f["nodes"][j]
            t = strip_type(n.get("t", ""))
            if t.startswith(ATOMIC):
                return
            self.bad.setdefault((f["key"], i), "%s %s" % (what, describe(f, j)))

    def store(self, c, f, j, v, memo, depth=0):
        """pointers stored somewhere inside the object j denotes"""
        if not (v[1] or v[2]) or depth > 12:
            return
        n = f["nodes"][j]
        k = n["k"]
        if k == "DeclRefExpr" and "var" in n:
            if n["var"] in c.env:
                self.setenv(c, n["var"], (False, v[1], v[2]))
                # what it refers to, if it is a reference
            return
        if k == "MemberExpr":
            if n.get("field") and strip_type(n.get("cls") or "") in self.P.recs:
                self.setpt(n["field"], v)
                return
        if k == "CXXThisExpr":
            return
        if k == "UnaryOperator" and n["op"] == "*" or k == "CXXOperatorCallExpr" and last(n.get("q", "")) in ("operator*", "operator->"):
            v = (False, v[1] or v[2], v[1] or v[2])
        for o in n["ops"]:
            if o is not None:
                self.store(c, f, o, v, memo, depth + 1)

    # -- calls
    def callexpr(self, c, f, i, n, memo):
        k = n["k"]
        ops = n["ops"]
        q = short(n.get("q", ""))
        nm = last(q)
        mem = "cmeth" in n and k in ("CXXMemberCallExpr", "CXXOperatorCallExpr")
        callee = None
        vals = [self.ev(c, f, o, memo) for o in ops]
        base = None
        if mem and ops:
            base = vals[0]
            bn = f["nodes"][ops[0]]
            if n.get("arrow"):
                base = deref(base)
            args, argn = vals[1:], ops[1:]
        else:
            args, argn = vals, ops
            if k == "CallExpr" and not n.get("fn"):
                args, argn = vals[1:], ops[1:]
        ts = targets(self.P, n)
        if n.get("fn") and k == "CXXOperatorCallExpr" and not mem and not ts:
            pass
        if ts:
            self.n["calls"] += 1
            out = None
            for t in ts:
                g = self.P.fns[t]
                this = base
                if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
                    this = L
                for par in self.creators(t, c) if g.get("lambda") else (None,):
                    r = self.call(t, this if this is not None and par is None else L, args, par)
                    out = r if out is None else join(out, r)
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                # the new object; what its members lead to is kept with the members
                return L
            if base is not None and not n.get("virt") and not is_ref(self.P.fns[ts[0]]["ret"]) and not pointerlike(self.P.fns[ts[0]]["ret"]):
                pass
            return out
        return self.library(c, f, i, n, q, nm, base, args, argn, mem, memo)

    def library(self, c, f, i, n, q, nm, base, args, argn, mem, memo):
        self.n["library calls"] += 1
        ops = n["ops"]
        k = n["k"]
        cls = strip_type(n.get("cls") or "")
        # closures and function objects handed to the library
        self.callbacks(c, f, n, args, argn, base)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if cls in self.P.recs:
                if n.get("copy") or n.get("move"):
                    self.memberwise(cls, args[0] if args else L)
                return L
            v = L
            for a, o in zip(args, argn):
                t = f["nodes"][o].get("t", "") if o is not None else ""
                v = join(v, copy(a))
                if "span" in cls or "reference_wrapper" in cls or "string_view" in cls:
                    v = join(v, addr(a))
            return v
        allv = L
        for a, o in zip(args, argn):
            allv = join(allv, self.value(a, f["nodes"][o].get("t", "")) if o is not None else copy(a))
        if mem and base is not None:
            atomic = cls.startswith(ATOMIC)
            stream = any(s in cls.split("<")[0] for s in STREAM)
            ptr = "_ptr" in cls.split("<")[0] or re_iter(cls) or "reference_wrapper" in cls
            if not n.get("cmeth") and not atomic and not stream:
                if nm not in READERS or nm == "operator[]" and "map<" in cls or nm == "operator()":
                    self.write(c, f, i, ops[0], base, "calls %s on" % short(q))
            self.n["writes"] += 0
            self.outargs(c, f, i, n, q, nm, args, argn)
            if ptr:
                if nm in ("operator*", "operator[]"):
                    return deref(base)
                if nm in ("operator->", "get", "lock"):
                    return copy(base)
                if nm in ("operator=", "reset", "operator+=", "swap"):
                    self.store(c, f, ops[0], allv, memo)
                    return base
                return copy(base) if not is_ref(n.get("t", "")) else base
            if not n.get("cmeth") and (allv[1] or allv[2]):
                self.store(c, f, ops[0], allv, memo)
            rt = n.get("t", "")
            if nm == "operator->" or (pointerlike(rt) or "iterator" in rt[:60]) and not n.get("lv"):
                v = addr(base)
                return v if nm != "get" or "future" not in cls else copy(base)
            if n.get("lv"):
                return base
            return join(copy(base), L)
        # free functions
        if any(s in strip_type((n.get("pt") or [""])[0]).split("<")[0] for s in STREAM):
            if not isglobalstream(f, argn) and args and args[0][0]:
                self.bad.setdefault((f["key"], i), "writes to the shared stream %s" % describe(f, argn[0]))
            return args[0] if args else L
        self.outargs(c, f, i, n, q, nm, args, argn)
        if nm in ("make_unique", "make_shared", "make_optional", "allocate_shared"):
            # an object of its own
            inner = L
            for cc in made_classes(self.P, n):
                ms = made_ctors(self.P, f, n)
                for m in ms:
                    self.call(m, L, args)
                if not ms and args and len(args) == 1 and is_subclass(self.P, strip_type((n.get("pt") or [""])[0]), cc):
                    self.memberwise(cc, args[0])
                return L
            return (False, False, allv[1] or allv[2])
        if nm in ("ref", "cref", "addressof", "get_if"):
            return addr(args[0]) if args else L
        if nm in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "data") and len(args) == 1:
            return addr(args[0])
        if nm in ("forward", "move", "get", "as_const", "max", "min", "clamp") and n.get("lv") or nm in ("forward", "move"):
            v = L
            for a in args:
                v = join(v, a)
            return v
        v = L
        for a in args:
            v = join(v, a)
        if n.get("lv"):
            return v
        return copy(v)

    def outargs(self, c, f, i, n, q, nm, args, argn):
        """arguments a library function may change"""
        pts = n.get("pt") or []
        for j, (a, o) in enumerate(zip(args, argn)):
            t = pts[j] if j < len(pts) else ""
            if nm in READERS and nm not in ("operator()", "advance", "generate_canonical"):
                continue
            if is_ref(t) and not is_const_obj(t) and a[0]:
                if o is not None and f["nodes"][o].get("t", "").startswith("const "):
                    continue
                if not (t.rstrip().endswith("&&") and not f["nodes"][o].get("lv")):
                    self.bad.setdefault((f["key"], i), "lets %s change %s" % (short(q), describe(f, o)))
            elif is_ptr(t) and not strip_const_ptr(t) and a[1] and not isfn(t):
                self.bad.setdefault((f["key"], i), "lets %s change what %s points to" % (short(q), describe(f, o)))
            elif re_iter(strip_type(t)) and "const_iterator" not in t and a[1] and q.startswith("std::") and nm not in ("upper_bound", "lower_bound") and not constit(t):
                self.bad.setdefault((f["key"], i), "lets %s change what %s leads to" % (short(q), describe(f, o)))

    def callbacks(self, c, f, n, args, argn, base):
        v = L
        for a, o in zip(args, argn):
            cl = classof(f, o) if o is not None else None
            if cl and (cl in self.P.lam or cl in self.P.recs and any(m["name"] == "operator()" for m in self.P.recs[cl]["methods"])):
                continue
            v = join(v, join(a, deref(a)))
        if base is not None:
            v = join(v, base)
        for a, o in zip(args, argn):
            if o is None:
                continue
            cl = classof(f, o)
            ks = [k for k in self.P.lam.get(cl, ())] if cl else []
            if not ks and cl in self.P.recs:
                ks = [m["key"] for m in self.P.recs[cl]["methods"] if m["name"] == "operator()" and m["key"] in self.P.fns]
                for k in ks:
                    self.call(k, a, [v] * 4)
                continue
            for k in ks:
                for d in self.creators(k, c):
                    self.call(k, L, [v] * 4, d)
        # comparators of the containers
        for cl in comparators(self.P, n.get("cls") or ""):
            for m in self.P.recs[cl]["methods"]:
                if m["name"] == "operator()" and m["key"] in self.P.fns:
                    self.call(m["key"], S if base and base[0] else L, [S, S])


def classof(f, o):
    """class of the object an argument denotes, closures by the name of their lambda"""
    for _ in range(12):
        n = f["nodes"][o]
        if n["k"] == "LambdaExpr":
            return n["cls"]
        t = strip_type(n.get("t", ""))
        if n["k"] == "DeclRefExpr" and ("lambda" in t):
            # a closure kept in a variable
            for m in f["nodes"].values():
                if m["k"] == "DeclStmt":
                    for d in m["decls"]:
                        if d["var"] == n.get("var") and d.get("op") is not None:
                            return classof(f, d["op"])
            return None
        if n["ops"] and n["k"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ParenExpr", "CXXConstructExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and len(n["ops"]) == 1:
            if t and "lambda" not in t and n["k"] != "CXXConstructExpr" and "function<" not in t:
                c = classof(f, n["ops"][0])
                return c or t
            o = n["ops"][0]
            continue
        return t
    return None


def comparators(P, cls):
    return [a for a in map(strip_type, template_args(cls)) if a in P.recs and any(m["name"] == "operator()" for m in P.recs[a]["methods"])] if cls else []


def isspawn(n):
    q = short(n.get("q", ""))
    return q in ("std::async", "std::thread::thread", "std::jthread::jthread")


def strip_const_ptr(t):
    """pointer to const"""
    t = re.sub(r"\s*(&&|&)$", "", (t or "").strip())
    t = re.sub(r"\s+const$", "", t)
    return t.startswith("const ")


def constit(t):
    t = strip_type(t)
    a = template_args(t)
    return bool(a) and strip_const_ptr(a[0]) or "_const_" in t


def isfn(t):
    return "(" in t


def isglobalstream(f, argn):
    """the standard streams may be used by several threads at a time"""
    o = argn[0] if argn else None
    for _ in range(40):
        if o is None:
            return False
        n = f["nodes"][o]
        if n["k"] == "DeclRefExpr" and n.get("q") in ("std::cout", "std::cerr", "std::clog"):
            return True
        if not n["ops"]:
            return False
        o = n["ops"][0]
    return False


def describe(f, j, depth=0):
    n = f["nodes"].get(j)
    if n is None or depth > 8:
        return "an object"
    if n.get("field"):
        return "member %s" % short(n["field"])
    if n["k"] in ("DeclRefExpr",) and n.get("name"):
        return n.get("q") or n["name"]
    if n["k"] == "CXXThisExpr":
        return "the object itself"
    for o in n["ops"]:
        if o is not None:
            return describe(f, o, depth + 1)
    return "an object"

