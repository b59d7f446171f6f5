"""Reference formulas: small python expressions turned into canonical terms."""
import ast
from itertools import permutations
from .lib import *
from .canon import clear, rsub

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}
CMP = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
PI = T("named", "constants::pi")


def spec(expr, **env):
    """canonical term of a reference formula"""
    return Canon()(raw(expr, **env))


def raw(expr, **env):
    def go(n):
        if isinstance(n, ast.Constant):
            return const(n.value)
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id == "pi":
                return T("gconst", "constants::pi", None)
            if n.id in ("true", "True"):
                return TRUE
            raise KeyError(n.id)
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Pow):
                return T("call", "pow", go(n.left), go(n.right))
            return T("bin", OPS[type(n.op)], go(n.left), go(n.right))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return T("un", "!", go(n.operand))
            return T("un", "-", go(n.operand))
        if isinstance(n, ast.Compare):
            return T("bin", CMP[type(n.ops[0])], go(n.left), go(n.comparators[0]))
        if isinstance(n, ast.BoolOp):
            vs = [go(v) for v in n.values]
            r = vs[-1]
            for v in reversed(vs[:-1]):
                r = T("ite", v, r, FALSE) if isinstance(n.op, ast.And) else T("ite", v, TRUE, r)
            return r
        if isinstance(n, ast.IfExp):
            return T("ite", go(n.test), go(n.body), go(n.orelse))
        if isinstance(n, ast.Attribute):
            return T("fld", go(n.value), n.attr)
        if isinstance(n, ast.Subscript):
            return T("idx", go(n.value), go(n.slice))
        if isinstance(n, ast.Call):
            return T("call", n.func.id, *[go(a) for a in n.args])
        raise ValueError(ast.dump(n))
    return go(ast.parse(expr, mode="eval").body)


class Run:
    """one analysed function with canonical access to results"""

    def __init__(self, P, key, this=None, args=None, st=None, interp=Interp, **kw):
        self.P, self.key = P, key
        self.I = interp(P, **kw)
        self.ret, self.st = self.I.run(key, this=this, args=args, st=st)
        self.c = Canon(self.I)

    @property
    def value(self):
        return self.c(self.ret)

    def events(self, *kinds, name=None):
        out = []
        for e in self.I.all_events():
            if kinds and e.kind not in kinds:
                continue
            if name is not None and e.name != name and last(e.name or "") != name:
                continue
            out.append(e)
        return out

    def final(self, place):
        from .interp import snapshot
        if self.st is None:
            return BOT
        return self.c(snapshot(self.st, place))

    def loc(self, e=None):
        if e is not None and e.loc:
            return "src/" + e.loc
        return loc(self.P, self.key)


def draws(t):
    """distinct random numbers a term depends on, in order of creation"""
    return sorted({x for x in subterms(t) if x.op == "xi"}, key=lambda x: x.uid)


def same_up_to_draws(a, build, n):
    """a equals build(d1..dn) for some assignment of a's draws"""
    ds = draws(a)
    if len(ds) < n:
        return False
    for p in permutations(ds, n):
        if same(a, build(*p)):
            return True
    return False


def same_set(a, b):
    return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)


class Obj:
    """an object as one of its constructors leaves it; methods are analysed on that state"""

    def __init__(self, P, key, args=None, **kw):
        self.P, self.key = P, key
        self.place = T("obj", short(P.fns[key]["q"]))
        if args is None:
            args = [T("var", p["name"] or "arg%d" % j, "carg", j) for j, p in enumerate(P.fns[key]["params"])]
        self.args = args
        self.r = Run(P, key, this=self.place, args=args, **kw)
        self.st = None
        if self.r.st is not None:
            self.st = {k: (self.r.c(v) if isinstance(v, T) else v) for k, v in self.r.st.items()}

    def call(self, key, args=None, **kw):
        return Run(self.P, key, this=self.place, args=args, st=self.st, **kw)

    def field(self, *names):
        p = self.place
        for n in names:
            p = T("fld", p, n)
        return self.r.final(p)


def ctors(P, cls, pred=None):
    """user-written constructors of a class, copies and moves left out"""
    out = []
    for m in P.recs[cls]["methods"]:
        k = m["key"]
        if not m["ctor"] or k not in P.fns:
            continue
        f = P.fns[k]
        if f["implicit"] or f["defaulted"] or f.get("copyctor") or f.get("movector"):
            continue
        if pred is None or pred(f):
            out.append(k)
    return out


def attr(node, name, as_="double"):
    """attribute of an input node, converted"""
    return T("call", "pugi::xml_attribute::as_" + as_, T("call", "pugi::xml_node::attribute", node, const(name)))


def child(node, name):
    return T("call", "pugi::xml_node::child", node, const(name))


def cfacts(r, facts=None):
    """canonical must-facts: {atom: truth value}; facts of an event, or those at the function's exit"""
    if facts is None:
        facts = r.st["#facts"] if r.st is not None else ()
    out = {}
    for a, pol in facts:
        add_fact(out, r.c(a), pol)
    return out


def add_fact(out, c, pol):
    if c.op == "ite":
        x, a, b = c.args
        if a is FALSE and b is TRUE:
            add_fact(out, x, not pol)
            return
        if b is FALSE and pol:
            add_fact(out, x, True)
            add_fact(out, a, True)
        elif a is FALSE and pol:
            add_fact(out, x, False)
            add_fact(out, b, True)
        elif a is TRUE and not pol:
            add_fact(out, x, False)
            add_fact(out, b, False)
        elif b is TRUE and not pol:
            add_fact(out, x, True)
            add_fact(out, a, False)
    if out.get(c) is not pol:
        out[c] = pol
        for x in subterms(c):
            # decided by how a loop was left
            if x.op == "lexit" and x.args[3].op != "bot":
                v = rsub(c, {x: x.args[3]})
                if isconst(v) and v.args[0] is (not pol):
                    add_fact(out, x.args[1], True)


def known(facts, c):
    """truth value of condition c under the facts, None if undecided"""
    if isconst(c):
        return c.args[0]
    if c in facts:
        return facts[c]
    if c.op == "ite":
        x, a, b = c.args
        v = known(facts, x)
        if v is True:
            return known(facts, a)
        if v is False:
            return known(facts, b)
        p, q = known(facts, a), known(facts, b)
        return p if p == q else None
    return None


def negate(c):
    return Canon().cond_not(c)


def summand(t):
    """X if t is the sum of X over a loop that starts at zero"""
    if t.op == "loop" and len(t.args) == 2 and isnum(t.args[0]) and t.args[0].args[0] == 0:
        d = to_poly(t.args[1]) - Poly.a(T("acc"))
        if not any(free_acc(a) for a in d.atoms()):
            return d.term()
    return None


def free_acc(t):
    """the term mentions the accumulator of the loop around it (not of a loop inside it)"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "acc":
                return True
            if x.op in ("loop", "loopx"):
                st.append(x.args[0])
            else:
                st.extend(x.args)
    return False


def sums(t):
    """the sums occurring in a term: [(loop term, summand)]"""
    return [(x, summand(x)) for x in subterms(t) if x.op == "loop" and summand(x) is not None]


def inserted(t):
    """(key, value) of the insertions that build a map value in a loop"""
    out = []
    for x in subterms(t):
        if x.op == "upd" and str(x.args[0]).startswith("std::map::") and len(x.args) >= 5:
            a = [y for y in x.args[2:] if y.op != "acc"]
            if len(a) >= 2:
                out.append((a[0], a[1]))
    return out
