"""Hash-consed terms and small helpers."""


class T:
    __slots__ = ("op", "args", "uid", "_s", "__weakref__")
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        k = (op, args) if op != "const" else (op, args, isinstance(args[0], bool))
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            T._n += 1
            t.uid = T._n
            t._s = None
            cls._tab[k] = t
        return t

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (T, (self.op,) + self.args)


BOT = T("bot")
TRUE = T("const", True)
FALSE = T("const", False)


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and v == v and abs(v) < 1e15 else False:
        v = int(v)
    return T("const", v)


def isconst(t, v=None):
    return isinstance(t, T) and t.op == "const" and (v is None or (t.args[0] == v and type(t.args[0] == v) is bool and (isinstance(t.args[0], bool) == isinstance(v, bool))))


def subterms(t, seen=None):
    """all distinct subterms (pre-order)"""
    seen = set() if seen is None else seen
    st = [t]
    out = []
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            st.extend(reversed(x.args))
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return out


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    a, op = t.args, t.op
    s = lambda x: show(x, depth - 1)
    if op == "const":
        return repr(a[0])
    if op == "var":
        return a[0]
    if op == "this":
        return "this" if not a or not a[0] else "this:" + str(a[0])
    if op == "glob":
        return str(a[0]).split("::")[-1] if isinstance(a[0], str) else str(a[0])
    if op == "fld":
        return s(a[0]) + "." + a[1]
    if op == "deref":
        return "*" + s(a[0])
    if op == "addr":
        return "&" + s(a[0])
    if op in ("idx", "elem") and len(a) == 1:
        return s(a[0]) + "[*]"
    if op == "cat":
        return s(a[0]) + "<<" + s(a[1])
    if op in ("idx", "elem"):
        return s(a[0]) + "[" + s(a[1]) + "]"
    if op in ("P", "poly") and a:
        def mono(k, v):
            fs = [s(x) if e == 1 else s(x) + "^" + str(e) for x, e in k]
            return "*".join(([str(v)] if v != 1 or not fs else []) + fs)
        return "(" + " + ".join(mono(k, v) for k, v in a[0]) + ")"
    if op == "neg0":
        return "(" + s(a[0]) + " < 0)"
    if op == "zero":
        return "(" + s(a[0]) + " == 0)"
    if op == "eq":
        return "(" + s(a[0]) + " == " + s(a[1]) + ")"
    if op == "bin":
        return "(" + s(a[1]) + " " + a[0] + " " + s(a[2]) + ")"
    if op == "un":
        return a[0] + s(a[1])
    if op == "ite":
        return "(" + s(a[0]) + " ? " + s(a[1]) + " : " + s(a[2]) + ")"
    if op == "call":
        return a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if op == "agg":
        return s(a[0]) + "{" + ", ".join(".".join(map(s, p)) + "=" + s(v) for p, v in a[1]) + "}"
    return op + "(" + ", ".join(s(x) for x in a) + ")"


def subst(t, m, memo=None):
    """replace subterms by the mapping m"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x in m:
            r = m[x]
        else:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else T(x.op, *na)
        memo[x] = r
        return r
    return go(t)
