"""Value numbering of code whose control flow is fixed by compile time constants: loops and library algorithms over arrays of known
length are followed element by element. Wherever the control flow is not constant the usual fixed point is computed instead."""
import re
from .interp import Interp, functor, FACTS
from .terms import T, BOT, const, isconst
from .canon import Canon, to_poly, Poly
from .names import short, strip_type, template_args

LIMIT = 4000


class Unrolled(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.length = {}      # array place -> number of elements

    def can(self, t):
        return Canon(self)(t)

    # -- control flow -------------------------------------------------------
    def exec_fn(self, fr, st0):
        c = self.cfg(fr.key)
        if not any(c["back"][b] for b in c["rpo"]):
            return super().exec_fn(fr, st0)
        self.frames[fr.cid] = fr
        st, b = dict(st0), c["entry"]
        outs, steps = {}, 0
        live, todo = {c["exit"]}, [c["exit"]]
        while todo:
            for p in c["pred"].get(todo.pop(), ()):
                if p not in live:
                    live.add(p)
                    todo.append(p)
        while b != c["exit"]:
            steps += 1
            if steps > LIMIT:
                return super().exec_fn(fr, st0)
            self.alive[(fr.cid, b)] = True
            st = self.exec_block(fr, c, b, dict(st))
            if st is None:
                return BOT, None
            su = [s for s in c["succ"][b] if s is not None]
            if len(c["succ"][b]) > 1:
                cv = fr.conds.get(b)
                cv = self.can(cv) if cv is not None else None
                if c["B"][b].get("tk") == "SwitchStmt" or cv is None:
                    return super().exec_fn(fr, st0)
                if isconst(cv):
                    s = c["succ"][b][0 if cv.args[0] else 1]
                else:
                    # a branch that only leads to an exception is not followed
                    go = [i for i, x in enumerate(c["succ"][b]) if x in live]
                    if len(go) != 1:
                        return super().exec_fn(fr, st0)
                    s = c["succ"][b][go[0]]
                    nf = self.edge_facts(fr, c, b, go[0], st)
                    if nf is False:
                        return super().exec_fn(fr, st0)
                    if nf:
                        st = dict(st)
                        st[FACTS] = st[FACTS] | nf
            elif su:
                s = su[0]
            else:
                return BOT, None
            outs[(b, s)] = st
            b = s
        self.alive[(fr.cid, b)] = True
        fr.outs = outs
        rv = st.pop(T("ret", fr.cid), T("void"))
        return rv, st

    # -- arrays ---------------------------------------------------------------
    def arrlen(self, t):
        t = strip_type(t or "")
        if short(t) == "std::array":
            a = template_args(t)
            if len(a) == 2 and re.match(r"^\d+", a[1]):
                return int(re.match(r"^\d+", a[1]).group())
        m = re.search(r"\[(\d+)\]$", t)
        return int(m.group(1)) if m else None

    def note(self, fr, n, this, args, places):
        """length of an array whose iterators or size are taken"""
        t = n.get("cls") if this is not None else None
        p = this
        if this is None and args:
            p = places[0]
            t = fr.fn["nodes"][args[0]].get("t")
        k = self.arrlen(t)
        if k is not None and p is not None:
            self.length[p] = k
        return p, k

    def position(self, it):
        """(array place, index) of an iterator into an array of known length"""
        p = to_poly(self.can(it)).m
        off, base = 0, None
        for k, v in p.items():
            if k == ():
                off = v
            elif len(k) == 1 and k[0][1] == 1 and v == 1 and base is None:
                base = k[0][0]
            else:
                return None
        if base is None or base.op != "aiter":
            return None
        c, rev = base.args
        n = self.length.get(c)
        if n is None or off != int(off):
            return None
        return c, (n - 1 - int(off) if rev else int(off)), rev

    def deref(self, v):
        q = self.position(v) if v.op in ("aiter", "bin", "P") else None
        if q is not None:
            return T("idx", q[0], const(q[1]))
        return super().deref(v)

    def elements(self, a, b):
        x, y = self.position(a), self.position(b)
        if x is None or y is None or x[0] is not y[0] or x[2] != y[2]:
            return None
        return [T("idx", x[0], const(j)) for j in (range(x[1], y[1], -1) if x[2] else range(x[1], y[1]))]

    def onward(self, a, n):
        return [self.deref(self.can(T("bin", "+", a, const(j)))) for j in range(n)] if self.position(a) is not None else None

    def apply(self, fr, n, st, f, els):
        specs = [(e, True, None) if isinstance(e, T) and e.op in ("idx", "tmp", "var") else (e, False, None) for e in els]
        if functor(f):
            v = [self.load(st, e) if lv else e for e, lv, o in specs]
            return T("bin", functor(f), *v) if len(v) == 2 else T("un", functor(f), v[0])
        r = self.call_lambda(fr, n, st, f, specs)
        if r is not BOT and r.op in ("idx", "var", "tmp", "fld", "elem"):
            r = self.load(st, r)
        return r

    def call_ext(self, fr, i, n, st, this, args):
        q = short(n.get("q", ""))
        name = q.split("::")[-1]
        known = name in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "size", "max_size")
        if known and (this is not None or q.startswith("std::")):
            specs = [self.argspec(fr, o, st) for o in args]
            p, k = self.note(fr, n, this, args, [v if lv else None for v, lv, o in specs])
            if k is not None and p is not None:
                if "size" in name:
                    return const(k)
                rev = name.startswith(("r", "cr"))
                base = T("aiter", p, rev)
                return base if "begin" in name else T("bin", "+", base, const(k))
        if name == "data" and this is not None and not args and q.startswith("std::"):
            return T("addr", T("idx", this, const(0)))
        if q == "H5::DataSet::read" and args:
            v, lv, o = self.argspec(fr, args[0], st)
            v = self.load(st, v) if lv else v
            r = super().call_ext(fr, i, n, st, this, args)
            if v is not BOT and v.op == "addr" and v.args[0].op == "idx":
                c = v.args[0].args[0]
                self.store(fr, st, c, T("h5read", self.load(st, this), self.load(st, c), v.args[0].args[1]), n, "read")
            return r
        if q in ("std::transform", "std::partial_sum", "std::inclusive_scan", "std::exclusive_scan", "std::copy", "std::copy_n", "std::fill", "std::iota",
                 "std::accumulate", "std::reduce", "std::for_each", "std::reverse", "std::reverse_copy") and this is None:
            r = self.stepwise(fr, n, st, name, args)
            if r is not None:
                return r
        return super().call_ext(fr, i, n, st, this, args)

    def stepwise(self, fr, n, st, name, args):
        specs = [self.argspec(fr, o, st) for o in args]
        if any(v is BOT for v, _, _ in specs):
            return BOT
        vals = [self.load(st, v) if lv else v for v, lv, o in specs]
        for j, (v, lv, o) in enumerate(specs):
            t = short(strip_type(fr.fn["nodes"][o].get("t", "")))
            if functor(T("new", t)):
                vals[j] = T("new", t)
        put = lambda pl, v: self.store(fr, st, pl, v, n, name)
        get = lambda pl: self.load(st, pl)
        src = self.elements(vals[0], vals[1]) if len(vals) > 1 else None
        fs = [v for v in vals if v.op == "lambda" or functor(v)]
        if name == "iota" and src is not None:
            for j, e in enumerate(src):
                put(e, self.can(T("bin", "+", vals[2], const(j))))
            return T("void")
        if name == "fill" and src is not None:
            for e in src:
                put(e, vals[2])
            return T("void")
        if src is None:
            return None
        if name == "for_each":
            for e in src:
                if self.apply(fr, n, st, vals[2], [e]) is BOT:
                    return BOT
            return vals[2]
        if name in ("accumulate", "reduce"):
            acc = vals[2] if len(vals) > 2 else const(0)
            for e in src:
                acc = self.apply(fr, n, st, fs[0], [acc, e]) if fs else T("bin", "+", acc, get(e))
                if acc is BOT:
                    return BOT
            return acc
        if name == "reverse":
            vs = [get(e) for e in src]
            for e, v in zip(src, reversed(vs)):
                put(e, v)
            return T("void")
        if name == "transform":
            two = len(vals) == 5
            out = self.onward(vals[3 if two else 2], len(src))
            other = self.onward(vals[2], len(src)) if two else None
            if out is None or two and other is None or not fs:
                return None
            for j, e in enumerate(src):
                r = self.apply(fr, n, st, fs[0], [e] + ([other[j]] if two else []))
                if r is BOT:
                    return BOT
                put(out[j], r)
            return T("bin", "+", vals[3 if two else 2], const(len(src)))
        out = self.onward(vals[2], len(src))
        if out is None:
            return None
        if name in ("copy", "reverse_copy"):
            for e, o in zip(src if name == "copy" else src[::-1], out):
                put(o, get(e))
        elif name in ("partial_sum", "inclusive_scan"):
            acc = vals[4] if len(vals) > 4 else None
            for e, o in zip(src, out):
                x = get(e)
                if acc is not None:
                    x = self.apply(fr, n, st, fs[0], [acc, x]) if fs else T("bin", "+", acc, x)
                    if x is BOT:
                        return BOT
                acc = self.can(x)
                put(o, acc)
        elif name == "exclusive_scan":
            acc = vals[3]
            for e, o in zip(src, out):
                x = get(e)
                put(o, acc)
                x = self.apply(fr, n, st, fs[0], [acc, x]) if fs else T("bin", "+", acc, x)
                if x is BOT:
                    return BOT
                acc = self.can(x)
        else:
            return None
        return T("bin", "+", vals[2], const(len(src)))
