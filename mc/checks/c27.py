"""Initialisation."""
import subprocess
from concurrent.futures import ThreadPoolExecutor
from ..spec import *
from ..interp import Interp, root, parent, read, FACTS
from .. import prog as PRG

RULE = ("every constructor is followed in the order in which the language initialises members (bases first, then declaration order, "
        "initialiser lambdas and the members functions they call included): reading a member before its own initialiser has run is a "
        "violation, and when the constructor ends every member of scalar type must hold a value on every path; classes with scalar members "
        "but without a constructor must give them default values; clang's own uninitialised-value dataflow reports nothing for locals")
MINIMUM = 40


class Watch(Interp):
    """notices reads of members of the object under construction before they are initialised"""

    def __init__(self, P, cls, this, **k):
        super().__init__(P, **k)
        self.this, self.early = this, {}
        self.fields = {}
        for c in [cls] + bases(P, cls):
            for f in P.recs[c]["fields"]:
                self.fields[f["name"]] = f

    def member(self, p):
        """name of the member of the object a place lies in"""
        while isinstance(p, T) and p.op in ("fld", "idx", "elem", "deref"):
            if p.op == "fld" and p.args[0] is self.this:
                return p.args[1].rstrip("&") if p.args[1].rstrip("&") in self.fields else None
            p = p.args[0]
        return None

    def ready(self, st, name):
        pre = T("fld", self.this, name)
        for k in st:
            if isinstance(k, T):
                x = k
                while isinstance(x, T) and x.op in ("fld", "idx", "elem", "deref"):
                    if x is pre or x.op == "fld" and x.args[0] is self.this and x.args[1] == name + "&":
                        return True
                    x = x.args[0]
        return False

    def look(self, st, p):
        m = self.member(p) if isinstance(p, T) else None
        if m is not None and st is not None and not self.ready(st, m):
            fr = getattr(self, "cur", None)
            self.early.setdefault(m, fr)

    def load(self, st, p, t=None):
        self.look(st, p)
        return super().load(st, p, t)

    def exec_node(self, fr, nid, st):
        self.cur = "%s" % (fr.fn["nodes"][nid].get("loc") or fr.fn["loc"])
        return super().exec_node(fr, nid, st)

    def ev(self, fr, pos, st, **k):
        if k.get("kind") in ("call", "ext") and k.get("this") is not None:
            self.look(st, k["this"])
        return super().ev(fr, pos, st, **k)


def bases(P, cls):
    out = []
    for b in P.recs[cls].get("bases", ()):
        n = strip_type(b["t"] if isinstance(b, dict) else b)
        if n in P.recs:
            out += [n] + bases(P, n)
    return out


def scalar(fl):
    """members without a default value of their own"""
    return fl["pod"] or fl["ref"] or short(fl.get("rec") or "") == "std::atomic"


def unset(v, this, name):
    """the value may be the one the memory happened to hold"""
    me = T("fld", this, name)
    # (an atomic made from nothing is left as it is)
    return any(x is me or x.op == "undef" for x in subterms(v)) or v.op == "new" and short(str(v.args[0])) == "std::atomic" and len(v.args) == 1


def run(P, C):
    for cls in sorted(P.recs):
        rec = P.recs[cls]
        if rec.get("union"):
            continue
        ks = [m["key"] for m in rec["methods"] if m["ctor"] and m["key"] in P.fns and not P.fns[m["key"]]["defaulted"] and not P.fns[m["key"]].get("nocfg")]
        mine = [k for k in ks if not P.fns[k]["implicit"]]
        family = set([cls] + bases(P, cls))
        for k in mine:
            f = P.fns[k]
            C.count("constructors")
            th = T("this")
            # the object under construction must be told apart from objects of the same class
            inl = lambda q, g: g.get("lambda") or g.get("cls") in family or any(strip_type(p["t"]) in family for p in g["params"])
            W = Watch(P, cls, th, inline=inl)
            ret, st = W.run(k, this=th)
            for n, at in sorted(W.early.items()):
                C.ob(False, "%s: members are initialised before they are read" % cls, "src/%s" % at, "member %s is read before it is initialised (members are initialised in the order of their declaration)" % n)
            if not W.early:
                C.ob(True, "%s: members are initialised before they are read" % cls, loc(P, k))
            if st is None:
                continue
            for fl in rec["fields"]:
                if not scalar(fl):
                    continue
                C.count("scalar members")
                place = T("fld", th, fl["name"])
                ok = W.ready(st, fl["name"]) and not unset(read(st, place), th, fl["name"])
                C.ob(ok, "%s: scalar members hold a value" % cls, loc(P, k), "member %s may be left without a value by this constructor" % fl["name"])
        # implicitly constructed classes
        bare = [fl["name"] for fl in rec["fields"] if scalar(fl) and not fl["init"]]
        implicit_default = not any(m["ctor"] and m["key"] in P.fns and not P.fns[m["key"]]["implicit"] and not P.fns[m["key"]].get("copyctor") and not P.fns[m["key"]].get("movector") for m in rec["methods"])
        if bare and implicit_default and not rec.get("lambda"):
            for key_, g, n in made(P, cls):
                C.ob(n, "%s: scalar members hold a value" % cls, key_, "an object is created without giving a value to %s" % ", ".join(bare))
    locals_(P, C)


def made(P, cls):
    """(place, function, initialised) of every default construction of a class without constructor"""
    for k, f in P.fns.items():
        for i, n in f["nodes"].items():
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and strip_type(n.get("t", "")) == cls and not [o for o in n["ops"] if o is not None]:
                yield "src/%s" % (n.get("loc") or f["loc"]), f, bool(n.get("zero"))


def locals_(P, C):
    flags = ["-fsyntax-only", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wuninitialized-const-reference"]
    tus = [t for t in P.tus]

    def one(t):
        p = subprocess.run(["clang++"] + PRG.FLAGS + flags + [PRG.os.path.join(P.repo, t)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return t, [l for l in p.stdout.splitlines() if "warning:" in l and "uninitialized" in l]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, tus))
    for t, w in res:
        C.count("translation units")
        here = [l for l in w if "/src/" in l]
        C.ob(not here, "no local is read before it is initialised", t, "; ".join(sorted(set(here)))[:400])
