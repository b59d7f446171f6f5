"""Extraction and the resolved program model.

Every run parses the sources found below $MINIMC_REPO/src (default /repo) with
clang and keeps, for each function defined there, a control-flow graph whose
elements are fully resolved expressions.  Results are cached by the content of
the sources, of the extractor and of the flags; nothing of the analysed program
is ever executed.
"""
import glob, hashlib, json, os, pickle, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINIMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The check can give no answer (broken build, vanished anchor)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = sh([LLVM + "/bin/llvm-config", "--cxxflags"]).stdout.split()
    flags = [f for f in flags if not f.startswith("-std")]
    tmp = exe + ".%d.tmp" % os.getpid()
    r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti"] + flags +
           [src, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
    if r.returncode:
        raise AnalysisError("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def source_files():
    src = os.path.join(REPO, "src")
    fs = []
    for pat in ("*.cpp", "*.cc", "*.cxx", "*.hpp", "*.h", "*.hh", "*.ipp", "*.inl"):
        fs += glob.glob(os.path.join(src, "**", pat), recursive=True)
    return sorted(fs)


FLAGS = ["-std=c++17", "-I" + os.path.join(REPO, "src"), "-I/usr/include/hdf5/serial",
         "-Wno-everything"]


class Program:
    pass


def load(extra=(), witness=()):
    exe = build_extractor()
    files = source_files()
    tus = [f for f in files if f.endswith((".cpp", ".cc", ".cxx"))]
    if not tus:
        raise AnalysisError("no sources below %s/src" % REPO)
    if witness:
        # only what the witnesses instantiate
        tus = [os.path.join(VERIF, "tool", "witness", w + ".cpp") for w in witness]
    h = hashlib.sha256()
    for f in tus if witness else ():
        h.update(open(f, "rb").read())
    h.update(os.path.basename(exe).encode())
    h.update(REPO.encode())
    h.update(repr(extra).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    cache = os.environ.get("MINIMC_CACHE") or os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    cp = os.path.join(cache, h.hexdigest()[:24] + ".pickle")
    if os.path.exists(cp):
        try:
            with open(cp, "rb") as fh:
                return pickle.load(fh)
        except Exception:
            pass
    import tempfile
    with tempfile.TemporaryDirectory(dir=BUILD) as td:
        def one(i):
            out = os.path.join(td, "%d.json" % i)
            r = sh([exe, os.path.join(REPO, "src"), out, tus[i], "--"] + FLAGS + list(extra))
            if r.returncode or not os.path.exists(out):
                raise AnalysisError("clang rejects %s:\n%s" % (tus[i], r.stderr[-3000:]))
            with open(out) as fh:
                return json.load(fh)
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, range(len(tus))))
    P = Program()
    P.repo = REPO
    P.files = [os.path.relpath(f, REPO) for f in files]
    P.tus = [os.path.relpath(f, REPO) for f in tus]
    P.fns, P.recs, P.enums, P.vars = {}, {}, {}, {}
    for i, o in enumerate(outs):
        pre = "t%d." % i

        def fix(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("var", "dtor", "decomp", "hold") and isinstance(v, str) and v.startswith("v"):
                        x[k] = pre + v
                    else:
                        fix(v)
            elif isinstance(x, list):
                for v in x:
                    fix(v)
        for f in o["functions"]:
            if f["key"] in P.fns:
                continue
            fix(f)
            f["nodes"] = {int(k): v for k, v in f["nodes"].items()}
            f["tu"] = P.tus[i]
            P.fns[f["key"]] = f
        for r in o["records"]:
            P.recs.setdefault(r["name"], r)
        for e in o["enums"]:
            P.enums.setdefault(e["q"], e)
        for v in o["vars"]:
            P.vars.setdefault(v["key"], v)
    finish(P)
    # keep the cache small
    olds = sorted(glob.glob(os.path.join(cache, "*.pickle")), key=os.path.getmtime)
    for f in olds[:-60]:
        try:
            os.unlink(f)
        except OSError:
            pass
    tmp = cp + ".%d" % os.getpid()
    with open(tmp, "wb") as fh:
        pickle.dump(P, fh)
    os.replace(tmp, cp)
    return P


def finish(P):
    """Derived tables: class hierarchy, overriders, methods by qualified name."""
    P.byq = {}
    for k, f in P.fns.items():
        P.byq.setdefault(f["q"], []).append(k)
    P.lam = {}
    for k, f in P.fns.items():
        if f.get("lambda") and f["name"] == "operator()":
            P.lam.setdefault(f["cls"], []).append(k)
    P.sub = {}
    for n, r in P.recs.items():
        for b in r["bases"]:
            P.sub.setdefault(b, set()).add(n)
    over = {}
    P.decl = {}
    for n, r in P.recs.items():
        for m in r["methods"]:
            P.decl[m["key"]] = dict(m, cls=n)
            for o in m["overrides"]:
                over.setdefault(o, set()).add(m["key"])
    # transitive
    P.over = {}

    def rec(k, seen):
        for o in over.get(k, ()):
            if o not in seen:
                seen.add(o)
                rec(o, seen)
        return seen
    for k in over:
        P.over[k] = rec(k, set())
    P.fieldmut = {}
    P.fields = {}
    for n, r in P.recs.items():
        for fl in r["fields"]:
            P.fields[(n, fl["name"])] = fl


def is_subclass(P, a, b):
    """record a is b or derives from it"""
    if a == b:
        return True
    r = P.recs.get(a)
    return bool(r) and any(is_subclass(P, x, b) for x in r["bases"])


def subclasses(P, b):
    out = set()
    todo = [b]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += list(P.sub.get(x, ()))
    return out


def targets(P, n):
    """possible project callees (function keys with bodies) of a call node"""
    k = n.get("fn") or n.get("ctor")
    if not k:
        return []
    out = []
    if k in P.fns:
        out.append(k)
    if n.get("virt"):
        for o in P.over.get(k, ()):
            if o in P.fns:
                out.append(o)
    return out


def where(f, n=None):
    l = (n or {}).get("loc") or f["loc"]
    return "src/" + l
