import functools, re


@functools.lru_cache(None)
def short(q):
    """qualified name without template arguments"""
    if q is None:
        return ""
    # protect operators
    m = re.search(r"operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)", q)
    tail = ""
    if m:
        tail = q[m.start():m.end()]
        q = q[:m.start()]
    out, d = [], 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    r = "".join(out) + tail.replace(" ", "") if tail else "".join(out)
    # function name templates leave trailing nothing
    return r.strip()


@functools.lru_cache(None)
def last(q):
    return short(q).split("::")[-1]


@functools.lru_cache(None)
def strip_type(t):
    """type without cv, reference, pointer"""
    t = (t or "").strip()
    while True:
        o = t
        t = re.sub(r"^(const|volatile)\s+", "", t)
        t = re.sub(r"\s*(&&|&|\*)\s*(const)?$", "", t)
        t = re.sub(r"\s+const$", "", t)
        if t == o:
            return t


@functools.lru_cache(None)
def is_ref(t):
    return (t or "").rstrip().endswith("&")


@functools.lru_cache(None)
def is_ptr(t):
    return bool(re.search(r"\*\s*(const)?$", (t or "").rstrip()))


@functools.lru_cache(None)
def is_const_obj(t):
    """is the (referred-to) object const?"""
    t = (t or "").strip()
    t = re.sub(r"\s*(&&|&)$", "", t)
    if is_ptr(t):
        return t.endswith("const")
    return t.startswith("const ") or t.endswith(" const")


SCALARS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
           "short", "unsigned short", "char", "signed char", "unsigned char", "bool", "float",
           "double", "long double"}


@functools.lru_cache(None)
def is_int(t):
    t = strip_type(t)
    return t in SCALARS and t not in ("float", "double", "long double")


@functools.lru_cache(None)
def is_float(t):
    return strip_type(t) in ("float", "double", "long double")


@functools.lru_cache(None)
def is_class_type(t):
    if is_ptr(t):
        return False
    t = strip_type(t)
    return t not in SCALARS and "(" not in t.split("<")[0] and t not in ("void",)


@functools.lru_cache(None)
def template_args(t):
    """top-level template arguments of a type string"""
    t = strip_type(t)
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for c in t[i + 1:-1]:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out
