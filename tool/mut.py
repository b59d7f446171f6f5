#!/usr/bin/env python3
"""Regression of the checks themselves: apply edits to scratch copies of /repo and run checks on them.
tool/mut.py [-b] [name...]   -b: also build the copy and run the stable tests.
Edits live in tool/edits.py: bugs must be reported by the checks they name, rewritings must leave all checks quiet."""
import os, subprocess, sys, shutil, json, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCR = "/tmp/mc_mut"
spec = importlib.util.spec_from_file_location("edits", os.path.join(HERE, "edits.py"))
E = importlib.util.module_from_spec(spec)
spec.loader.exec_module(E)


def prepare(e):
    d = os.path.join(SCR, e["name"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("src", "test"):
        shutil.copytree("/repo/" + x, d + "/" + x, ignore=shutil.ignore_patterns("*.h5", "data"))
    for f, a, b in e["edits"]:
        p = os.path.join(d, f if "/" in f else "src/" + f)
        s = open(p).read()
        if s.count(a) != 1:
            return d, "edit of %s matches %d times: %r" % (f, s.count(a), a[:60])
        open(p, "w").write(s.replace(a, b))
    return d, None


def check(d, pid):
    env = dict(os.environ, MINIMC_REPO=d, MINIMC_EVIDENCE=d + "/ev", MINIMC_CACHE=d + "/cache")
    r = subprocess.run([sys.executable, VERIF + "/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return pid, r.returncode, r.stdout


def one(e, allids):
    d, err = prepare(e)
    if err:
        return e, "BAD EDIT " + err
    os.makedirs(d + "/cache")
    os.makedirs(d + "/ev")
    ids = allids if e["kind"] == "same" or "--all" in sys.argv else [p for p in e["expect"] if p in allids]
    res = []
    if ids:
        res.append(check(d, ids[0]))
        with ThreadPoolExecutor(4) as ex:
            res += list(ex.map(lambda p: check(d, p), ids[1:]))
    shutil.rmtree(d + "/cache", ignore_errors=True)
    if "-k" not in sys.argv:
        shutil.rmtree(d, ignore_errors=True)
    out = []
    for pid, rc, txt in res:
        if e["kind"] == "same" and rc != 0:
            out.append("ALARM %s rc=%d\n%s" % (pid, rc, txt[-1500:]))
        if e["kind"] == "bug" and pid in e["expect"] and rc != 1:
            out.append("MISSED by %s rc=%d %s" % (pid, rc, txt[-800:] if rc else ""))
        if e["kind"] == "bug" and pid not in e["expect"] and rc != 0:
            out.append("also %s rc=%d" % (pid, rc))
    return e, "\n".join(out) or "ok (%d checks)" % len(res)


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    allids = sorted(f[:-3].upper() for f in os.listdir(VERIF + "/mc/checks") if f.startswith("c") and f.endswith(".py"))
    todo = [e for e in E.EDITS if not names or any(e["name"].startswith(n) or n in e.get("expect", ()) for n in names)]
    with ThreadPoolExecutor(2) as ex:
        for e, r in ex.map(lambda e: one(e, allids), todo):
            print("%-6s %-40s %s" % (e["kind"], e["name"], r), flush=True)
