#!/usr/bin/env python3
"""All checks on one changed copy, in one process: sweep1.py DIR [--stop] -> a line of json. (used by tool/sweep.py)"""
import glob, hashlib, importlib, io, json, os, resource, shutil, subprocess, sys, threading, contextlib, time
d = sys.argv[1]
stop = "--stop" in sys.argv
os.environ["MINIMC_REPO"] = d + "/repo"
os.environ["MINIMC_EVIDENCE"] = d + "/ev"
os.environ["MINIMC_CACHE"] = d + "/cache"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
from mc import prog, report
tuc = d + "/tu"
os.makedirs(tuc, exist_ok=True)
sh0 = prog.sh


def sh(cmd, **kw):
    if not os.path.basename(cmd[0]).startswith("extract-"):
        return sh0(cmd, **kw)
    h = hashlib.sha256(repr(cmd[4:]).encode() + cmd[0].encode() + cmd[3].encode())
    for f in [cmd[3]] + sorted(glob.glob(d + "/repo/src/*.hpp")):
        h.update(open(f, "rb").read())
    p = os.path.join(tuc, h.hexdigest())
    if os.path.exists(p):
        shutil.copy(p, cmd[2])
        return subprocess.CompletedProcess(cmd, 0, "", "")
    r = sh0(cmd, **kw)
    if r.returncode == 0 and os.path.exists(cmd[2]):
        shutil.copy(cmd[2], p)
    return r


prog.sh = sh
res = {}


def main():
    loaded = {}
    load0 = prog.load

    def load(extra=(), witness=()):
        k = (tuple(extra), tuple(witness))
        if k not in loaded:
            loaded[k] = load0(extra, witness)
        return loaded[k]
    prog.load = load
    try:
        P = load()
    except prog.AnalysisError as e:
        res["parse"] = str(e)[-500:]
        return
    ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/mc/checks/c[0-9]*.py"))
    first = os.environ.get("SWEEP_FIRST", "").split()
    ids = [i for i in first if i in ids] + [i for i in ids if i not in first]
    if os.environ.get("SWEEP_ONLY"):
        ids = [i for i in ids if i in os.environ["SWEEP_ONLY"].split()]
    for i in ids:
        t = time.time()
        b = io.StringIO()
        try:
            m = importlib.import_module("mc.checks." + i)
            C = report.Check(i.upper(), m.RULE, P)
            with contextlib.redirect_stdout(b):
                try:
                    m.run(P, C)
                    C.need(getattr(m, "MINIMUM", 1), "rule instances")
                    rc = C.finish()
                except prog.AnalysisError as e:
                    if all(o[1] for o in C.obs):
                        raise
                    rc = C.finish()
        except prog.AnalysisError as e:
            rc = 3
            b.write(str(e)[-400:])
        except BaseException as e:
            rc = 4
            b.write(repr(e)[-400:])
        if rc:
            res[i] = (rc, b.getvalue()[:1500], round(time.time() - t, 1))
            if stop and rc == 1:
                return


t = threading.Thread(target=main)
t.start()
t.join()
print("@@" + json.dumps(res))
