#!/usr/bin/env python3
"""tool/seedtest.py [-n] [id...]: validate planted bugs of /verif/seeded and list the checks that report them.
Each is tried in a scratch copy of /repo that is bind-mounted over /repo in a user namespace of its own.
-n: only run the checks, do not build."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/mc_seed"
NOBUILD = "-n" in sys.argv


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(i):
    d = os.path.join(SCR, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    S = os.path.join(VERIF, "seeded", i)
    out = []
    meta = json.load(open(S + "/meta.json"))
    sh(["cp", "-a", "/repo", d + "/repo"])
    shutil.copytree(S, d + "/s")
    if not NOBUILD:
        r = sh(["unshare", "-Urm", "bash", "-c", """
mount --bind %(d)s/repo /repo; cd /repo
bash %(d)s/s/demo.sh >%(d)s/clean.log 2>&1; echo "clean $?"
git apply %(d)s/s/patch.diff || patch -p1 -s < %(d)s/s/patch.diff || echo "NOAPPLY"
find src -newer %(d)s/s/meta.json -name '*.?pp' -exec touch {} +
bash /opt/vp/test.sh %(d)s/tests.json >%(d)s/build.log 2>&1 || echo BUILDFAIL
bash %(d)s/s/demo.sh >%(d)s/demo.log 2>&1; echo "patched $?"
""" % {"d": d}])
        t = r.stdout
        if "clean 0" not in t:
            out.append("DEMO FAILS ON CLEAN TREE " + open(d + "/clean.log").read()[-600:])
        if "patched 0" in t:
            out.append("DEMO PASSES ON BUG " + open(d + "/demo.log").read()[-300:])
        if "NOAPPLY" in t or "BUILDFAIL" in t:
            out.append(t + open(d + "/build.log").read()[-800:])
        try:
            res = json.load(open(d + "/tests.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            lost = stable - set(res["passed"])
            if lost:
                out.append("LOST TESTS %s" % sorted(lost))
        except Exception as e:
            out.append("no test results %r %s" % (e, t))
    else:
        r = sh(["patch", "-p1", "-s", "-i", d + "/s/patch.diff"], cwd=d + "/repo")
        if r.returncode:
            out.append(r.stdout)
    env = dict(os.environ, MINIMC_REPO=d + "/repo", MINIMC_EVIDENCE=d + "/ev", MINIMC_CACHE=d + "/cache")
    os.makedirs(d + "/cache")
    hit = []
    for f in sorted(os.listdir(VERIF + "/mc/checks")):
        if f[0] == "c" and f[1:3].isdigit():
            p = f[:-3].upper()
            r = sh([sys.executable, VERIF + "/check.py", p], env=env)
            if r.returncode == 1:
                hit.append(p)
            elif r.returncode:
                hit.append("%s(rc=%d)" % (p, r.returncode))
    own = meta["property"]
    out.append("%s by %s" % ("caught" if own in hit else "MISSED", hit))
    shutil.rmtree(d, ignore_errors=True)
    return i, own, "\n    ".join(out)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(VERIF + "/seeded"))
    with ThreadPoolExecutor(5) as ex:
        for i, own, t in ex.map(one, ids):
            print("%-32s %-4s %s" % (i, own, t), flush=True)
