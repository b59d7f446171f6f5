#!/usr/bin/env python3
"""Mechanical changes of the whole source (listed by tool/mutgen.cpp) against all checks.
sweep.py LIST.json OUT.jsonl mut|same [workers]"""
import json, os, queue, shutil, subprocess, sys, threading, collections
LIST, OUT, KIND = sys.argv[1:4]
N = int(sys.argv[4]) if len(sys.argv) > 4 else 8
HERE = os.path.dirname(os.path.abspath(__file__))
items = [e for e in json.load(open(LIST)) if e["kind"] == KIND]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        done.add(json.loads(l)["id"])
q = queue.Queue()


def ident(es):
    return json.dumps([[e["file"], e["edits"]] for e in es])


if KIND == "same" and "-1" not in sys.argv:
    # changes of one sort that do not overlap go together
    groups = collections.OrderedDict()
    for e in items:
        groups.setdefault((e["file"], e["op"]), []).append(e)
    work = []
    for es in groups.values():
        while es:
            cur, rest, spans = [], [], []
            for e in es:
                sp = [(o, o + max(l, 1)) for o, l, _ in e["edits"]]
                lo, hi = min(a for a, _ in sp), max(b for _, b in sp)
                if any(lo < b and a < hi for a, b in spans) or len(cur) >= 12:
                    rest.append(e)
                else:
                    cur.append(e)
                    spans.append((lo, hi))
            work.append(cur)
            es = rest
else:
    work = [[e] for e in items]
for w in work:
    if ident(w) not in done:
        q.put(w)
print(len(work), "groups,", q.qsize(), "to do", flush=True)
lock = threading.Lock()
caught = collections.defaultdict(collections.Counter)


def worker(i):
    d = "/tmp/mg/w%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    for x in ("src", "test"):
        shutil.copytree("/repo/" + x, d + "/repo/" + x, ignore=shutil.ignore_patterns("*.h5"))
    while True:
        try:
            es = q.get_nowait()
        except queue.Empty:
            return
        r = run(d, es)
        if KIND == "same" and len(es) > 1 and r:
            with lock:
                for e in es:
                    if ident([e]) not in done:
                        q.put([e])
            r = {"split": 1}
        with lock:
            with open(OUT, "a") as f:
                f.write(json.dumps({"id": ident(es), "es": [{k: v for k, v in e.items()} for e in es], "r": r}) + "\n")


def run(d, es):
    f = es[0]["file"]
    tgt = d + "/repo/src/" + os.path.basename(f)
    s = open(f, "rb").read()
    eds = sorted((x for e in es for x in e["edits"]), key=lambda x: (-x[0], x[1]), reverse=False)
    for o, l, t in eds:
        s = s[:o] + t.encode() + s[o + l:]
    if b"for_each" in s and b"<algorithm>" not in s:
        s = b"#include <algorithm>\n" + s
    open(tgt, "wb").write(s)
    env = dict(os.environ, SWEEP_FIRST=" ".join(x for x, _ in caught[f].most_common(6)))
    try:
        p = subprocess.run(["timeout", "600", sys.executable, HERE + "/sweep1.py", d] + (["--stop"] if KIND == "mut" else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        l = [x for x in p.stdout.splitlines() if x.startswith("@@")]
        r = json.loads(l[0][2:]) if l else {"crash": (4, (p.stderr or "timeout")[-500:], 0)}
    finally:
        shutil.copy(f, tgt)
    for k, v in r.items():
        if isinstance(v, (list, tuple)) and v[0] == 1:
            caught[f][k] += 1
    shutil.rmtree(d + "/ev", ignore_errors=True)
    shutil.rmtree(d + "/cache", ignore_errors=True)
    return r


ts = [threading.Thread(target=worker, args=(i,)) for i in range(N)]
for t in ts:
    t.start()
for t in ts:
    t.join()
