#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from /repo's current sources.
check.py --setup: build the front end and parse the sources once.
thorough: the same rule decided for two build configurations, with and without assertions."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main(pid, thorough):
    from mc import prog, report
    try:
        P = prog.load()
        m = importlib.import_module("mc.checks." + pid.lower())
        C = report.Check(pid, m.RULE, P)
        try:
            m.run(P, C)
            C.need(getattr(m, "MINIMUM", 1), "rule instances")
            from mc.interp import NONCONV
            if NONCONV:
                C.assumptions.append("loops analysed to the iteration limit only: %s" % ", ".join(sorted({q for q, c in NONCONV})))
        except prog.AnalysisError:
            if all(o[1] for o in C.obs):
                raise
            return C.finish()
        if thorough:
            C.tier = "thorough"
            n = len(C.obs)
            C.variant(" [without assertions]")
            m.run(prog.load(("-DNDEBUG",)), C)
            C.need(n + getattr(m, "MINIMUM", 1), "rule instances without assertions")
        return C.finish()
    except prog.AnalysisError as e:
        print("ANALYSIS-ERROR %s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR %s: internal" % pid)
        return 4


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        from mc import prog
        P = prog.load()
        print("%d translation units, %d functions" % (len(P.tus), len(P.fns)))
        sys.exit(0)
    rc = []
    thorough = "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough"
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1], thorough)))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 4)
