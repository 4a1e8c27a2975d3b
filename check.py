#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   decides one property on /repo's current sources"""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from registry import CHECKS
    from report import Report
    mod, fn = CHECKS[pid]
    r = Report(pid, tier)
    try:
        getattr(importlib.import_module(mod), fn)(r)
    except Exception as e:
        if os.environ.get("VERIF_TRACE") or e.__class__.__name__ != "AnalysisError":
            traceback.print_exc()
        if r.viol:
            # something is already established: report it, the rest stays unanswered
            print("note: analysis incomplete: %s" % e, file=sys.stderr)
            return r.finish()
        from sai import isfault
        if e.__class__.__name__ == "AnalysisError" and isfault(e):
            r.violation("fault", "", "the analysed program faults on an analysed path: %s" % str(e)[:300])
            return r.finish()
        print("ANALYSIS-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        return 3
    return r.finish()


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
