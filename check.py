#!/usr/bin/env python3
"""check.py <property>: decides one property by static analysis of /repo's current tree.
exit 0: holds (known findings are printed); 1: VIOLATION; 2: the analysis could not decide."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.facts import AnalysisBroken
from sa.rules.base import Report

def main(pid):
    mod = importlib.import_module('sa.rules.' + pid.lower())
    rep = Report(pid)
    try:
        mod.run(rep)
        return rep.finish()
    except Exception as e:
        # violations found before the analysis gave up still count
        if any(k for k in rep.viol):
            try:
                r = rep.finish()
                if r == 1: return 1
            except AnalysisBroken: pass
        if not isinstance(e, AnalysisBroken): traceback.print_exc()
        print('%s: no answer: %s' % (pid, e))
        return 2

if __name__ == '__main__':
    rc = 0
    for pid in sys.argv[1:]:
        try: r = main(pid)
        except Exception:
            traceback.print_exc(); r = 2
        rc = max(rc, r) if 1 not in (rc, r) else 1
    sys.exit(rc)
