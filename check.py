#!/usr/bin/env python3
"""check.py <property id> : decide one property on the current /repo tree."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine.facts import AnalysisBroken


def main():
    if sys.argv[1] == '--setup':
        from engine import facts
        facts.build_extractor()
        for p in ('lib', 'tbx'):
            facts.load(p)
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        import numpy   # noqa: F401
    except ModuleNotFoundError:
        if os.environ.get('VERIF_REEXEC'):
            raise
        os.environ['VERIF_REEXEC'] = '1'
        os.execvp('python3-vt', ['python3-vt'] + sys.argv)
    from rules import registry, base
    mod, fn = registry.RULES[pid]
    m = importlib.import_module('rules.' + mod)
    ck = base.Check(pid, tier, seed)
    try:
        getattr(m, fn)(ck)
        return ck.finish()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3


if __name__ == '__main__':
    sys.exit(main())
