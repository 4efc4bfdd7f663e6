#!/usr/bin/env python3
"""check.py ID [--dump FN]: decide property ID on /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.facts import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    from sa.ctx import Ctx
    try:
        mod = importlib.import_module('props.' + pid.lower())
        c = Ctx(pid, tier)
        mod.check(c)
        if len(c.obl) < mod.MIN:
            raise AnalysisBroken('%s: only %d obligations were generated, at least %d were confirmed by hand' % (pid, len(c.obl), mod.MIN))
        return c.finish('other', mod.EXPLAIN)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


sys.exit(main())
