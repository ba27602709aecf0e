#!/usr/bin/env python3
"""run.py <property> : decide one property on /repo's current tree.  run.py --setup : build the tool."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from engine import AnalysisError
import common, report

MODULES = {'C': 'rules_cache', 'M': 'rules_memalloc', 'H': 'rules_index', 'S': 'rules_server', 'L': 'rules_lib', 'S10': 'rules_conv', 'S07': 'rules_net', 'S04': 'rules_net', 'S08': 'rules_net', 'S09': 'rules_net', 'P': 'rules_main'}


def main():
    if sys.argv[1] == '--setup':
        common.tool()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    for pid in sys.argv[1:]:
        ctx = report.Ctx(pid, 'thorough' if tier == 'thorough' else 'quick', seed)
        try:
            mod = importlib.import_module(MODULES.get(pid) or MODULES[pid[0]])
            getattr(mod, pid)(ctx)
            r = ctx.finish('other')
        except AnalysisError as e:
            print('%s: no answer: %s' % (pid, e))
            if os.environ.get('VP_TRACE'):
                traceback.print_exc()
            r = ctx.finish('other') if ctx.viol else 2
        except Exception as e:
            print('%s: no answer: %s: %s' % (pid, type(e).__name__, e))
            traceback.print_exc()
            r = ctx.finish('other') if ctx.viol else 2
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
