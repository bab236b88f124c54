#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough]: decide one property statically on /repo's tree.
exit 0 holds; exit 1 + VIOLATION line: broken; exit 3: the analysis itself cannot decide."""
import argparse
import importlib
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.setrecursionlimit(6000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from sa.repo import AnalysisBroken, Repo
    from sa.report import Report, finish
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    rep = None
    try:
        mod = importlib.import_module('rules.' + a.id.lower())
        rep = Report(a.id)
        repo = Repo()
        rep.saw('modules_parsed', len(repo.modules))
        mod.check(repo, rep, tier)
        if not rep.obligations:
            raise AnalysisBroken('no obligations generated')
        return finish(rep, tier, seed, t0, mod.EXPLANATION, mod.RULE, getattr(mod, 'ASSUMPTIONS', []))
    except AnalysisBroken as e:
        if rep is not None and rep.bad:
            print('analysis stopped early: %s' % e)
            if finish(rep, tier, seed, t0, mod.EXPLANATION, mod.RULE, getattr(mod, 'ASSUMPTIONS', [])) == 1:
                return 1
        print('ANALYSIS-BROKEN property=%s %s' % (a.id, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.id)
        return 3


if __name__ == '__main__':
    sys.exit(main())
