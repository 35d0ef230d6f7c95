#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property of
gemmlowp statically from /repo's current source.  Exit 0 held, 1 violated,
2 no verdict (an anchor vanished or a driver no longer compiles)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))

import build  # noqa: E402
from report import Report  # noqa: E402
from checks import REGISTRY  # noqa: E402


def run(prop, tier):
    modname, fn, level = REGISTRY[prop]
    rep = Report(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    ev = os.path.join(build.VERIF, 'evidence', prop + '.json')
    if os.path.exists(ev):
        os.unlink(ev)
    try:
        mod = importlib.import_module('checks.' + modname)
        trusted = getattr(mod, fn)(rep, tier)
        return rep.finish(level, trusted or [])
    except build.AnalysisBroken as e:
        if rep.viol:
            try:
                rep.notes.append('analysis incomplete: %s' % str(e)[:300])
                return rep.finish(level, [])
            except build.AnalysisBroken:
                pass
        print('%s: no verdict: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('%s: no verdict: internal error' % prop)
        return 2


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        k = argv.index('--tier')
        tier = argv[k + 1]
        del argv[k:k + 2]
    if argv and argv[0] == 'all':
        argv = sorted(REGISTRY)
    if not argv:
        print(__doc__)
        print('properties:', ' '.join(sorted(REGISTRY)))
        return 2
    return max(run(p, tier) for p in argv)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
