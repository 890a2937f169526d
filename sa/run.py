"""python3 -m sa.run <property> : decide one property from /repo's current source."""
import importlib
import os
import sys
import time
import traceback


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    from .core import Ctx, Report, finish, Broken
    mod = importlib.import_module('sa.rules.' + prop.lower())
    try:
        ctx = Ctx(os.environ.get('VERIF_REPO', '/repo'))
        ctx.tier = tier
        rep = Report(prop)
        try:
            mod.check(ctx, rep)
        except Broken:
            raise
        except Exception as e:
            # the rule met code of a shape it does not model: what it established stays, the rest is undecided
            traceback.print_exc()
            rep.und('analysis', 'rest of the rule', None, '%s: %s' % (type(e).__name__, e))
        rep.stats.setdefault('modules_parsed', len(ctx.I.files))
        rep.stats.setdefault('functions_in_scope', len(ctx.I.fns))
        rep.stats.setdefault('operation_classes', len(ctx.I.chclasses))
        rep.stats.setdefault('functions_inlined', len(ctx.I.used_fns))
        if not rep.items:
            rep.und('analysis', 'all', None, 'no rule instance found')
        return finish(rep, tier, seed, t0, 'other', mod.EXPLAIN)
    except Broken as e:
        print('analysis broken: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
