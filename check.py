#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import vc
    ctx = vc.Ctx(prop, tier)
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
    except Exception as e:
        traceback.print_exc()
        if type(e).__name__ == 'SimDied' and isinstance(e.rc, int) and (e.rc == 86 or e.rc < 0):
            ctx.violation('server died: %s\n%s' % (e, e.log[-2500:]), {'log': e.log[-6000:]})
        import shutil
        if ctx.violations:
            sys.exit(ctx.finish())
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        sys.exit(2)
    sys.exit(ctx.finish(getattr(mod, 'LEVEL', 'model_checking')))


main()
