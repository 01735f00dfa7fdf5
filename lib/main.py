import importlib
import os
import sys


def main():
    args = sys.argv[1:]
    only = None
    if '--only' in args:
        i = args.index('--only')
        only = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import vtime
    vtime.install()
    import mc
    ctx = mc.Ctx(prop, tier, seed, only)
    mod = importlib.import_module(prop.lower())
    try:
        mod.run(ctx)
    except Exception:
        import traceback
        traceback.print_exc()
        if not ctx.viol:        # violations found before the harness stopped are still violations
            sys.exit(3)
    rc = ctx.finish()
    sys.stdout.flush()
    os._exit(rc) if rc == 0 else sys.exit(rc)


main()
