import importlib, os, signal, sys, traceback
from .core import Ctx, CheckError, kill_children


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module('vlib.' + prop.lower())
    ctx = Ctx(prop, tier)
    ctx.watch()
    rc = answer(mod, ctx)
    # nothing left behind may keep the answer from being given
    sys.stdout.flush()
    sys.stderr.flush()
    signal.signal(signal.SIGALRM, signal.SIG_IGN)
    kill_children()
    ctx.cleanup()
    os._exit(rc)


def answer(mod, ctx):
    try:
        mod.run(ctx)
    except CheckError as e:
        print('CHECK-ERROR', e, flush=True)
        return 1 if ctx.violations and ctx.finish() else 2
    except Exception:
        traceback.print_exc()
        return 1 if ctx.violations and ctx.finish() else 2
    return ctx.finish()


if __name__ == '__main__':
    main()
