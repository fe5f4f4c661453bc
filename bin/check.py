#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property on the working tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop)
        mod.run(ctx)
    except vlib.CheckError as e:
        if ctx.violations:      # a verdict was reached before the check gave up
            ctx.finish()
        if ctx.compile_verdict and isinstance(e, vlib.CompileError) and vlib.compiler_works():
            ctx.violation({"compiler": str(e)}, "a program using the interface as documented does not compile")
            ctx.finish()
        print("CHECK ERROR %s: %s" % (prop, e))
        vlib.fin(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if ctx.violations:
            ctx.finish()
        vlib.fin(2)
    ctx.finish()


main()
