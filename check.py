#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough]

Exit 0: the property held on everything explored; 1: a VIOLATION line was printed; 2: the check itself failed."""
import os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import ctx, mewabuild, registry
    c = ctx.Ctx(prop, tier, seed)
    c.watch()
    try:
        so = mewabuild.build()
    except mewabuild.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    try:
        registry.CHECKS[prop](c, so)
    except Exception:
        traceback.print_exc()
        if not c.violations:
            return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
