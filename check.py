#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property of markbates/pkger.

exit 0: held on everything explored; 1: violated (VIOLATION line printed);
3: the machinery could not decide.
"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, registry


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in registry.CHECKS:
        print("usage: check.py", "|".join(sorted(registry.CHECKS)), "[quick|thorough]")
        return 3
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = core.Ctx(pid, tier)
    try:
        try:
            registry.CHECKS[pid](ctx)
        except core.Crash:
            pass
        return ctx.finish()
    except core.Broken as e:
        print("BROKEN:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        ctx.cleanup()


sys.exit(main())
