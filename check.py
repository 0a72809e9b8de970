#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current source."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))


def main(prop):
    t0 = time.time()
    import core, prepare
    from props import PROPS
    p = PROPS[prop]
    try:
        ctx = core.Ctx(prop)
    except prepare.BuildError as e:
        print(e)
        print(f"{prop}: /repo does not type-check, nothing was analysed")
        return 2
    for f in p["rules"]:
        try:
            f(ctx)
        except Exception as e:
            # a rule that cannot cope with the source decides nothing
            import traceback
            traceback.print_exc()
            ctx.unknown(f"rule {f.__name__}", "/repo", "the rule applies to the source", f"{type(e).__name__}: {e}")
    return core.finish(ctx, os.environ.get("VERIF_TIER", "quick"), t0, p["explains"], p["technique"])


if __name__ == "__main__":
    if len(sys.argv) != 2:
        sys.exit("usage: check.py ID")
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.setrecursionlimit(20000)
    import resource
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        if os.environ.get("VERIF_STACK") != "1":
            resource.setrlimit(resource.RLIMIT_STACK, (hard if hard == resource.RLIM_INFINITY else hard, hard))
            os.environ["VERIF_STACK"] = "1"
            os.execv(sys.executable, [sys.executable] + sys.argv)
    except (ValueError, OSError):
        pass
    sys.exit(main(sys.argv[1]))
