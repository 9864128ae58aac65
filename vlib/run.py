import importlib
import json
import os
import sys


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--replay":
            i += 1
            r = json.load(open(args[i]))
            only, seed, tier = r["case"], r["seed"], r["tier"]
        i += 1
    from . import env

    env.setup()
    from .core import Ctx

    mod = importlib.import_module(f"vlib.checks.{pid.lower()}")
    ctx = Ctx(pid, tier, seed, only)
    mod.check(ctx)
    sys.stdout.flush()
    rc = ctx.finish(mod.LEVEL, mod.RULE, getattr(mod, "MIN_EVALS", 10), getattr(mod, "MIN_DISTINCT", 4),
                    getattr(mod, "ASSUMPTIONS", ()))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
