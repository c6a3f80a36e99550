import importlib
import os
import sys


def main():
    from vp import env

    env.ensure()
    prop = sys.argv[1]
    from vp import core

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
        sys.argv.remove("--thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    module = importlib.import_module(f"checks.{prop.lower()}")
    if len(sys.argv) > 2:
        return core.replay(prop, module, sys.argv[2])
    return core.run_check(prop, module, tier, seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
