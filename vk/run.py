import importlib
import os
import sys


def main(argv):
    from vk import core
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    core.bootstrap()
    mod = importlib.import_module(f"vk.checks.{prop.lower()}")
    if "--replay" in argv:
        rc = core.replay(mod, argv[argv.index("--replay") + 1])
    else:
        rc = core.main_check(mod, tier, seed)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main(sys.argv[1:])
