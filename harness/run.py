import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402  (must come first)

env.quiet_environment()


def main(argv):
    pid = argv[1]
    import logging
    import warnings

    warnings.simplefilter("ignore")

    logging.disable(logging.CRITICAL)
    env.check_product()
    import importlib

    import core

    mod = importlib.import_module("props.%s" % pid.lower())
    if "--replay" in argv:
        return core.replay(mod, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else None
    return core.run_property(mod, env.TIER, env.SEED, only)


if __name__ == "__main__":
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
