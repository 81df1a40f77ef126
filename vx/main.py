import importlib
import logging
import sys


def main():
    # Messages the library logs are not observed; keep them out of the output
    logging.disable(logging.CRITICAL)
    prop = sys.argv[1].upper()
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    from vx import core
    mod = importlib.import_module("vx.checks." + prop.lower())
    sys.exit(core.run(mod, replay))


main()
