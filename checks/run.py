"""Usage: run.py PROPERTY [quick|thorough] or run.py PROPERTY --replay FILE"""

import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import vlib  # noqa: E402


def load():
    import algebra  # noqa: F401
    import compton  # noqa: F401
    import data  # noqa: F401
    import environment  # noqa: F401
    import integration  # noqa: F401
    import interface  # noqa: F401
    import resonances  # noqa: F401
    import shapes  # noqa: F401
    import systems  # noqa: F401
    import thermal  # noqa: F401
    import users  # noqa: F401


if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        load()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        sys.exit(vlib.replay(prop, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(vlib.main(prop, tier, int(os.environ.get("VERIF_SEED", "1"))))
