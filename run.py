"""
run.py CNN            run the check of a property (VERIF_SEED, VERIF_TIER)
run.py CNN thorough   the same, thorough tier
run.py replay FILE    execute a recorded violation again
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from svv import core  # noqa: E402


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    if sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run_check(sys.argv[1].lower(), tier, seed)


if __name__ == "__main__":
    sys.exit(main())
