#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID [--replay FILE]: decides property ID on /repo's working tree (see DESIGN.md)."""
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return harness.replay(prop, sys.argv[3])
    code = harness.run_property(prop, tier, seed)
    if code == 0:
        harness.check_known(prop)
    return code


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
