"""scan.py N ID...: one process, the first N cases of each leg; prints the first property that is violated.

A fast sieve for mutants.py; not a check. Exits 1 if something was caught."""
import os
import shutil
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("MUT_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harness  # noqa: E402


def main():
    n, seconds = int(sys.argv[1]), float(os.environ.get("SCAN_S", "60"))
    scratch = harness.make_scratch()
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        harness.setup_process(scratch)
        from lib import registry

        legs = [(prop, leg) for prop in sys.argv[2:] for leg in registry.legs(prop)]
        for share in (0.1, 0.9):
            for prop, leg in legs:
                stop = time.time() + 2 * share * seconds / len(legs)
                for done, (case, _, _) in enumerate(harness._cases(leg, "quick", 1, 0 if share < 0.5 else 1)):
                    if done > n * share or time.time() > stop:
                        break
                    if case is None:
                        continue
                    leg.observed = []
                    message = harness.run_check(leg, case, guard_s=5)
                    if message is not None:
                        print("CAUGHT", prop, leg.name)
                        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
