"""Entry point of every check: python checks/run.py P04"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(VERIF, "harness"), os.environ.get("PRODSYS_REPO", "/repo")]

import common        # noqa: E402
import properties    # noqa: E402


def main():
    prop = sys.argv[1]
    chk = common.Check(prop)
    try:
        properties.REGISTRY[prop](chk)
    except common.MachineryError as e:
        chk.scratch.close()
        print("CHECK-ERROR:", e, flush=True)
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
