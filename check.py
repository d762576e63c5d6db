#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides a property: explores the specification with TLC, replays the behaviours it finds on the code
built from /repo's working tree, and checks traces recorded from the code against the specification.
Exit 0: the property held on everything explored.  Exit 1: VIOLATION.  Anything else: no answer."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import impl  # noqa: E402
import properties  # noqa: E402
from report import Report  # noqa: E402


def main():
    if sys.argv[1:] == ["setup"]:
        print(impl.harness())
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in properties.CHECKS:
        print("usage: check.py <property> [quick|thorough]; properties: " + " ".join(sorted(properties.CHECKS)))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    report = Report(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        properties.CHECKS[prop](report)
    except Exception:
        traceback.print_exc()
        return 2
    return report.finish()


if __name__ == "__main__":
    sys.exit(main())
