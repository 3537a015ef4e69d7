#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] | check.py --replay FILE | check.py --setup"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from irsym import driver, checks  # noqa: E402


def main(a):
    if a[:1] == ["--replay"]:
        return driver.replay(a[1])
    if a[:1] == ["--setup"]:
        from irsym import build

        for k in ("core", "resize", "avx512"):
            try:
                print(k, build.build(k))
            except build.BuildError as e:
                print(k, "build failed:", e)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return driver.main(checks.REGISTRY[a[0]](), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
