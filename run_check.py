#!/usr/bin/env python3
"""run_check.py <property-id> : decide one property from /repo's current source."""
import sys
import threading
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))


def main():
    from sa import core
    from sa.registry import CHECKS
    prop = sys.argv[1]
    spec = CHECKS[prop]
    return core.run(prop, spec["run"], spec)


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 3)
