#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - runs one registered check."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.setrecursionlimit(60000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import threading
    threading.stack_size(1024 * 1024 * 1024)
    rc = [0]

    def body():
        import registry
        rc[0] = registry.run(prop, tier)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
