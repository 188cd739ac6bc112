#!/usr/bin/env python3
"""check.py <property id>: decide one property from the current sources of /repo (static analysis only)."""
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    from qsa.checks.registry import CHECKS
    if len(argv) != 1 or argv[0] not in CHECKS:
        print('usage: check.py ' + '|'.join(sorted(CHECKS)))
        return 2
    return CHECKS[argv[0]]()


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
