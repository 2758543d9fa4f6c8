#!/usr/bin/env python3
"""run.py <property id> [quick|thorough] -- decide one property on /repo's current source"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)
from checks import common

if __name__ == "__main__":
    rc = []

    def go():
        rc.append(common.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
    go()
    sys.stdout.flush()
    sys.exit(rc[0])
