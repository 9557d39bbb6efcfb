#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]: decide one property against /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
from checks import REGISTRY

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(core.run_check(pid, REGISTRY[pid], sys.argv[2] if len(sys.argv) > 2 else None))
