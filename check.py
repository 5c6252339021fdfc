#!/usr/bin/env python3
"""usage: check.py PROPERTY [--replay FILE]"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nbv import driver  # noqa: E402

if __name__ == "__main__":
    replay = None
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        replay = sys.argv[3]
    sys.exit(driver.main(sys.argv[1], replay))
