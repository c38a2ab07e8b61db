#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree (see DESIGN.md)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        core.build_driver()
        print("driver built")
        sys.exit(0)
    try:
        sys.exit(core.main(sys.argv[1]))
    except core.Broken as e:
        sys.stderr.write("%s\n" % e)
        sys.exit(2)
