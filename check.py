#!/usr/bin/env python3
"""python3 /verif/check.py <property-id>: decide one property from /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.core import main  # noqa: E402

sys.setrecursionlimit(20000)
sys.exit(main(sys.argv))
