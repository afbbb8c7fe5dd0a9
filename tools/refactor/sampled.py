#!/usr/bin/env python3
"""check.py with only every n-th scenario of the slow checks (for the refactoring trials; not a registered command)."""
import os
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
import check
from sa.kit import Kit
EVERY = {"C30": 6, "C34": 3, "C17": 2}
n = EVERY.get(sys.argv[1], 1)
if n > 1:
    real = Kit.scenario

    def scenario(self, label, fn, **kw):
        if zlib.crc32(label.encode()) % n == 0:
            return real(self, label, fn, **kw)
    Kit.scenario = scenario
    __import__("importlib").import_module("sa.props." + sys.argv[1].lower()).MIN_SCENARIOS = 1
sys.exit(check.main(sys.argv[1:]))
