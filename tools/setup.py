#!/usr/bin/env python3
"""Nothing to build: check that the analyser's own sources compile and the parts it needs are there."""
import ast
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d, _, fs in os.walk(os.path.join(here, "sa")):
    for f in fs:
        if f.endswith(".py"):
            ast.parse(open(os.path.join(d, f)).read(), f)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("analyser ready, python", sys.version.split()[0])
