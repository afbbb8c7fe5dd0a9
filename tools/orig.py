#!/usr/bin/env python3
"""orig.py BASE: which planted changes touch lines that are not in the original tree (exported to BASE)."""
import glob, os, sys
base = sys.argv[1]
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/*/patch.diff")):
    f = None
    minus = 0
    for l in open(d, encoding="utf-8", newline=""):
        l = l.rstrip("\r\n")
        if l.startswith("--- a/"):
            f = [x.rstrip("\r\n") for x in open(os.path.join(base, l[6:]), encoding="utf-8", newline="")]
        elif l.startswith("-") and not l.startswith("---"):
            minus += 1
            if l[1:] not in f:
                print(d.split("/")[-2], "not original:", l[1:].strip()[:100])
    if not minus:
        print(d.split("/")[-2], "only adds lines")
