#!/usr/bin/env python3
"""Run checks against every planted change (patched scratch copies) and record which report it: tools/caught.json.
usage: caught.py [--all] [seed...]   (--all: every check, not only the one of the seed's property)"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = HERE + "/tools/caught.json"
args = [a for a in sys.argv[1:] if a != "--all"]
every = "--all" in sys.argv
man = json.load(open(HERE + "/MANIFEST.json"))
checks = [c["property"] for c in man["checks"]]
seeds = args or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(HERE + "/seeded/*/meta.json"))
old = json.load(open(OUT)) if os.path.exists(OUT) else {}


def one(seed):
    prop = json.load(open("%s/seeded/%s/meta.json" % (HERE, seed)))["property"]
    w = tempfile.mkdtemp(prefix="caught_", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        subprocess.run(["git", "-C", w + "/repo", "apply", "%s/seeded/%s/patch.diff" % (HERE, seed)], check=True)
        shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        res = {}
        for c in checks if every else [prop]:
            r = subprocess.run([sys.executable, "check.py", c], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo"),
                               capture_output=True, text=True)
            res[c] = r.returncode
        return seed, prop, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


with cf.ThreadPoolExecutor(7) as ex:
    for seed, prop, res in ex.map(one, seeds):
        old[seed] = {"property": prop, "own": res[prop], "reported_by": sorted(c for c in res if res[c] == 1) if every else
                     sorted(set(old.get(seed, {}).get("reported_by", [])) - {prop} | ({prop} if res[prop] == 1 else set())),
                     "no_answer": sorted(c for c in res if res[c] not in (0, 1))}
        print(seed, prop, old[seed]["own"], old[seed]["reported_by"], old[seed]["no_answer"], flush=True)
have = {os.path.basename(os.path.dirname(p)) for p in glob.glob(HERE + "/seeded/*/meta.json")}
json.dump({s: old[s] for s in sorted(old) if s in have}, open(OUT, "w"), indent=1)
