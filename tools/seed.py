#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: make, confirm and keep planted changes.  SPEC holds S(id, prop, needs, breaks, edits, demo)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = []


def S(id, prop, needs, breaks, edits, demo):
    specs.append((id, prop, needs, breaks, edits, demo))


exec(open(sys.argv[1]).read())
only = sys.argv[2:]
SH = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


for id, prop, needs, breaks, edits, demo in specs:
    if only and id not in only:
        continue
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    repo = w + "/repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        bad = None
        for f, old, new in edits:
            p = repo + "/src/opyenxes/" + f
            s = open(p, newline="", encoding="utf-8").read()
            if s.count(old) != 1:
                bad = "edit matches %d times: %r" % (s.count(old), old)
                break
            open(p, "w", newline="", encoding="utf-8").write(s.replace(old, new))
        if bad:
            print(id, "BAD", bad)
            continue
        d = run(["git", "-C", repo, "diff"]).stdout
        out = HERE + "/seeded/" + id
        os.makedirs(w + "/s")
        open(w + "/s/demo.py", "w").write(demo.strip("\n") + "\n")
        open(w + "/s/demo.sh", "w").write(SH)
        os.chmod(w + "/s/demo.sh", 0o755)
        env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1")
        t = run(["/opt/venv/bin/python", "-c", "import opyenxes;print(opyenxes.__file__)"], cwd=repo, env=env).stdout
        assert repo in t, t
        clean = run([w + "/s/demo.sh"], cwd="/repo")
        pl = run([w + "/s/demo.sh"], cwd=repo)
        tests = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env)
        base = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd="/repo",
                   env=dict(os.environ, PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1"))
        tail = (tests.stdout.strip().splitlines() or ["?"])[-1].split(" in ")[0]
        tail0 = (base.stdout.strip().splitlines() or ["?"])[-1].split(" in ")[0]
        ck = run(["python3", HERE + "/check.py", prop], env=dict(os.environ, VERIF_REPO=repo))
        good = clean.returncode == 0 and pl.returncode != 0 and tail == tail0
        print(id, prop, "OK" if good else "REJECTED", "| check exit", ck.returncode, "| tests", tail, "vs", tail0, "| demo",
              clean.returncode, pl.returncode, (pl.stderr.strip().splitlines() or [""])[-1][:90])
        if clean.returncode:
            print("   clean:", clean.stderr[-600:])
        if ck.returncode != 1:
            print("   check:", ck.stdout[-500:], ck.stderr[-300:])
        elif "-v" in os.environ.get("SEEDV", ""):
            print(ck.stdout[:600])
        if good:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f in ("demo.py", "demo.sh"):
                shutil.copy(w + "/s/" + f, out)
            open(out + "/patch.diff", "w").write(d)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
