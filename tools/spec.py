#!/usr/bin/env python3
"""One table -> properties.jsonl and MANIFEST.json.   usage: python3 tools/spec.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
S = "src/opyenxes/"
P = []
NA = []


def prop(id, title, statement, over, text, tests, files, mech, observe=(), state=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  observe=list(observe), state=list(state), technique=technique, note=note))


def na(id, title, statement, over, text, tests, files, mech, reason):
    prop(id, title, statement, over, text, tests, files, mech)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "table.py")).read())

AI = ("static analysis: interprocedural value-flow abstract interpretation of the syntax trees (provenance-term domain, "
      "abstract heap, trace partitioning on undecided conditions; the analysed code is never imported or executed)")


def main():
    seen = set()
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in sorted(P, key=lambda p: p["id"]):
            assert p["id"] not in seen, p["id"]
            seen.add(p["id"])
            assert len(p["title"]) <= 80, p["id"]
            for f in p["files"]:
                assert os.path.exists(os.path.join("/repo", S + f)), (p["id"], f)
            a = {"files": [S + f for f in p["files"]],
                 "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in p["state"]]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                "anchors": a}) + "\n")
            if any(n["property"] == p["id"] for n in NA):
                continue
            m = importlib.import_module("sa.props." + p["id"].lower())
            checks.append({
                "property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or AI, "level": "other",
                "level_note": p["note"] or "Static analysis, no execution: " + m.RULE})
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": NA,
           "notes": "All checks are one analyser (sa/) applied to /repo/src on every run; see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    try:
        import jsonschema
        for f, s in (("MANIFEST.json", "MANIFEST"),):
            jsonschema.validate(json.load(open(os.path.join(HERE, f))), json.load(open("/root/.vp/%s.schema.json" % s)))
        sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(HERE, "properties.jsonl")):
            jsonschema.validate(json.loads(l), sc)
        print("schemas ok:", len(P), "properties,", len(checks), "checks")
    except ImportError:
        print("no jsonschema here; run with python3-vt")


main()
