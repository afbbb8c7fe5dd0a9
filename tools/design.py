#!/usr/bin/env python3
"""Assemble DESIGN.md: head, one section per property (from its module and the table), tail, table of planted changes."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
R = lambda f: open(os.path.join(HERE, f), encoding="utf-8").read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
man = json.loads(R("MANIFEST.json"))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
out = [R("tools/design_head.md"), "\n## 4. The properties\n\nOracle: the property itself, stated over terms (no second implementation). "
       "Numbers are from the last run on the unchanged tree.\n"]
for p in props:
    out.append("\n### %s %s\n\n" % (p["id"], p["title"]))
    if p["id"] in na:
        out.append("Not applicable: %s\n" % na[p["id"]])
        continue
    m = importlib.import_module("sa.props." + p["id"].lower())
    out.append("*How.* %s\n\n*Rule.* %s\n" % (m.METHOD, m.RULE))
    out.append("\n*Inputs quantified over.* %s\n" % p["quantifier"]["text"])
    if getattr(m, "ASSUMES", None):
        out.append("\n*Assumed.* %s.\n" % "; ".join(m.ASSUMES))
    f = os.path.join(HERE, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        c = e["coverage"]
        out.append("\n*Extent.* %d scenarios, %d proved, %d undecided; %d partitions, %d obligations, %d functions of the package; %d s.\n" % (
            c["scenarios"], c["scenarios_proved"], len(c["scenarios_undecided"]), c["partitions_analysed"], c["obligations"],
            c["functions_analysed"], round(e["wall_s"])))
    out.append("\n*Why tests cannot.* %s\n" % p["why_tests_cant"])
out.append("\n" + R("tools/design_tail.md"))
if os.path.exists(HERE + "/tools/caught.json"):
    d = json.loads(R("tools/caught.json"))
    out.append("\n## 8. Planted changes and the checks that report them\n\n| change | what breaks | needs | reported by |\n|---|---|---|---|\n")
    for s in sorted(d):
        if not os.path.exists("%s/seeded/%s/meta.json" % (HERE, s)):
            continue
        t = json.loads(R("seeded/%s/meta.json" % s))
        out.append("| %s | %s | %s | %s |\n" % (s, t["what_it_breaks"], t["needs"], ", ".join(d[s]["reported_by"]) or "**missed**"))
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("".join(out))
