"""Draft of sa/props/api.json (documented signatures); the committed table was reviewed by hand afterwards."""
import ast
import json
import os
import re
import sys

root = sys.argv[1]
out = {}
for d, ds, fs in os.walk(root):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        t = ast.parse(open(os.path.join(d, f), encoding="utf-8-sig").read())
        for c in t.body:
            if not isinstance(c, ast.ClassDef) or c.name.startswith("_"):
                continue
            ms = out.setdefault(c.name, {})
            for m in c.body:
                if not isinstance(m, ast.FunctionDef) or m.name.startswith("_") and m.name != "__init__":
                    continue
                doc = (ast.get_docstring(m) or "") + "\n" + ((ast.get_docstring(c) or "") if m.name == "__init__" else "")
                deco = [ast.unparse(x) for x in m.decorator_list]
                args = m.args.args[0 if "staticmethod" in deco else 1:]
                nd = len(m.args.defaults)
                ps = []
                for i, a in enumerate(args):
                    g = re.search(r":type\s+%s:\s*(.*(?:\n\s{2,}\S.*)*)" % a.arg, doc)
                    ps.append([a.arg, " ".join(g.group(1).split()).replace("`", "") if g else "?", i >= len(args) - nd])
                r = re.search(r":rtype:\s*(.*)", doc)
                ms[m.name] = {"static": "staticmethod" in deco, "params": ps, "returns": r.group(1).strip().replace("`", "") if r else None}
json.dump(out, sys.stdout, indent=0)
