#!/usr/bin/env python3
"""Hand-written behaviour-preserving rewrites, in packs.  packs.py [PACK...] [-p CNN,CNN]

A pack maps a file of the package to ("+", import lines) and ("Class.method" or "function", new source) entries; the
new source replaces that definition (several definitions may replace one).  Each pack is applied to a scratch copy of
/repo: its stable tests and every demonstration of /verif/seeded have to pass there, and every check has to stay quiet.
"""
import ast
import json
import os
import sys
import textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SRC = "src/opyenxes"
PACKS = {}


def P(name, file, *edits):
    PACKS.setdefault(name, []).append((file, edits))


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return tree


def apply(edits_, root):
    for file, edits in edits_:
        path = os.path.join(root, SRC, file)
        raw = open(path, "rb").read()
        bom = raw.startswith(b"\xef\xbb\xbf")
        tree = strip(ast.parse(raw.decode("utf-8-sig")))
        for where, text in edits:
            new = ast.parse(textwrap.dedent(text)).body
            if where == "+":
                at = max([i for i, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))] + [-1]) + 1
                tree.body[at:at] = new
                continue
            if where == "*":
                tree.body = new
                continue
            body = tree.body
            parts = where.split(".")
            for part in parts[:-1]:
                body = next(n for n in body if isinstance(n, ast.ClassDef) and n.name == part).body
            at = next(i for i, n in enumerate(body) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == parts[-1])
            body[at:at + 1] = new
        text = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
        open(path, "wb").write((b"\xef\xbb\xbf" if bom else b"") + text.encode())
    return len(edits_)


exec(open(os.path.join(HERE, "packs_src.py"), encoding="utf-8").read())


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    import auto
    auto.T.clear()
    auto.T.update(PACKS)
    auto.apply = apply
    a = sys.argv[1:]
    props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    if "-p" in a:
        i = a.index("-p")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    for name in a or PACKS:
        try:
            auto.run(name, props)
        except Exception as e:
            print(name, "FAILED", type(e).__name__, e, flush=True)
