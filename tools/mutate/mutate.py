#!/usr/bin/env python3
"""Small systematic changes of the package (operators, conditions, constants, deleted statements, swapped siblings,
dropped copies), each run through the checks that analyse the changed function, cheapest first, until one reports it.
The survivors are listed (tools/mutate/survivors.json) to be judged by hand: no change of behaviour, outside every
property, or missed.
usage: mutate.py list | mutate.py run [--step N] [--offset K] [--only FILEPART] [--out FILE] | mutate.py show ID"""
import ast
import concurrent.futures as cf
import copy
import difflib
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src/opyenxes"
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
REV = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
LOSE = {"copy", "deepcopy", "clone", "lower", "upper", "strip", "set", "list", "dict", "str", "int", "float", "sorted", "tuple",
        "items_copy", "format"}
SIBLINGS = [("trace", "event"), ("event", "trace"), ("log", "trace"), ("start", "end"), ("end", "start"), ("name", "prefix"), ("key", "value"),
            ("meta", "event"), ("amount", "driver"), ("driver", "type"), ("type", "amount"), ("group", "role"),
            ("role", "resource"), ("resource", "group"), ("min", "max"), ("first", "last"), ("left", "right"), ("lower", "upper"),
            ("upper", "lower"), ("append", "insert"), ("days", "hours"), ("hours", "minutes"), ("minutes", "seconds"),
            ("list", "container"), ("container", "list"), ("update", "setdefault")]


def names_of(cls_or_mod):
    out = set()
    for n in ast.walk(cls_or_mod):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name):
            out.add(n.id)
    return out


def variants(node, parents, names):
    """new nodes for `node` (or a list of statements, or None to delete)"""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        t = type(node.ops[0])
        n = copy.deepcopy(node)
        n.ops = [CMP[t]()]
        out.append(("cmp", n))
        if t in REV:
            n = copy.deepcopy(node)
            n.ops = [REV[t]()]
            out.append(("rev", n))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        if not (isinstance(node.test, ast.Compare) and type(node.test.ops[0]) in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            n = copy.deepcopy(node)
            n.test = ast.UnaryOp(ast.Not(), n.test)
            out.append(("not", n))
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            out.append(("always" if v else "never", n))
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append(("andor", n))
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            out.append(("drop%d" % i, n.values[0] if len(n.values) == 1 else n))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant):
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        out.append(("arith", n))
        out.append(("left", node.left))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(("unary", node.operand))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(("bool", ast.Constant(not v)))
        elif isinstance(v, int):
            out.append(("int+", ast.Constant(v + 1)))
        elif isinstance(v, str) and not isinstance(parents[-1], (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
            out.append(("str", ast.Constant(v + "_" if v else "_")))
            if v != v.lower():
                out.append(("lowerstr", ast.Constant(v.lower())))
    if isinstance(node, ast.Call):
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm in LOSE:
            if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id == "copy") and not isinstance(f.value, ast.Constant):
                out.append(("lose", f.value))
            elif len(node.args) == 1:
                out.append(("lose", node.args[0]))
        if len(node.args) >= 2:
            for i in range(len(node.args) - 1):
                n = copy.deepcopy(node)
                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                out.append(("swap%d" % i, n))
            n = copy.deepcopy(node)
            del n.args[-1]
            out.append(("fewer", n))
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            out.append(("nokw%d" % i, n))
    if isinstance(node, (ast.Attribute, ast.Name)):
        nm = node.attr if isinstance(node, ast.Attribute) else node.id
        for a, b in SIBLINGS:
            if re.search(r"(?<![a-z])%s" % a, nm):
                w = re.sub(r"(?<![a-z])%s" % a, b, nm)
                if w in names and w != nm:
                    n = copy.deepcopy(node)
                    if isinstance(node, ast.Attribute):
                        n.attr = w
                    else:
                        n.id = w
                    out.append(("sib-" + w, n))
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        out.append(("retnone", ast.Return(None)))
    if isinstance(node, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(("delete", ast.Pass()))
    if isinstance(node, ast.Assign):
        if not isinstance(node.targets[0], ast.Name) or any(isinstance(p, (ast.If, ast.For, ast.While, ast.Try)) for p in parents):
            out.append(("delete", ast.Pass()))
    if isinstance(node, (ast.Break, ast.Continue)):
        out.append(("jump", ast.Continue() if isinstance(node, ast.Break) else ast.Break()))
        out.append(("delete", ast.Pass()))
    if isinstance(node, ast.For):
        n = copy.deepcopy(node)
        n.body = n.body + [ast.Break()]
        out.append(("once", n))
    if isinstance(node, ast.With):
        out.append(("nowith", [ast.Assign([i.optional_vars], i.context_expr, lineno=node.lineno) if i.optional_vars else ast.Expr(i.context_expr)
                               for i in node.items] + node.body))
    if isinstance(node, ast.Try) and node.finalbody:
        out.append(("nofinally", node.body))
    if isinstance(node, ast.FunctionDef) and node.args.defaults and parents and isinstance(parents[-1], ast.ClassDef):
        pass
    return out


def walk(node, path, parents):
    """(path, node, parents) over everything except docstrings"""
    for field, value in ast.iter_fields(node):
        if isinstance(value, list):
            for i, v in enumerate(value):
                if isinstance(v, ast.AST):
                    yield from visit(v, path + [(field, i)], parents + [node])
        elif isinstance(value, ast.AST):
            yield from visit(value, path + [(field, None)], parents + [node])


def visit(n, path, parents):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return
    if isinstance(n, (ast.expr_context, ast.operator, ast.cmpop, ast.arguments)) and not isinstance(n, ast.arguments):
        return
    yield path, n, parents
    yield from walk(n, path, parents)


def replace(tree, path, new):
    t = copy.deepcopy(tree)
    n = t
    for f, i in path[:-1]:
        n = getattr(n, f)
        if i is not None:
            n = n[i]
    f, i = path[-1]
    if i is None:
        setattr(n, f, new)
    else:
        lst = getattr(n, f)
        if isinstance(new, list):
            lst[i:i + 1] = new
        else:
            lst[i] = new
    return t


def mutants():
    out = []
    for p in sorted(glob.glob(SRC + "/**/*.py", recursive=True)):
        rel = os.path.relpath(p, SRC)
        tree = ast.parse(open(p, encoding="utf-8-sig").read())
        names = names_of(tree)
        base = ast.unparse(tree)
        seen = {base}
        for path, n, parents in walk(tree, [], []):
            if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in parents + [n]):
                continue
            fns = [x.name for x in parents if isinstance(x, (ast.FunctionDef, ast.Lambda)) and hasattr(x, "name")]
            cl = [x.name for x in parents if isinstance(x, ast.ClassDef)]
            for kind, new in variants(n, parents, names):
                try:
                    src = ast.unparse(ast.fix_missing_locations(replace(tree, path, new)))
                except Exception:
                    continue
                if src in seen:
                    continue
                seen.add(src)
                out.append({"id": "%s:%s:%d.%d:%s" % (rel, ".".join(cl + fns), n.lineno, n.col_offset, kind), "file": rel,
                            "function": fns[-1] if fns else None, "base": base, "src": src})
    return out


def diff(m):
    return "\n".join(l for l in difflib.unified_diff(m["base"].split("\n"), m["src"].split("\n"), lineterm="", n=0) if l[:2] not in ("--", "++", "@@"))


SLOW = ["C15", "C37", "C34", "C36", "C17", "C30"]


def relevance():
    man = json.load(open(HERE + "/MANIFEST.json"))
    rel = {}
    for c in man["checks"]:
        e = json.load(open("%s/evidence/%s.json" % (HERE, c["property"])))
        fs = {m.groups() for m in (re.match(r"opyenxes/(.*?):\d+ (.*)", f) for f in e["coverage"]["functions"]) if m}
        rel[c["property"]] = (e["wall_s"], fs)
    return rel


def main(argv):
    ms = mutants()
    if argv[0] == "list":
        for m in ms:
            print(m["id"])
        print(len(ms))
        return
    if argv[0] == "show":
        for m in ms:
            if m["id"] in argv[1:]:
                print(m["id"])
                print(diff(m))
        return
    def opt(n, d):
        return argv[argv.index(n) + 1] if n in argv else d
    step, off = int(opt("--step", 1)), int(opt("--offset", 0))
    only = opt("--only", "")
    out = opt("--out", HERE + "/tools/mutate/survivors.json")
    todo = [m for m in ms if only in m["id"]][off::step]
    if "--from" in argv:     # the survivors of an earlier run
        ids = {r["id"] for r in json.load(open(opt("--from", ""))) if "by" not in r}
        todo = [m for m in ms if m["id"] in ids]
    drop = [x for x in opt("--drop", "").split(",") if x]
    todo = [m for m in todo if not any(m["id"].endswith(x) for x in drop)]
    rel = relevance()
    local = threading.local()
    hot = {}
    done = []
    lock = threading.Lock()
    dirs = []

    def one(m):
        if not hasattr(local, "d"):
            local.d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
            dirs.append(local.d)
            shutil.copytree(REPO, local.d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
            shutil.copytree(HERE, local.d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        d = local.d
        f = "%s/repo/src/opyenxes/%s" % (d, m["file"])
        keep = open(f, "rb").read()
        open(f, "w").write(m["src"])
        res = {"id": m["id"], "diff": diff(m), "no_answer": []}
        try:
            cand = [c for c, (w, fs) in rel.items() if m["function"] is None or (m["file"], m["function"]) in fs or c in ("C24", "C37")]
            h = hot.get(m["id"].rsplit(":", 2)[0], [])
            cand.sort(key=lambda c: (rel[c][0] > 15, h.index(c) if c in h else 99, rel[c][0]))
            res["checks"] = len(cand)
            for c in cand:
                if c == "C30" and res["no_answer"]:
                    pass
                try:
                    r = subprocess.run([sys.executable, "check.py", c], cwd=d + "/verif", capture_output=True, text=True, timeout=300,
                                       env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_TIER="quick", VERIF_SEED="1"))
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    res["by"] = c
                    with lock:
                        l = hot.setdefault(m["id"].rsplit(":", 2)[0], [])
                        if c in l:
                            l.remove(c)
                        l.insert(0, c)
                    break
                if rc:
                    res["no_answer"].append(c)
            if "by" not in res:
                r = subprocess.run(["bash", "-c", "cd %s/repo && timeout 60 python3 -c 'import sys; sys.path.insert(0,\"src\"); import opyenxes' " % d],
                                   capture_output=True, text=True)
                res["imports"] = r.returncode == 0
        finally:
            open(f, "wb").write(keep)
        with lock:
            done.append(res)
            if "by" not in res:
                print("SURVIVES %d/%d %s %s" % (len(done), len(todo), m["id"], res["no_answer"]))
                print(res["diff"], flush=True)
            if len(done) % 50 == 0:
                print("... %d/%d, %d survive" % (len(done), len(todo), sum("by" not in r for r in done)), flush=True)
                json.dump(done, open(out, "w"), indent=1)
        return res

    try:
        with cf.ThreadPoolExecutor(int(opt("-j", 8))) as ex:
            list(ex.map(one, todo))
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
        json.dump(done, open(out, "w"), indent=1)
    print("%d changes, %d reported, %d survive" % (len(done), sum("by" in r for r in done), sum("by" not in r for r in done)))


main(sys.argv[1:])
