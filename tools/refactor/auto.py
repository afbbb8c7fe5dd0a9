#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package; every check has to stay quiet on each.
usage: auto.py [transform...] [-p CNN,CNN]"""
import ast
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = {}


def t(f):
    T[f.__name__] = f
    return f


class N:
    n = 0

    @classmethod
    def new(cls, base="tmp"):
        cls.n += 1
        return "%s_%d" % (base, cls.n)


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def has(node, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(node))


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


@t
def result_variable(tree):
    """return E  ->  result = E; return result"""
    class V(ast.NodeTransformer):
        def visit_Return(self, n):
            if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
                return n
            v = N.new("result")
            return [ast.Assign([name(v, ast.Store())], n.value), ast.Return(name(v))]
    return V().visit(tree)


@t
def invert_ifs(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse:
                return n
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return V().visit(tree)


@t
def named_conditions(tree):
    """if C:  ->  flag = C; if flag:"""
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.Name):
                return n
            v = N.new("flag")
            return [ast.Assign([name(v, ast.Store())], n.test), ast.If(name(v), n.body, n.orelse)]
    return V().visit(tree)


@t
def bool_conditions(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            return ast.If(ast.Call(name("bool"), [n.test], []), n.body, n.orelse)
    return V().visit(tree)


@t
def while_loops(tree):
    """for x in xs: body -> it = iter(xs); while True: try x = next(it) except StopIteration: break; body"""
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse:
                return n
            v = N.new("it")
            return [ast.Assign([name(v, ast.Store())], ast.Call(name("iter"), [n.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([n.target], ast.Call(name("next"), [name(v)], []))], [
                        ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])] + n.body, [])]
    return V().visit(tree)


@t
def enumerate_loops(tree):
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            return ast.For(ast.Tuple([name(N.new("_i"), ast.Store()), n.target], ast.Store()), ast.Call(name("enumerate"), [n.iter], []),
                           n.body, n.orelse)
    return V().visit(tree)


@t
def list_loops(tree):
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            return ast.For(n.target, ast.Call(name("list"), [n.iter], []), n.body, n.orelse)
    return V().visit(tree)


@t
def fstrings(tree):
    """'{}..'.format(a) -> f-string, str(a) + 'x' stays; '' + chains of str untouched"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and not n.keywords \
                    and f.value.value.count("{}") == len(n.args) and f.value.value.replace("{}", "").count("{") == 0:
                parts = f.value.value.split("{}")
                vals = []
                for i, p in enumerate(parts):
                    if p:
                        vals.append(ast.Constant(p))
                    if i < len(n.args):
                        vals.append(ast.FormattedValue(n.args[i], -1, None))
                return ast.JoinedStr(vals)
            return n
    return V().visit(tree)


@t
def percent_format(tree):
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and not n.keywords \
                    and f.value.value.count("{}") == len(n.args) and f.value.value.replace("{}", "").count("{") == 0:
                return ast.BinOp(ast.Constant(f.value.value.replace("%", "%%").replace("{}", "%s")), ast.Mod(), ast.Tuple(n.args, ast.Load()))
            return n
    return V().visit(tree)


@t
def join_concat(tree):
    """a + 'x' on texts -> ''.join([a, 'x'])"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                return ast.Call(ast.Attribute(ast.Constant(""), "join", ast.Load()), [ast.List([n.left, n.right], ast.Load())], [])
            return n
    return V().visit(tree)


@t
def dict_get(tree):
    """d.get(k) -> (d[k] if k in d else None), where both are names or attributes, only for get_attributes()"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "get" and len(n.args) == 1 and isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Attribute) and f.value.func.attr == "get_attributes":
                return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [f.value]), ast.Subscript(f.value, n.args[0], ast.Load()), ast.Constant(None))
            return n
    return V().visit(tree)


@t
def dict_try(tree):
    """v = x.get_attributes().get(k) -> try: v = x.get_attributes()[k] except KeyError: v = None"""
    class V(ast.NodeTransformer):
        def visit_Assign(self, n):
            f = n.value
            if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and f.func.attr == "get" and len(f.args) == 1 and \
                    isinstance(f.func.value, ast.Call) and isinstance(f.func.value.func, ast.Attribute) and f.func.value.func.attr == "get_attributes":
                return ast.Try([ast.Assign(n.targets, ast.Subscript(f.func.value, f.args[0], ast.Load()))], [ast.ExceptHandler(
                    name("KeyError"), None, [ast.Assign(n.targets, ast.Constant(None))])], [], [])
            return n
    return V().visit(tree)


@t
def inner_functions(tree):
    """The body of each plain method goes into an inner function."""
    for f in functions(tree):
        if has(f, ast.Yield, ast.Nonlocal) or f.name in ("__new__",) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                                                          x.func.id == "super" for x in ast.walk(f)):
            continue
        if f.name == "__init__" or len(f.body) < 2 or any(isinstance(x, ast.FunctionDef) for s in f.body for x in ast.walk(s)):
            continue
        # assigned parameters would become local
        args = {a.arg for a in f.args.args}
        stored = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if args & stored:
            continue
        h = N.new("body")
        f.body = [ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), f.body, [], None, type_params=[]), ast.Return(
            ast.Call(name(h), [], []))]
    return tree


@t
def extracted_methods(tree):
    """The body of each method (without super or name clashes) goes into a helper method _do_NAME of the same class."""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != "self" or \
                    f.name.startswith("__") or has(f, ast.Yield) or f.args.vararg or f.args.kwarg or any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
                continue
            h = N.new("_do_" + f.name + "_" + c.name)
            a = ast.arguments([], [ast.arg(x.arg) for x in f.args.args], None, [], [], None, [])
            new.append(ast.FunctionDef(h, a, f.body, [], None, type_params=[]))
            f.body = [ast.Return(ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(x.arg) for x in f.args.args[1:]], []))]
        c.body += new
    return tree


@t
def module_functions(tree):
    """The body of each static method goes into a function of the module."""
    new = []
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list) and \
                    not any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(f)):
                h = N.new("_%s_%s" % (c.name.lower(), f.name))
                a = ast.arguments([], [ast.arg(x.arg) for x in f.args.args], None, [], [], None, [])
                new.append(ast.FunctionDef(h, a, f.body, [], None, type_params=[]))
                f.body = [ast.Return(ast.Call(name(h), [name(x.arg) for x in f.args.args], []))]
    tree.body += new
    return tree


@t
def rename_locals(tree):
    for f in functions(tree):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for s in f.body for x in ast.walk(s)):
            continue
        args = {a.arg for a in f.args.args}
        stored = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        stored |= {x.name for s in f.body for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in stored:
                    x.id = "z_" + x.id
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    x.name = "z_" + x.name
    return tree


@t
def rename_private(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__"):
            x.attr = "__own_" + x.attr[2:]
        elif isinstance(x, ast.FunctionDef) and x.name.startswith("__") and not x.name.endswith("__"):
            x.name = "__own_" + x.name[2:]
    return tree


@t
def public_fields(tree):
    """self.__x -> self._CLASS_x (explicitly spelled, no mangling)"""
    class V(ast.NodeTransformer):
        cls = []

        def visit_ClassDef(self, n):
            self.cls.append(n.name)
            self.generic_visit(n)
            self.cls.pop()
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr.startswith("__") and not n.attr.endswith("__"):
                n.attr = "_%s_%s" % (self.cls[-1].lower(), n.attr[2:])
            return n

        def visit_FunctionDef(self, n):
            if n.name.startswith("__") and not n.name.endswith("__"):
                n.name = "_%s_%s" % (self.cls[-1].lower(), n.name[2:])
            self.generic_visit(n)
            return n
    return V().visit(tree)


@t
def no_ops(tree):
    for f in functions(tree):
        f.body = [ast.Expr(ast.Constant("body"))] + [s for b in f.body for s in (ast.Assign([name("_unused", ast.Store())], ast.Constant(None)),
                                                                               ast.Pass(), b)]
    return tree


@t
def try_reraise(tree):
    for f in functions(tree):
        if f.name.startswith("__") or has(f, ast.Yield):
            continue
        f.body = [ast.Try(f.body, [ast.ExceptHandler(name("Exception"), "problem", [ast.Raise(None, None)])], [], [])]
    return tree


@t
def try_finally(tree):
    for f in functions(tree):
        if f.name.startswith("__") or has(f, ast.Yield):
            continue
        f.body = [ast.Assign([name("finished", ast.Store())], ast.Constant(False)),
                  ast.Try(f.body, [], [], [ast.Assign([name("finished", ast.Store())], ast.Constant(True))])]
    return tree


@t
def with_to_try(tree):
    """with E as v: body -> v = E; try: body finally: v.close()   (files and connections only, one item)"""
    class V(ast.NodeTransformer):
        def visit_With(self, n):
            self.generic_visit(n)
            if len(n.items) == 1:
                i = n.items[0]
                v = i.optional_vars
                return [ast.Assign([v], i.context_expr), ast.Try(n.body, [], [], [ast.Expr(ast.Call(ast.Attribute(
                    name(v.id), "close", ast.Load()), [], []))])]
            return [self.visit_With(ast.With([n.items[0]], [ast.With(n.items[1:], n.body)]))] if False else n
    return V().visit(tree)


@t
def nested_with(tree):
    class V(ast.NodeTransformer):
        def visit_With(self, n):
            self.generic_visit(n)
            if len(n.items) == 2:
                return ast.With([n.items[0]], [ast.With([n.items[1]], n.body)])
            return n
    return V().visit(tree)


@t
def method_alias(tree):
    """x.append(y) -> add = x.append; add(y)"""
    class V(ast.NodeTransformer):
        def visit_Expr(self, n):
            c = n.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and not (isinstance(c.func.value, ast.Call) and isinstance(
                    c.func.value.func, ast.Name) and c.func.value.func.id == "super"):
                v = N.new("call")
                return [ast.Assign([name(v, ast.Store())], c.func), ast.Expr(ast.Call(name(v), c.args, c.keywords))]
            return n
    return V().visit(tree)


@t
def named_arguments_first(tree):
    """f(a, b) -> arg = a; f(arg, b)"""
    class V(ast.NodeTransformer):
        def visit_Expr(self, n):
            c = n.value
            if isinstance(c, ast.Call) and len(c.args) == 1 and not isinstance(c.args[0], (ast.Starred, ast.Name, ast.Constant)) and \
                    isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                v = N.new("arg")
                return [ast.Assign([name(v, ast.Store())], c.args[0]), ast.Expr(ast.Call(c.func, [name(v)], c.keywords))]
            return n
    return V().visit(tree)


@t
def swap_compare(tree):
    """x == 'const' -> 'const' == x;  x is None -> None is x;  len(x) > 0 -> 0 < len(x)"""
    flip = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is,
            ast.IsNot: ast.IsNot}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in flip and isinstance(n.comparators[0], ast.Constant):
                return ast.Compare(n.comparators[0], [flip[type(n.ops[0])]()], [n.left])
            return n
    return V().visit(tree)


@t
def not_is(tree):
    """a is not b -> not a is b; a not in b -> not a in b; a != b -> not a == b"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            m = {ast.IsNot: ast.Is, ast.NotIn: ast.In}
            if len(n.ops) == 1 and type(n.ops[0]) in m:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
            return n
    return V().visit(tree)


@t
def len_truth(tree):
    """len(x) > 0 -> len(x) >= 1; len(x) == 0 -> not len(x)"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and \
                    isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
                if isinstance(n.ops[0], ast.Gt):
                    return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
                if isinstance(n.ops[0], ast.Eq):
                    return ast.UnaryOp(ast.Not(), n.left)
            return n
    return V().visit(tree)


@t
def ifexp_to_if(tree):
    """return A if C else B -> if C: return A; return B"""
    class V(ast.NodeTransformer):
        def visit_Return(self, n):
            if isinstance(n.value, ast.IfExp):
                return [ast.If(n.value.test, [ast.Return(n.value.body)], []), ast.Return(n.value.orelse)]
            return n
    return V().visit(tree)


@t
def if_to_ifexp(tree):
    """if C: return A  [else:] return B -> return A if C else B"""
    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            b = n.body
            if len(b) >= 2 and isinstance(b[-2], ast.If) and not b[-2].orelse and len(b[-2].body) == 1 and isinstance(
                    b[-2].body[0], ast.Return) and isinstance(b[-1], ast.Return) and b[-1].value and b[-2].body[0].value:
                n.body = b[:-2] + [ast.Return(ast.IfExp(b[-2].test, b[-2].body[0].value, b[-1].value))]
            return n
    return V().visit(tree)


@t
def guard_clauses(tree):
    """def f: ...; if C: BODY (last statement, no else) -> if not C: return; BODY"""
    for f in functions(tree):
        if f.name == "__init__" and False:
            continue
        l = f.body[-1]
        if isinstance(l, ast.If) and not l.orelse:
            f.body = f.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), l.test), [ast.Return(None)], [])] + l.body
    return tree


@t
def else_after_return(tree):
    """if C: ...return; REST -> if C: ...return else: REST"""
    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            b = n.body
            for i, s in enumerate(b[:-1]):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    n.body = b[:i] + [ast.If(s.test, s.body, b[i + 1:])]
                    break
            return n
    return V().visit(tree)


@t
def split_and(tree):
    """if A and B: X (no else) -> if A: if B: X"""
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                r = n.body
                for v in reversed(n.test.values):
                    r = [ast.If(v, r, [])]
                return r[0]
            return n
    return V().visit(tree)


@t
def de_morgan(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
            return n
    return V().visit(tree)


@t
def literals(tree):
    """dict() -> {}, list() -> [], tuple() ..."""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
                if n.func.id == "dict":
                    return ast.Dict([], [])
                if n.func.id == "list":
                    return ast.List([], ast.Load())
            return n
    return V().visit(tree)


@t
def constructors(tree):
    class V(ast.NodeTransformer):
        def visit_Dict(self, n):
            self.generic_visit(n)
            return ast.Call(name("dict"), [], []) if not n.keys else n

        def visit_List(self, n):
            self.generic_visit(n)
            return ast.Call(name("list"), [], []) if not n.elts and isinstance(n.ctx, ast.Load) else n
    return V().visit(tree)


@t
def comprehension_copy(tree):
    """for x in E: L.append(F)   (a loop that only appends to a plain name or attribute) -> L.extend([F for x in E])"""
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call):
                c = n.body[0].value
                if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name):
                    return ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.ListComp(c.args[0], [
                        ast.comprehension(n.target, n.iter, [], 0)])], []))
            return n
    return V().visit(tree)


@t
def annotations(tree):
    for f in functions(tree):
        f.returns = ast.Constant("object")
        for a in f.args.args:
            if a.arg not in ("self", "cls"):
                a.annotation = ast.Constant("object")
    return tree


@t
def keyword_calls(tree):
    """create_attribute_x(a, b, c) -> keyword arguments, set_value(value=...)"""
    KW = {"create_attribute_literal": ["key", "value", "extension"], "create_attribute_continuous": ["key", "value", "extension"],
          "create_attribute_discrete": ["key", "value", "extension"], "create_attribute_timestamp": ["key", "value", "extension"],
          "register_mapping": None}

    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and KW.get(n.func.attr) and not n.keywords:
                return ast.Call(n.func, n.args[:1], [ast.keyword(k, a) for k, a in zip(KW[n.func.attr][1:], n.args[1:])])
            return n
    return V().visit(tree)


@t
def constants(tree):
    """String constants that occur twice in a module become constants of the module."""
    from collections import Counter
    skip = set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.Module, ast.ClassDef, ast.FunctionDef)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(
                x.body[0].value, ast.Constant):
            skip.add(id(x.body[0].value))
        if isinstance(x, ast.JoinedStr):
            skip |= {id(y) for y in ast.walk(x)}
    c = Counter(x.value for x in ast.walk(tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in skip)
    names = {v: "CONST_%d" % i for i, v in enumerate(sorted(v for v in c if c[v] > 1))}

    class V(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, str) and n.value in names and id(n) not in skip:
                return name(names[n.value])
            return n
    tree = V().visit(tree)
    k = 1 if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant) else 0
    tree.body[k:k] = [ast.Assign([name(n, ast.Store())], ast.Constant(v)) for v, n in names.items()]
    return tree


@t
def tuple_membership(tree):
    """x in [..] -> x in (..);  and x == a or x == b unchanged"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.List):
                return ast.Compare(n.left, n.ops, [ast.Call(name("frozenset"), [n.comparators[0]], [])])
            return n
    return V().visit(tree)


@t
def getattr_calls(tree):
    """x.get_attributes() -> getattr(x, 'get_attributes')()"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("get_attributes", "get_key", "get_value"):
                return ast.Call(ast.Call(name("getattr"), [n.func.value, ast.Constant(n.func.attr)], []), n.args, n.keywords)
            return n
    return V().visit(tree)


@t
def update_maps(tree):
    """x.get_attributes()[k] = v -> x.get_attributes().update({k: v})"""
    class V(ast.NodeTransformer):
        def visit_Assign(self, n):
            s = n.targets[0]
            if len(n.targets) == 1 and isinstance(s, ast.Subscript) and isinstance(s.value, ast.Call):
                return ast.Expr(ast.Call(ast.Attribute(s.value, "update", ast.Load()), [ast.Dict([s.slice], [n.value])], []))
            return n
    return V().visit(tree)


@t
def setitem_maps(tree):
    class V(ast.NodeTransformer):
        def visit_Assign(self, n):
            s = n.targets[0]
            if len(n.targets) == 1 and isinstance(s, ast.Subscript) and isinstance(s.value, ast.Call):
                return ast.Expr(ast.Call(ast.Attribute(s.value, "__setitem__", ast.Load()), [s.slice, n.value], []))
            return n
    return V().visit(tree)


@t
def match_chains(tree):
    """if x == 'a': .. elif x == 'b': .. (x a name, three or more) -> match x: case 'a': .."""
    def chain(n):
        out = []
        while True:
            c = n.test
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Eq) and isinstance(c.left, ast.Name) and
                    isinstance(c.comparators[0], ast.Constant) and isinstance(c.comparators[0].value, str)):
                return None
            out.append((c.left.id, c.comparators[0].value, n.body))
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                n = n.orelse[0]
                continue
            return out, n.orelse

    class V(ast.NodeTransformer):
        def visit_If(self, n):
            r = chain(n)
            if r and len(r[0]) > 2 and len({x[0] for x in r[0]}) == 1:
                cs = [ast.match_case(ast.MatchValue(ast.Constant(v)), None, [self.visit(s) for s in b]) for _, v, b in r[0]]
                if r[1]:
                    cs.append(ast.match_case(ast.MatchAs(), None, [self.visit(s) for s in r[1]]))
                return ast.Match(name(r[0][0][0]), cs)
            self.generic_visit(n)
            return n
    return V().visit(tree)


@t
def walrus(tree):
    """v = E; if v: -> if (v := E):"""
    class V(ast.NodeTransformer):
        def block(self, b):
            out = []
            for s in b:
                if out and isinstance(s, ast.If) and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(
                        out[-1].targets[0], ast.Name):
                    v, e = out[-1].targets[0].id, out[-1].value
                    w = ast.NamedExpr(name(v, ast.Store()), e)
                    if isinstance(s.test, ast.Name) and s.test.id == v:
                        out.pop()
                        s.test = w
                    elif isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == v:
                        out.pop()
                        s.test.left = w
                out.append(s)
            return out

        def generic_visit(self, n):
            super().generic_visit(n)
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and not isinstance(n, ast.ClassDef):
                    setattr(n, f, self.block(b))
            return n
    return V().visit(tree)


@t
def import_modules(tree):
    """from a.b import C -> import a.b as m; C used as m.C   (inside functions only)"""
    m = {}
    for i in [x for x in tree.body if isinstance(x, ast.ImportFrom) and x.module and x.module.startswith("opyenxes")]:
        for a in i.names:
            m[a.asname or a.name] = (i.module, a.name)
    used = set()

    class V(ast.NodeTransformer):
        depth = 0

        def visit_FunctionDef(self, n):
            n.args.defaults = n.args.defaults
            self.depth += 1
            n.body = [self.visit(s) for s in n.body]
            self.depth -= 1
            return n

        def visit_Name(self, n):
            if self.depth and n.id in m and isinstance(n.ctx, ast.Load):
                used.add(m[n.id][0])
                return ast.Attribute(name("_m_" + m[n.id][0].replace(".", "_")), m[n.id][1], ast.Load())
            return n
    tree = V().visit(tree)
    last = max([i for i, x in enumerate(tree.body) if isinstance(x, (ast.ImportFrom, ast.Import))], default=-1)
    tree.body[last + 1:last + 1] = [ast.ImportFrom(u.rpartition(".")[0], [ast.alias(u.rpartition(".")[2], "_m_" + u.replace(".", "_"))], 0)
                                    for u in sorted(used)]
    return tree


@t
def lazy_imports(tree):
    """Imports of the package used only inside functions move into the functions."""
    for i in [x for x in tree.body if isinstance(x, ast.ImportFrom) and x.module and x.module.startswith("opyenxes")]:
        if len(i.names) != 1 or i.names[0].asname:
            continue
        nm = i.names[0].name
        outside = False
        fs = []

        def scan(n, f):
            nonlocal outside
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.Name) and c.id == nm:
                    if f is None:
                        outside = True
                    elif f not in fs:
                        fs.append(f)
                if isinstance(c, ast.FunctionDef) and f is None:
                    for d in c.decorator_list + c.args.defaults:
                        scan(d, None)
                    for s in c.body:
                        if isinstance(s, ast.AST):
                            scan(ast.Module([s], []), c)
                else:
                    scan(c, f)
        scan(tree, None)
        if outside or not fs or nm == "XExtensionParser" or any(isinstance(x, ast.ClassDef) for f in fs for x in ast.walk(f)):
            continue
        tree.body.remove(i)
        for f in fs:
            f.body.insert(0, ast.ImportFrom(i.module, [ast.alias(nm)], 0))
    return tree


def sources(root):
    return glob.glob(root + "/src/opyenxes/**/*.py", recursive=True)


def apply(fn, root):
    n = 0
    for p in sources(root):
        s = open(p, encoding="utf-8-sig").read()
        N.n = 0
        a = ast.parse(s)
        u = ast.unparse(a)
        b = ast.unparse(ast.fix_missing_locations(fn(ast.parse(s))))
        if b != u:
            n += 1
            open(p, "w", encoding="utf-8").write(b + "\n")
    return n


def run(tn, props):
    w = tempfile.mkdtemp(prefix="ref_", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        n = apply(T[tn], w + "/repo")
        env = dict(os.environ, PYTHONPATH=w + "/repo/src", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=w + "/repo")
        tests = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=w + "/repo", env=env,
                               capture_output=True, text=True).stdout.strip().splitlines()
        tail = tests[-1].split(" in ")[0] if tests else "?"
        demos = []
        for s in sorted(glob.glob(HERE + "/seeded/*/demo.sh")):
            r = subprocess.run(["sh", s], cwd=w + "/repo", capture_output=True, text=True)
            if r.returncode:
                demos.append(os.path.basename(os.path.dirname(s)) + " " + (r.stderr.strip().splitlines() or ["?"])[-1][:80])
        shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))

        def one(c):
            r = subprocess.run([sys.executable, "tools/refactor/sampled.py", c], cwd=w + "/verif", env=env, capture_output=True, text=True)
            e = w + "/verif/evidence/%s.json" % c
            und = len(json.load(open(e))["coverage"]["scenarios_undecided"]) if os.path.exists(e) else -1
            return c, r.returncode, und, r.stdout + r.stderr[-500:]
        bad = []
        with cf.ThreadPoolExecutor(8) as ex:
            for c, rc, und, out in ex.map(one, props):
                if rc or und - (c == "C01"):
                    bad.append((c, rc, und, out))
        print("%-24s files %d, tests %s%s, checks %s" % (tn, n, tail, ", DEMOS FAIL " + "; ".join(demos) if demos else "",
                                                         "quiet" if not bad else " ".join("%s:%d(und %d)" % b[:3] for b in bad)), flush=True)
        for c, rc, und, out in bad:
            open("/tmp/ref_%s_%s.out" % (tn, c), "w").write(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    props = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    if "-p" in a:
        i = a.index("-p")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    for tn in a or T:
        try:
            run(tn, props)
        except Exception as e:
            print(tn, "FAILED", type(e).__name__, e, flush=True)
