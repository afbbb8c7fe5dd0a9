"""Name, member and argument resolution over the syntax trees of all modules (the analysed code is never imported).

Everything here is one-sided: a construct is reported only when the place it
refers to is completely known and lacks the name; anything dynamic (setattr,
__getattr__, unknown bases, unknown decorators, star arguments) ends the
resolution without a report.
"""
import ast
import builtins
import importlib
import os
import symtable
import sys

TRANSPARENT = {"staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod", "override", "wraps"}


class Module:
    def __init__(self, name, path, root):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, root)
        with open(path, encoding="utf-8-sig") as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.parent = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.names = {}          # top-level name -> ("class", Class) | ("func", node) | ("module", m) | ("ext", obj) | None
        self.star = False
        self.classes = []


class Class:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node, self.name, self.outer = mod, node, node.name, outer
        self.bases, self.meta, self.open = [], None, False
        self.members = {}        # name -> [nodes]
        self.subs = []


def own(fn):
    """Nodes of a scope without those of nested classes."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, ast.ClassDef):
            todo.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, root):
        self.root, self.mods, self.classes = root, {}, []
        for d, ds, fs in os.walk(os.path.join(root, "opyenxes")):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, root)[:-3].replace("/", ".")
                    self.mods[n[:-9] if n.endswith(".__init__") else n] = Module(
                        n[:-9] if n.endswith(".__init__") else n, p, root)
        self.problems = []
        self.checked = {"names": 0, "imports": 0, "members": 0, "calls": 0}
        for m in self.mods.values():
            self.top(m)
        for m in self.mods.values():
            self.imports(m)
        for c in self.classes:
            self.link(c)
        for c in self.classes:
            self.fill(c)
        self.universe = self.all_names()

    def bad(self, m, node, what):
        self.problems.append(("%s:%d" % (m.rel, node.lineno), what))

    # ------------------------------------------------------------ definitions
    def top(self, m):
        def classes(body, outer):
            for n in body:
                if isinstance(n, ast.ClassDef):
                    c = Class(m, n, outer)
                    self.classes.append(c)
                    m.classes.append(c)
                    if outer is None:
                        m.names[n.name] = ("class", c)
                    classes(n.body, c)
        classes(m.tree.body, None)
        for n in own(m.tree):
            if m.parent.get(n) is m.tree or not self.in_function(m, n):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and m.parent[n] is m.tree:
                    m.names[n.name] = ("func", n) if n.name not in m.names else None
                elif isinstance(n, ast.ClassDef) and n.name not in m.names:
                    m.names[n.name] = None
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    m.names[n.id] = None
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    m.names[n.name] = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.names.setdefault(x, None)

    def in_function(self, m, n):
        while n in m.parent:
            n = m.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                return True
        return False

    def guarded(self, m, n):
        while n in m.parent:
            n = m.parent[n]
            if isinstance(n, ast.Try):
                return True
        return False

    def external(self, name):
        if name.split(".")[0] not in sys.stdlib_module_names:
            return None
        try:
            return importlib.import_module(name)
        except Exception:
            return None

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.checked["imports"] += 1
                    t = a.name
                    v = None
                    if t.split(".")[0] == "opyenxes":
                        if t not in self.mods and not self.folder(t):
                            self.bad(m, n, "import of %s, which does not exist" % t)
                        v = ("module", self.mods.get(t)) if a.asname and t in self.mods else None
                    elif t.split(".")[0] in sys.stdlib_module_names:
                        x = self.external(t)
                        if x is None and not self.guarded(m, n):
                            self.bad(m, n, "import of %s, which does not exist" % t)
                        v = ("ext", x if a.asname else self.external(t.split(".")[0])) if x is not None else None
                    if not self.in_function(m, n):
                        m.names[a.asname or t.split(".")[0]] = v if (a.asname or t.split(".")[0]) not in m.names else (
                            v if v and m.names[a.asname or t.split(".")[0]] == v else None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    parts = parts[:len(parts) - n.level + (1 if m.is_pkg else 0)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.checked["imports"] += 1
                    if a.name == "*":
                        m.star = True
                        continue
                    v = None
                    if base.split(".")[0] == "opyenxes":
                        src = self.mods.get(base)
                        sub = self.mods.get(base + "." + a.name)
                        if src is None and sub is None and not self.folder(base + "." + a.name):
                            if not self.guarded(m, n):
                                self.bad(m, n, "import of %s from %s, which does not exist" % (a.name, base))
                        elif src is not None and sub is None and not src.star and not self.folder(base + "." + a.name):
                            if a.name not in self.defined(src):
                                if not self.guarded(m, n):
                                    self.bad(m, n, "%s does not define %s" % (base, a.name))
                            else:
                                v = src.names.get(a.name)
                        if sub is not None and (src is None or a.name not in self.defined(src)):
                            v = ("module", sub)
                    elif base.split(".")[0] in sys.stdlib_module_names:
                        x = self.external(base)
                        if x is None:
                            if not self.guarded(m, n):
                                self.bad(m, n, "import from %s, which does not exist" % base)
                        elif hasattr(x, a.name):
                            v = ("ext", getattr(x, a.name))
                        else:
                            y = self.external(base + "." + a.name)
                            if y is None and not self.guarded(m, n):
                                self.bad(m, n, "%s does not define %s" % (base, a.name))
                            v = ("ext", y) if y is not None else None
                    if not self.in_function(m, n):
                        k = a.asname or a.name
                        m.names[k] = v if k not in m.names else (v if m.names[k] == v else None)

    def folder(self, name):
        return os.path.isdir(os.path.join(self.root, name.replace(".", "/")))

    def defined(self, m):
        out = set(m.names)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and not self.in_function(m, n):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
        return out | {"__name__", "__file__", "__doc__", "__all__"}

    def resolve(self, m, e, cls=None):
        """What a name or dotted name denotes, when that is certain."""
        if isinstance(e, ast.Name):
            # a name bound in an enclosing function hides the module's
            n = e
            while n in m.parent:
                n = m.parent[n]
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    if self.binds(n, e.id):
                        return None
            v = m.names.get(e.id)
            if v and v[0] == "class" and v[1].outer is not None:
                return None
            return v
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value, cls)
            if not b or b[1] is None:
                return None
            if b[0] == "module":
                return b[1].names.get(e.attr)
            if b[0] == "ext":
                x = getattr(b[1], e.attr, None)
                return ("ext", x) if x is not None else None
            if b[0] == "class":
                for c in self.classes:
                    if c.outer is b[1] and c.name == e.attr:
                        return ("class", c)
        return None

    def binds(self, fn, name):
        a = fn.args
        if name in [x.arg for x in a.args + a.posonlyargs + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]:
            return True
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name.split(".")[0]) == name for x in n.names):
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn and n.name == name:
                return True
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                return True
        return False

    def link(self, c):
        for b in c.node.bases:
            v = self.resolve(c.mod, b)
            if isinstance(b, ast.Name) and v is None and b.id not in c.mod.names and hasattr(builtins, b.id):
                v = ("ext", getattr(builtins, b.id))
            if v and v[0] == "class":
                c.bases.append(v[1])
                v[1].subs.append(c)
            elif v and v[0] == "ext" and isinstance(v[1], type):
                c.bases.append(v[1])
            else:
                c.open = True
        for kw in c.node.keywords:
            if kw.arg == "metaclass":
                v = self.resolve(c.mod, kw.value)
                if v and v[0] in ("class", "ext"):
                    c.meta = v[1]
                else:
                    c.open = True
            else:
                c.open = True
        for d in c.node.decorator_list:
            if ast.unparse(d).split("(")[0] not in ("dataclass", "dataclasses.dataclass", "total_ordering", "functools.total_ordering"):
                c.open = True

    @staticmethod
    def mangle(name, cname):
        if name.startswith("__") and not name.endswith("__"):
            return "_" + cname.lstrip("_") + name
        return name

    def fill(self, c):
        for n in self.class_level(c):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                c.members.setdefault(self.mangle(n.name, c.name), []).append(n)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                c.members.setdefault(self.mangle(n.id, c.name), []).append(None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    c.members.setdefault(a.asname or a.name, []).append(None)
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                c.members.setdefault(self.mangle(n.attr, c.name), []).append(None)
            elif isinstance(n, ast.Attribute) and n.attr == "__dict__":
                c.open = True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars", "globals", "exec", "eval"):
                c.open = True
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(
                    c.mod.parent.get(n), (ast.List, ast.Tuple)):
                p = c.mod.parent.get(c.mod.parent[n])
                if isinstance(p, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in p.targets):
                    c.members.setdefault(self.mangle(n.value, c.name), []).append(None)
        if any(x in c.members for x in ("__getattr__", "__getattribute__", "__init_subclass__", "__set_name__")):
            c.open = True

    def class_level(self, c):
        todo = list(c.node.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(n))

    def chain(self, c):
        """Ancestors of a class including itself; None among them when one is unknown."""
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if any(x is y for y in out):
                continue
            out.append(x)
            if isinstance(x, Class):
                if x.open:
                    out.append(None)
                todo.extend(x.bases)
                if isinstance(x.meta, Class) and x.meta.open:
                    out.append(None)
        return out

    def has(self, c, name, skip_own=False):
        """True / False / None (unknown)"""
        ch = self.chain(c)
        if skip_own:
            ch = [x for x in ch if x is not c]
        for x in ch:
            if isinstance(x, Class) and name in x.members:
                return True
            if isinstance(x, type) and hasattr(x, name):
                return True
        if None in ch:
            return None
        return hasattr(object, name) or name in ("__dict__", "__class__", "__doc__", "__module__", "__name__", "__mro__", "__bases__",
                                                 "__qualname__", "__weakref__")

    def descendants(self, c):
        out, todo = [], list(c.subs)
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo.extend(x.subs)
        return out

    def methods(self, c, name, skip_own=False):
        """Definitions a call of the member may reach in the class itself; None when uncertain."""
        for x in self.chain(c):
            if x is None:
                return None
            if isinstance(x, type):
                if hasattr(x, name):
                    return None
                continue
            if skip_own and x is c:
                continue
            if name in x.members:
                d = x.members[name]
                return d if all(isinstance(n, ast.FunctionDef) for n in d) else None
        return None

    def all_names(self):
        out = set()
        for c in self.classes:
            out |= set(c.members)
            for b in c.bases:
                if isinstance(b, type):
                    out |= set(dir(b))
        for t in vars(builtins).values():
            if isinstance(t, type):
                out |= set(dir(t))
        out |= set(dir(type(lambda: 0))) | set(dir(type))
        import datetime, io, re, types, urllib.parse, uuid, xml.dom.minidom, xml.etree.ElementTree, xml.sax.xmlreader
        import collections, pathlib, threading, logging, gzip, http.client
        mods = [datetime, io, re, types, urllib.parse, uuid, xml.dom.minidom, xml.etree.ElementTree, xml.sax.xmlreader, collections,
                pathlib, threading, logging, gzip, http.client]
        for m in self.mods.values():
            out |= {k for k in m.names}
            for v in m.names.values():
                if v and v[0] == "ext" and v[1] is not None:
                    mods.append(v[1])
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    if isinstance(n, ast.ImportFrom) and not n.level:
                        mods.append(self.external(n.module or "") or None)
                    for a in n.names:
                        x = self.external(a.name)
                        if x is not None:
                            mods.append(x)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        for x in mods:
            if x is None:
                continue
            out |= set(dir(x))
            if isinstance(x, type(os)):
                for v in list(vars(x).values()):
                    if isinstance(v, type):
                        out |= set(dir(v))
                        for w in list(vars(v).values()):
                            if isinstance(w, type):
                                out |= set(dir(w))
            else:
                out |= set(dir(type(x)))
        import sys as _s
        out |= set(dir(_s))
        return out

    # ------------------------------------------------------------ checks
    def check(self):
        for m in self.mods.values():
            self.check_names(m)
            foreign = any(isinstance(n, (ast.Import, ast.ImportFrom)) and self.foreign(n) for n in ast.walk(m.tree))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.check_attr(m, n, foreign)
                elif isinstance(n, ast.Call):
                    self.check_call(m, n)

    def foreign(self, n):
        ns = [n.module or ""] if isinstance(n, ast.ImportFrom) and not n.level else [a.name for a in n.names] if isinstance(
            n, ast.Import) else []
        return any(x.split(".")[0] not in sys.stdlib_module_names and x.split(".")[0] != "opyenxes" for x in ns)

    def check_names(self, m):
        if m.star:
            return
        known = self.defined(m) | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__",
                                                        "__path__", "__builtins__", "__annotations__", "__class__"}
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append(n)

        def scan(t):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == "module"):
                    self.checked["names"] += 1
                    nm = s.get_name()
                    if nm not in known and not (nm.startswith("_") and "__" in nm[1:]):
                        ns = [x for x in lines.get(nm, []) if not self.name_guarded(m, x)]
                        if ns:
                            self.bad(m, ns[0], "the name %s is not defined" % nm)
                            known.add(nm)
            for c in t.get_children():
                scan(c)
        scan(symtable.symtable(m.src, m.path, "exec"))

    def name_guarded(self, m, n):
        while n in m.parent:
            p = m.parent[n]
            if isinstance(p, ast.Try) and any(h.type is None or "NameError" in ast.unparse(h.type) or ast.unparse(h.type) == "Exception"
                                              for h in p.handlers):
                return True
            if isinstance(p, (ast.arg, ast.AnnAssign)) and getattr(p, "annotation", None) is n:
                return True
            n = p
        return False

    def attr_guarded(self, m, n):
        while n in m.parent:
            n = m.parent[n]
            if isinstance(n, ast.Try) and any(h.type is None or any(w in ast.unparse(h.type) for w in ("AttributeError", "Exception"))
                                              for h in n.handlers):
                return True
        return False

    def enclosing(self, m, n):
        """(method, class) around a node"""
        fn = None
        while n in m.parent:
            n = m.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = n
            if isinstance(n, ast.ClassDef):
                c = [x for x in m.classes if x.node is n]
                return (fn, c[0]) if c else (fn, None)
        return fn, None

    def self_name(self, fn):
        if fn is None or not fn.args.args:
            return None
        deco = {ast.unparse(d) for d in fn.decorator_list}
        if "staticmethod" in deco:
            return None
        return fn.args.args[0].arg

    def instance_of(self, m, e):
        """Class an expression is certainly an instance of."""
        if isinstance(e, ast.Call):
            v = self.resolve(m, e.func)
            if v and v[0] == "class" and "__new__" not in v[1].members:
                return v[1]
        if isinstance(e, ast.Name):
            n = e
            fn = None
            while n in m.parent:
                n = m.parent[n]
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    fn = n
                    break
            if not isinstance(fn, ast.FunctionDef):
                return None
            if e.id in [x.arg for x in fn.args.args + fn.args.posonlyargs + fn.args.kwonlyargs] + [
                    x.arg for x in (fn.args.vararg, fn.args.kwarg) if x]:
                return None
            binds = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, (ast.Store, ast.Del))]
            if len(binds) == 1:
                p = m.parent.get(binds[0])
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is binds[0] and isinstance(p.value, ast.Call):
                    return self.instance_of(m, p.value)
        return None

    def check_attr(self, m, n, foreign):
        self.checked["members"] += 1
        fn, c = self.enclosing(m, n)
        name = self.mangle(n.attr, c.name) if c else n.attr
        base = n.value
        if isinstance(base, ast.Name) and c is not None and base.id == self.self_name(fn):
            if fn and any(isinstance(x, ast.Name) and x.id == base.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
                return
            r = self.has(c, name)
            if r is False and not any(self.has(s, name) is not False for s in self.descendants(c)) and not (
                    isinstance(c.meta, Class) and self.has(c.meta, name) is not False) and not self.attr_guarded(m, n):
                if not any(isinstance(x, type) and issubclass(x, type) and hasattr(type, name) for x in self.chain(c)):
                    self.bad(m, n, "%s.%s: %s has no member %s" % (base.id, n.attr, c.name, n.attr))
            return
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super" and not base.args and c is not None:
            if self.has(c, name, skip_own=True) is False and not self.descendants(c):
                self.bad(m, n, "super().%s: no ancestor of %s has a member %s" % (n.attr, c.name, n.attr))
            return
        v = self.resolve(m, base)
        if v and v[0] == "module" and v[1] is not None:
            if n.attr not in self.defined(v[1]) and not v[1].star and v[1].name + "." + n.attr not in self.mods:
                self.bad(m, n, "%s defines no %s" % (v[1].name, n.attr))
            return
        if v and v[0] == "ext" and v[1] is not None:
            if not hasattr(v[1], n.attr) and not self.attr_guarded(m, n):
                if not (isinstance(v[1], type(os)) and self.external(v[1].__name__ + "." + n.attr) is not None):
                    self.bad(m, n, "%s has no %s" % (ast.unparse(base), n.attr))
            return
        if v and v[0] == "class":
            r = self.has(v[1], name)
            if r is False and not hasattr(type, n.attr) and not (isinstance(v[1].meta, Class) and self.has(v[1].meta, name) is not False) \
                    and not (isinstance(v[1].meta, type) and hasattr(v[1].meta, name)) and not self.attr_guarded(m, n):
                self.bad(m, n, "%s has no member %s" % (ast.unparse(base), n.attr))
            return
        ic = self.instance_of(m, base)
        if ic is not None:
            if self.has(ic, name) is False and not self.attr_guarded(m, n):
                self.bad(m, n, "%s is a %s, which has no member %s" % (ast.unparse(base)[:40], ic.name, n.attr))
            return
        if not foreign and n.attr not in self.universe and name not in self.universe and not self.attr_guarded(m, n):
            self.bad(m, n, "no object has a member %s" % n.attr)

    # ------------------------------------------------------------ calls
    def accepts(self, fn, call, bound):
        a = fn.args
        if any(ast.unparse(d).split("(")[0] not in TRANSPARENT for d in fn.decorator_list):
            return True
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return True
        deco = {ast.unparse(d) for d in fn.decorator_list}
        if "property" in deco:
            return True
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound and "staticmethod" not in deco:
            if not pos and a.vararg is None:
                return False
            pos = pos[1:]
        given = len(call.args)
        if given > len(pos) and a.vararg is None:
            return False
        kws = {k.arg for k in call.keywords}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        if a.kwarg is None and not kws <= names:
            return False
        if any(p in kws for p in pos[:given]):
            return False
        nreq = len(pos) - len(a.defaults)
        missing = [p for p in pos[given:max(nreq, 0)] if p not in kws]
        kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
        return not missing and not kwreq

    def check_call(self, m, call):
        f = call.func
        fn, c = self.enclosing(m, call)
        cands = None
        bound = True
        if isinstance(f, ast.Name):
            v = self.resolve(m, f)
            if v and v[0] == "func":
                cands, bound = [v[1]], False
            elif v and v[0] == "class":
                k = v[1]
                if any(isinstance(x, Class) and ("__new__" in x.members) for x in self.chain(k)) or isinstance(k.meta, type):
                    return
                if isinstance(k.meta, Class) and "__call__" in k.meta.members:
                    d = self.methods(k.meta, "__call__")
                    if d and any(not x.args.vararg for x in d):
                        return
                cands = self.methods(k, "__init__")
        elif isinstance(f, ast.Attribute):
            name = self.mangle(f.attr, c.name) if c else f.attr
            b = f.value
            if isinstance(b, ast.Name) and c is not None and b.id == self.self_name(fn):
                cands = self.methods(c, name)
                if cands is not None:
                    for s in self.descendants(c):
                        d = s.members.get(name)
                        if d:
                            cands = None if not all(isinstance(x, ast.FunctionDef) for x in d) else (cands + d if cands else None)
                        if cands is None:
                            break
                if fn is not None and "classmethod" in {ast.unparse(d) for d in fn.decorator_list}:
                    cands = None
            elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and not b.args and c is not None:
                if not self.descendants(c):
                    cands = self.methods(c, name, skip_own=True)
            else:
                v = self.resolve(m, b)
                if v and v[0] == "module" and v[1] is not None:
                    w = v[1].names.get(f.attr)
                    if w and w[0] == "func":
                        cands, bound = [w[1]], False
                elif v and v[0] == "class":
                    if v[1].meta is None:
                        cands, bound = self.methods(v[1], name), False
                        if cands and any("classmethod" in {ast.unparse(d) for d in x.decorator_list} for x in cands):
                            bound = True
                elif not v:
                    ic = self.instance_of(m, b)
                    if ic is not None:
                        cands = self.methods(ic, name)
        if not cands:
            return
        self.checked["calls"] += 1
        if not any(self.accepts(d, call, bound) for d in cands):
            self.bad(m, call, "%s does not accept the arguments of %s" % (cands[0].name, ast.unparse(call)[:80]))


def run(k):
    p = Program(k.root)
    p.check()
    k.sites = [{"rule": r, "checked": n} for r, n in p.checked.items()]
    k.obligations += sum(p.checked.values())
    by = {}
    for at, what in p.problems:
        by.setdefault(at.split(":")[0], []).append((at, what))
    for m in sorted(p.mods.values(), key=lambda m: m.rel):
        ps = by.pop(m.rel, [])
        if not ps:
            k.rule("resolve/%s" % m.rel, True)
        for at, what in ps:
            k.rule("resolve/%s" % m.rel, False, what, at)
