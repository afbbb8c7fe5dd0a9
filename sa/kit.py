"""What a property is written in: abstract inputs, calls of the analysed API, and judgements.

A *scenario* is a small client program of the public API.  It is interpreted
over abstract inputs by interp.Interp (the whole package is analysed
interprocedurally along it), once per partition of the abstract state; every
judgement is made on provenance terms that hold for all concrete inputs the
abstract input stands for.
"""
import ast
import os
import sys
import time

from . import interp as ip
from .interp import AnchorMissing, Cls, Infeasible, Interp, Obj, PyRaise, Undecided
from .terms import App, AStr, Lin, Run, Sym, Val, app, is_const, is_num, is_str, kind, mk_str, pieces, show, tainted

sys.setrecursionlimit(30000)


class Violation(Exception):
    def __init__(self, msg, at=None):
        super().__init__(msg)
        self.msg, self.at = msg, at


MODULES = {}


def load_interp(root, warm=True):
    I = Interp(root)
    pk = os.path.join(root, "opyenxes")
    if not os.path.isdir(pk):
        raise AnchorMissing(pk)
    names = []
    for d, ds, fs in os.walk(pk):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), root)[:-3].replace("/", ".")
                names.append(n[:-9] if n.endswith(".__init__") else n)
    I.skipped = []
    for n in names:
        if n.endswith(".cli") or n.endswith("__main__"):
            continue
        I.find_module(n)
    index = {}
    for n, m in list(I.modules.items()):
        if m.env is None:
            continue
        for k, v in m.env.vars.items():
            if isinstance(v, Cls) and v.module is m and not v.builtin:
                index.setdefault(k, []).append(v)
    I.class_index = index
    if warm:
        I.call(index["XExtensionManager"][0])
    return I


class Index(dict):
    """Classes of the package by name; the module of a class is imported when the class is asked for."""

    def __init__(self, I, where):
        super().__init__()
        self.I, self.where = I, where

    def get(self, name, default=None):
        if name not in self:
            if name not in self.where:
                return default
            v = self.I.find_module(self.where[name]).env.vars.get(name)
            if v is None:
                return default
            self[name] = [v]
        return self[name]

    def __getitem__(self, name):
        if name not in self:
            self.get(name)
        return dict.__getitem__(self, name)


def modules_of(root):
    names = []
    for d, ds, fs in os.walk(os.path.join(root, "opyenxes")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), root)[:-3].replace("/", ".")
                names.append(n[:-9] if n.endswith(".__init__") else n)
    return sorted(names)


class Kit:
    """Per-property analysis session."""

    def __init__(self, prop, tier="quick", root=None):
        self.prop, self.tier = prop, tier
        self.root = root or os.environ.get("VERIF_REPO", "/repo") + "/src"
        self.interps = {}
        self.results = []
        self.last = None
        self.obligations = 0
        self.t0 = time.time()
        self.budget = 800 if tier == "thorough" else 420
        self.found, self.known = set(), set()
        self.entries = set()
        try:
            self.I = self.interp(True)
        except (Undecided, PyRaise):        # raised again by the first scenario that needs it
            self.I = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def interp(self, warm):
        """The package loaded, and the extensions registered (True) or not (False); "empty": nothing imported yet."""
        if warm == "empty":
            old = self.interps.get(warm)
            I = Interp(self.root)
            I.import_raises = True
            if old is None:
                self.where = {}
                for n in modules_of(self.root):
                    p = os.path.join(self.root, *n.split("."))
                    p = p + ".py" if os.path.isfile(p + ".py") else os.path.join(p, "__init__.py")
                    with open(p, encoding="utf-8-sig") as fh:
                        I.trees[p] = ast.parse(fh.read(), p)
                    for c in I.trees[p].body:
                        if isinstance(c, ast.ClassDef):
                            self.where.setdefault(c.name, n)
            else:
                I.trees, I.functions_seen, I.consulted, I.branches_seen = old.trees, old.functions_seen, old.consulted, old.branches_seen
            I.class_index = Index(I, self.where)
            self.interps[warm] = I
            return I
        if warm not in self.interps:
            self.interps[warm] = load_interp(self.root, warm)
        return self.interps[warm]

    # ---------------------------------------------------------------- running
    def scenario(self, label, fn, warm=True, setrev=False, max_paths=4000, seconds=60):
        """fn(k) is interpreted on every trace; it judges by raising Violation."""
        self.I = self.interp(warm)
        I = self.I
        t0 = time.time()
        st = {"label": label, "paths": 0, "proved": 0, "undecided": [], "violations": [], "judged": 0}
        self.results.append(st)
        spent = t0 - self.t0
        if self.found and spent > 60 or len(self.found) > 40:
            st["undecided"].append("not analysed: a violation has been established already")
            st["skipped"] = True
            return st
        if spent > self.budget:
            st["undecided"].append("time budget of the whole check")
            return st
        seconds = min(seconds, max(5, self.budget - spent + 20))

        def go():
            self.last = None
            self.trail = []
            I.set_reverse = setrev
            n0 = self.obligations
            try:
                fn(self)
                return ("proved", self.obligations - n0)
            except Violation as v:
                return ("violation", v.msg, v.at or self.last)
            except ip.Endless as e:
                if I.soft:
                    raise
                return ("violation", "%s: %s" % (self.entry_text(), e.why), e.loc)
            except (PyRaise, Undecided, Infeasible, AnchorMissing, RecursionError):
                raise
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                raise Undecided("analysis limit (%s: %s)" % (type(e).__name__, e), I.loc())
        for status, payload, loc in I.explore(go, max_paths, seconds):
            st["paths"] += 1
            if status == "infeasible":
                st["paths"] -= 1
                continue
            if status == "undecided":
                if len(st["undecided"]) < 5:
                    st["undecided"].append("%s at %s" % (payload, loc))
                else:
                    st["undecided_more"] = st.get("undecided_more", 0) + 1
                continue
            if I.soft and (status == "raise" or payload[0] == "violation"):
                st["undecided"] = (st["undecided"] + ["a difference on a trace that may not exist: %s" % I.soft])[:5]
                continue
            if status == "raise":
                v = payload
                name = v.cls.name
                args = v.fields.get("args")
                txt = ", ".join(show(a) for a in args.payload) if isinstance(args, Obj) else ""
                st["violations"].append({"what": "%s raises %s(%s)" % (self.entry_text(), name, txt), "at": loc,
                                         "facts": list(I.facts)[:20]})
                if self.enough(st):
                    break
                continue
            if payload[0] == "violation":
                st["violations"].append({"what": payload[1], "at": payload[2], "facts": list(I.facts)[:20]})
                if self.enough(st):
                    break
            else:
                st["proved"] += 1
                st["judged"] += payload[1]
        st["s"] = round(time.time() - t0, 2)
        return st

    def enough(self, st):
        """A violating scenario needs no further traces (one that holds a listed finding does)."""
        if st["label"] in self.known:
            return False
        self.found.add(st["label"])
        return len(st["violations"]) >= 6

    def entry_text(self):
        return self.last or "the operation"

    def rule(self, label, ok, what="", at=None, facts=()):
        """A finding of a syntactic / dataflow rule (no trace involved)."""
        st = {"label": label, "paths": 1, "proved": int(ok), "undecided": [], "violations": [], "judged": 1}
        self.obligations += 1
        if not ok:
            st["violations"].append({"what": what, "at": at, "facts": list(facts)})
        self.results.append(st)

    # ---------------------------------------------------------------- judging
    def ok(self, cond, msg, at=None):
        self.obligations += 1
        if not cond:
            raise Violation(msg, at)

    def fail(self, msg, at=None):
        raise Violation(msg, at)

    def same(self, got, want, msg, at=None):
        """got and want denote the same value for every input of this trace."""
        self.obligations += 1
        d = self.diff(got, want)
        if d:
            raise Violation("%s: %s" % (msg, d), at)

    def diff(self, a, b, path=""):
        I = self.I
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
                self.guard_taint(a)
                return "%sgot %s, expected %s" % (path, show_any(a), show_any(b))
            if len(a) != len(b):
                for x in a:
                    self.guard_taint(x)
                return "%sgot %s, expected %s" % (path, show_any(a), show_any(b))
            for i, (x, y) in enumerate(zip(a, b)):
                d = self.diff(x, y, path)
                if d:
                    return d
            return None
        if isinstance(a, (Obj, Cls, ip.Func, ip.Bound, ip.Builtin)) or isinstance(b, (Obj, Cls, ip.Func, ip.Bound,
                                                                                 ip.Builtin)):
            if a is b:
                return None
            self.guard_taint(a)
            self.guard_taint(b)
            return "%sgot %s, expected %s" % (path, show_any(a), show_any(b))
        x, y = I.norm(a), I.norm(b)
        if x is y or (is_const(x) and is_const(y) and type(x) is type(y) and x == y):
            return None
        if is_const(x) and is_const(y) and is_num(x) and is_num(y) and not isinstance(x, bool) and not isinstance(
                y, bool) and x == y:
            return None
        if kind(x) == "dt" and kind(y) == "dt":
            from . import libs
            r = libs.dt_same(I, x, y) if hasattr(libs, "dt_same") else None
            if r:
                return None
        self.guard_taint(x)
        self.guard_taint(y)
        return "%sgot %s, expected %s" % (path, show(x), show(y))

    def guard_taint(self, v):
        if isinstance(v, Val) and (tainted(v) or kind(v) == "any"):
            raise self.I.undecided("a judged value is not modelled exactly: %s" % show(v))

    def truth(self, v):
        return self.I.truthy(v)

    def isnone(self, v, msg):
        self.obligations += 1
        if v is None:
            return
        self.guard_taint(v)
        raise Violation("%s: got %s, expected None" % (msg, show_any(v)))

    def raises(self, fn, names=None):
        """Interpret fn; (True, exception) when it raises, (False, value) otherwise."""
        try:
            return False, fn()
        except PyRaise as e:
            return True, e

    # ---------------------------------------------------------------- the API
    def cls(self, name):
        c = self.I.class_index.get(name)
        if not c:
            raise AnchorMissing("class %s" % name)
        return c[0]

    def mod(self, name):
        m = self.I.find_module(name)
        if m is None:
            raise AnchorMissing("module %s" % name)
        return m

    def new(self, name, *a, **kw):
        c = self.cls(name) if isinstance(name, str) else name
        self.last = c.name + "()"
        try:
            return self.I.call(c, list(a), kw)
        finally:
            pass

    def describe(self, f, name):
        g = f.func if isinstance(f, ip.Bound) else f
        if isinstance(g, ip.Func) and g.node is not None:
            w = "%s:%s (%s%s)" % (self.I.rel(g.module.path), g.node.lineno, g.owner.name + "." if g.owner else "", g.name)
            self.entries.add(w)
            return w
        return name

    def m(self, o, name, *a, **kw):
        """o.name(*a, **kw)"""
        if isinstance(o, str):
            o = self.cls(o)
        if o is None:
            raise Violation("None where an object with %s() was expected" % name, self.last)
        f = self.getm(o, name)
        self.last = self.describe(f, name)
        return self.I.call(f, list(a), kw)

    def getm(self, o, name):
        return self.I.getattr(o, name)

    def opt(self, o, name):
        """o.name, or None when there is no such member"""
        return self.I.getattr(o, name, None)

    def static(self, cname, name, *a, **kw):
        return self.m(self.cls(cname), name, *a, **kw)

    def const(self, cname, name):
        return self.I.getattr(self.cls(cname), name)

    def call(self, f, *a, **kw):
        self.last = self.describe(f, "call")
        return self.I.call(f, list(a), kw)

    def func(self, modname, name):
        m = self.mod(modname)
        if name not in m.env.vars:
            raise AnchorMissing("%s.%s" % (modname, name))
        return m.env.vars[name]

    def str(self, o):
        self.last = "str(%s)" % (o.cls.name if isinstance(o, Obj) else show(o))
        return self.I.to_str(o)

    def items(self, o):
        """Elements of any iterable, as a Python list."""
        return list(self.I.iterate(o))

    def lst(self, *xs):
        return self.I.mklist(list(xs))

    def len(self, o):
        return self.I.call(self.I.builtin["len"], [o])

    def index(self, o, i):
        return self.I.getitem(o, i)

    def setindex(self, o, i, v):
        self.I.setitem(o, i, v)

    def delindex(self, o, i):
        self.I.delitem(o, i)

    def append(self, o, v):
        self.m(o, "append", v)

    def has(self, o, v):
        return self.I.contains(o, v)

    def eq(self, a, b):
        return self.I.compare(ast.Eq(), a, b)

    def ne(self, a, b):
        return self.I.compare(ast.NotEq(), a, b)

    def cmp(self, op, a, b):
        return self.I.compare({"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}[op](), a, b)

    def plus(self, a, b):
        return self.I.norm(self.I.binop(ast.Add(), a, b))

    def hash(self, v):
        return self.I.norm(self.I.hash_term(v))

    def isinst(self, o, name):
        c = self.cls(name)
        return isinstance(o, Obj) and o.cls.issub(c)

    def client(self, text):
        """Names defined by a piece of client code, analysed like the repository's."""
        import textwrap
        return self.I.client(textwrap.dedent(text))

    # ---------------------------------------------------------------- inputs
    def text(self, name="text", **p):
        """Any text at all (may be empty, may hold blanks)."""
        return Sym(name, "str", **p)

    def word(self, name="word", **p):
        """Non-empty text without blanks, quotes or colons at its ends."""
        q = dict(nonempty=True, nonblank=True, trimmed=True, excl=" \t\n\r\x0b\x0c'\"")
        q.update(p)
        return Sym(name, "str", **q)

    def phrase(self, name="phrase", **p):
        """Non-empty text without outer blanks; may hold inner blanks."""
        q = dict(nonempty=True, nonblank=True, trimmed=True)
        q.update(p)
        return Sym(name, "str", **q)

    def key(self, name="key", **p):
        """Attribute key: distinct keys of one scenario differ."""
        q = dict(group="key", excl=":")
        q.update(p)
        return self.phrase(name, **q)

    def int(self, name="n", **p):
        return Sym(name, "int", **p)

    def float(self, name="x", **p):
        return Sym(name, "float", **p)

    def uuid(self, name="u", **p):
        return Sym(name, "uuid", **p)

    def dt(self, name="t", tz="utc", **p):
        zone = {"naive": None, "utc": app("tz", (0,), "tz")}.get(tz, tz)
        return Sym(name, "dt", tz=zone, **p)

    def zone(self, name, sign=1):
        """A fixed offset +hh:mm / -hh:mm with unknown hours and minutes."""
        h = Sym(name + ".h", "int", lo=1, hi=14)
        mi = Sym(name + ".m", "int", lo=0, hi=59)
        from .terms import lin_add, lin_scale
        return app("tz", (lin_scale(lin_add(lin_scale(h, 60), mi), sign),), "tz")

    def parsed(self, u):
        """urlparse(u)"""
        self.I.find_module("urllib.parse")
        return self.I.call(self.client("from urllib.parse import urlparse\n")["urlparse"], [u])

    def named_zone(self, name="zone", minutes=120):
        return Sym(name, "tz", minutes=minutes)

    def xid(self, name="u"):
        return self.new("XID", self.uuid(name))

    # documents ------------------------------------------------------------
    def elem(self, tag, attrs=(), *children, text=None):
        from . import libs
        e = libs.new_element(self.I, tag, [], {})
        for n, v in (attrs.items() if isinstance(attrs, dict) else attrs):
            self.I.dict_set(e.fields["attrib"], n, v)
        for c in children:
            e.fields["children"].payload.append(c)
        e.fields["text"] = text
        return e

    def place(self, path, doc, gz=False, web=False, parts=1):
        """A file (or, with web, a resource behind a URL) that holds the document (or, as bytes, no document)."""
        from . import libs
        f = self.I.new("File")
        x = doc if isinstance(doc, bytes) else app("xmltext", (doc,), "bytes")
        c = (x,) if parts == 1 else tuple(app("part", (x, i, parts), "bytes") for i in range(parts))
        f.fields.update(path=path, name=path, mode="rb", closed=True, gz=gz, content=c)
        (self.I.web if web else self.I.fs)[path] = f
        return path

    def openfile(self, path, mode="r"):
        return self.I.call(self.I.builtin["open"], [path, mode])

    def save(self, log, path, ser="XesXmlSerializer"):
        """Serialise as a client would: open, serialize, close."""
        s = self.new(ser) if isinstance(ser, str) else ser
        out = self.openfile(path, "w")
        self.m(s, "serialize", log, out)
        at = self.last
        self.I.call(self.I.getattr(out, "close"), [])
        self.last = at
        return path

    def load(self, path, parser="XesXmlParser"):
        p = self.new(parser) if isinstance(parser, str) else parser
        f = self.openfile(path, "r")
        r = self.m(p, "parse", f)
        at = self.last
        self.I.call(self.I.getattr(f, "close"), [])
        self.last = at
        return self.items(r)

    # attribute values of every kind
    KINDS = ("literal", "discrete", "continuous", "boolean-true", "boolean-false", "timestamp", "id", "list", "container")
    CLASSES = {"literal": "XAttributeLiteral", "discrete": "XAttributeDiscrete", "continuous": "XAttributeContinuous",
               "boolean-true": "XAttributeBoolean", "boolean-false": "XAttributeBoolean",
               "timestamp": "XAttributeTimestamp", "id": "XAttributeID", "list": "XAttributeList",
               "container": "XAttributeContainer"}

    def value(self, kd, name="v", **p):
        if kd == "literal":
            return self.text(name, **p)
        if kd == "discrete":
            return self.int(name, **p)
        if kd == "continuous":
            return self.float(name, **p)
        if kd == "boolean-true":
            return True
        if kd == "boolean-false":
            return False
        if kd == "timestamp":
            return self.dt(name, **p)
        if kd == "id":
            return self.new("XID", self.uuid(name, **p))
        return None

    def attr(self, kd, key, value=None, ext=None, name="v", **p):
        c = self.cls(self.CLASSES[kd])
        if kd in ("list", "container"):
            return self.I.call(c, [key, ext])
        if value is None:
            value = self.value(kd, name, **p)
        return self.I.call(c, [key, value, ext])

    def put(self, owner, attr):
        """Attach a (nested) attribute under its own key."""
        self.I.setitem(self.I.call(self.I.getattr(owner, "get_attributes")), self.I.call(self.I.getattr(attr, "get_key")),
                       attr)
        return attr

    def amap(self, *attrs):
        mp = self.I.call(self.cls("XAttributeMap"))
        for a in attrs:
            self.I.setitem(mp, self.I.call(self.I.getattr(a, "get_key")), a)
        return mp

    def event(self, *attrs, **kw):
        return self.I.call(self.cls("XEvent"), [self.amap(*attrs)] + ([kw["id"]] if "id" in kw else []))

    def trace(self, events=(), attrs=()):
        t = self.I.call(self.cls("XTrace"), [self.amap(*attrs)])
        for e in events:
            self.I.call(self.I.getattr(t, "append"), [e])
        return t

    def log(self, traces=(), attrs=()):
        g = self.I.call(self.cls("XLog"), [self.amap(*attrs)])
        for t in traces:
            self.I.call(self.I.getattr(g, "append"), [t])
        return g

    def opened(self, o, name="len", extra=0):
        """Let a sequence stand for one of any length >= its representatives."""
        n = len(o.payload)
        L = Sym(name, "int", lo=n + extra)
        o.open = (L, n)
        return L

    # ---------------------------------------------------------------- reading back
    def get(self, o, name, *a):
        return self.I.call(self.I.getattr(o, name), list(a))

    def attrs(self, o):
        """[(key, attribute)] of an element's own attributes."""
        mp = self.get(o, "get_attributes")
        if mp is None:
            return []
        return [(e[0], e[1]) for e in mp.payload]

    def attr_of(self, o, key):
        mp = self.get(o, "get_attributes")
        v = self.I.dict_get(mp, key)
        return None if v is ip.MISSING else v

    def value_of(self, a):
        v = self.get(a, "get_value")
        if isinstance(v, Obj) and self.isinst(v, "XID"):
            return ("XID", self.get(v, "get_uuid"))
        return v

    def kind_of(self, a):
        for kd, cn in self.CLASSES.items():
            if self.isinst(a, cn):
                return cn
        return a.cls.name if isinstance(a, Obj) else show(a)

    def view(self, a, ext=True, unordered=True):
        """Canonical nested description of an attribute, read through its API."""
        cn = self.kind_of(a)
        out = [cn, self.get(a, "get_key")]
        if ext:
            out.append(self.get(a, "get_extension"))
        if cn in ("XAttributeList", "XAttributeContainer"):
            out.append(tuple(self.view(x, ext) for x in self.items(self.get(a, "get_collection"))))
        else:
            out.append(self.value_of(a))
        out.append(self.views(a, ext))
        return tuple(out)

    def views(self, o, ext=True):
        vs = []
        for k, a in self.attrs(o):
            v = self.view(a, ext)
            vs.append((k, v))
        vs.sort(key=lambda kv: show(kv[0]))
        return tuple(vs)

    def view_event(self, e, ext=True):
        return self.views(e, ext)

    def view_trace(self, t, ext=True):
        return (self.views(t, ext), tuple(self.view_event(e, ext) for e in self.items(t)))

    def view_log(self, g, ext=True):
        return (self.views(g, ext), tuple(self.view_trace(t, ext) for t in self.items(g)))

    # heap reachability -----------------------------------------------------
    def reach(self, o, stop=()):
        """Mutable heap objects reachable from o."""
        seen, todo, out = set(), [o], []
        while todo:
            x = todo.pop()
            if not isinstance(x, Obj) or x.oid in seen or any(x is s for s in stop):
                continue
            seen.add(x.oid)
            out.append(x)
            todo.extend(x.fields.values())
            p = x.payload
            if isinstance(p, (list, tuple)):
                for e in p:
                    if isinstance(e, list):
                        todo.extend(e)
                    else:
                        todo.append(e)
        return out


def show_any(v):
    if isinstance(v, (tuple, list)):
        s = "(" + ", ".join(show_any(x) for x in v) + ")"
        return s if len(s) < 300 else s[:300] + "..."
    return show(v)
