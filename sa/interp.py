"""Abstract interpreter for the source of /repo/src/opyenxes.

The analysed program is only ever read as syntax trees.  Statements are given
an abstract semantics over the provenance terms of terms.py and an abstract
heap (class Obj).  A condition whose truth the abstract state does not settle
splits the analysis into one trace per outcome; the outcomes already assumed on
a trace are remembered as facts, so the same condition is never split twice.
Nothing of the analysed code is imported or executed and no solver is used.
"""
import time
import ast
import builtins as _pyb
import os

from .terms import (App, opaque, AStr, Lin, Run, Sym, Val, app, atom_nonempty, excludes, is_const, is_num, is_str, kind,
                    lin_add, lin_exact, lin_parts, lin_scale, mk_lin, mk_str, mod, mul, floordiv, pieces, run, show, str_len,
                    str_nonempty, tainted, trim_ok, nonblank)


class Undecided(Exception):
    """The abstract semantics has no sound answer here: the trace is not judged."""

    def __init__(self, why, loc=None):
        super().__init__(why)
        self.why, self.loc = why, loc


class Endless(Undecided):
    """A loop whose state repeats: it does not end."""


class Infeasible(Exception):
    """The facts assumed on this trace contradict each other."""


class PyRaise(Exception):
    def __init__(self, value, loc):
        super().__init__()
        self.value, self.loc = value, loc


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class _Open(Exception):
    """An equality that is not settled yet."""


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class AnchorMissing(Exception):
    """A public construct the property is about is gone from the source."""


# ------------------------------------------------------------------------ heap
class Cls:
    def __init__(self, name, bases, attrs=None, meta=None, builtin=False, module=None, node=None, path=""):
        self.name, self.bases, self.attrs, self.meta = name, list(bases), attrs if attrs is not None else {}, meta
        self.builtin, self.module, self.node, self.path = builtin, module, node, path
        self.gen = 0
        self.members = None
        self.mro = self._mro()
        self.qual = name

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent class hierarchy for " + self.name)
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def issub(self, other):
        return other in self.mro

    def show(self):
        return "<class %s>" % self.name


NONE_VALUE = object()


class Obj:
    _n = 0

    def __init__(self, cls, gen, payload=None, where=None):
        Obj._n += 1
        self.oid = Obj._n
        self.cls, self.gen, self.payload = cls, gen, payload
        self.fields = {}
        self.where = where
        self.open = None      # (Sym length, number of representatives)
        self.frozen = False
        self.tag = None
        self.implicit = False
        self.backs = None     # the instance this is the __dict__ of
        self.started = False
        self.lazy = None      # an iterator: what computes its remaining items

    def show(self):
        if self.tag:
            return self.tag
        if self.cls.name == "tuple":
            return "(" + ", ".join(show(x) for x in self.payload) + ")"
        if self.cls.name == "list":
            return "[" + ", ".join(show(x) for x in self.payload) + "]"
        return "<%s>" % self.cls.name


class Env:
    __slots__ = ("vars", "parent", "is_class", "gen", "globals_", "nonlocals", "module")

    def __init__(self, parent, module, is_class=False, gen=0):
        self.vars, self.parent, self.is_class, self.gen, self.module = {}, parent, is_class, gen, module
        self.globals_, self.nonlocals = (), ()

    def show(self):
        return "<env>"


class Func:
    def __init__(self, name, node, env, module, clsname, defaults, kwdefaults, owner=None):
        self.name, self.node, self.env, self.module, self.clsname = name, node, env, module, clsname
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.attrs = {}
        self.is_gen = None

    def show(self):
        return "<function %s>" % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def show(self):
        return "<bound %s>" % show(self.func)


class Builtin:
    def __init__(self, name, fn, sig=None):
        self.name, self.fn, self.sig = name, fn, sig

    def show(self):
        return "<builtin %s>" % self.name


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def show(self):
        return "<super>"


class Mod:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.env = None
        self.tree = None
        self.loading = False

    def show(self):
        return "<module %s>" % self.name


class ExtMod:
    """A module outside the analysed package."""

    def __init__(self, name, table):
        self.name, self.table = name, table

    def show(self):
        return "<module %s>" % self.name


class Frame:
    __slots__ = ("func", "env", "line", "path", "clsname", "owner", "firstarg", "name")


MISSING = object()
DT_BOUNDS = {"dt.year": (1, 9999), "dt.month": (1, 12), "dt.day": (1, 31), "dt.hour": (0, 23), "dt.minute": (0, 59),
             "dt.second": (0, 59), "dt.microsecond": (0, 999999)}


def mangle(name, clsname):
    if clsname and name.startswith("__") and not name.endswith("__"):
        return "_" + clsname.lstrip("_") + name
    return name


def known_module(name, root):
    """A module of the standard library or of a declared dependency."""
    import re
    import sys
    top = name.split(".")[0]
    if top in sys.stdlib_module_names:
        return True
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "requirements.txt"):
        p = os.path.join(root, "..", f)
        if os.path.isfile(p):
            with open(p, encoding="utf-8") as h:
                if re.search(r"[\"'\s]%s\b" % re.escape(top), h.read(), re.I):
                    return True
    return False


def abstract(x):
    for f in (x.fget, x.fset) if isinstance(x, Prop) else (x.f,) if isinstance(x, (StaticM, ClassM)) else (x,):
        if isinstance(f, Func) and f.attrs.get("__isabstractmethod__"):
            return True
    return False


def bytes_nonempty(v):
    return isinstance(v, App) and v.op in ("xmltext", "part")


class Interp:
    MAX_STEPS = 400000

    def __init__(self, root="/repo/src", package="opyenxes"):
        from . import libs
        self.root, self.package = root, package
        self.modules = {}
        self.trees, self.import_raises = {}, False
        self.gen = 0
        self.journal = None
        self.saved = set()
        self.frames = []
        self.builtin = {}
        self.cls = {}
        self.consulted = set()
        self.functions_seen = set()
        self.branches_seen = set()
        self.classes_built = []
        self.making = None
        self.cur_exc = []
        self.reset_trace([])
        libs.install(self)
        self.ext = libs.modules(self)
        self.prelude = {}
        from .prelude import MODULES
        for name, text in MODULES.items():
            self.prelude[name] = self.client(text, name, "lib/%s.py" % name)
        self.functions_seen, self.branches_seen, self.consulted, self.classes_built = set(), set(), set(), []
        self.effects, self.calls, self.steps = [], [], 0

    # ------------------------------------------------------------ trace control
    def reset_trace(self, decisions):
        self.decisions = decisions
        self.pos = 0
        self.pending = []
        self.truth = {}
        self.bounds = {}
        self.signs = {}
        self.parent = {}
        self.neq = set()
        self.steps = 0
        self.facts = []
        self.soft = None
        self.effects = []
        self.output = []
        self.opened = []
        self.fs = {}
        self.web = {}
        self.disk = None
        self.effects_seen, self.inject = [], None
        self.ext_calls = []
        self.faults = {}
        self.set_reverse = False
        self.fresh_n = 0
        self.clock = []
        self.hooks = {}
        self.calls = []
        self.record_calls = False
        self.opens = []

    def choose(self, n, label):
        """Split the trace into n outcomes (returns the one of this trace)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = 0
            self.decisions.append(0)
            self.pending.append((self.pos, n))
        self.pos += 1
        return d

    def explore(self, fn, max_paths=6000, seconds=60):
        """Run fn once per trace; yields (status, payload) per trace."""
        stack = [[]]
        count = 0
        end = time.time() + seconds
        while stack:
            dec = stack.pop()
            count += 1
            if count > max_paths:
                yield ("undecided", "more than %d traces" % max_paths, None)
                return
            if time.time() > end:
                yield ("undecided", "more than %d seconds (%d traces)" % (seconds, count), None)
                return
            self.gen += 1
            self.journal = []
            self.saved = set()
            self.frames = []
            self.reset_trace(list(dec))
            try:
                try:
                    r = fn()
                    res = ("ok", r, None)
                except Infeasible:
                    res = ("infeasible", None, None)
                except Undecided as e:
                    res = ("undecided", e.why, e.loc)
                except PyRaise as e:
                    res = ("raise", e.value, e.loc)
                except RecursionError:
                    res = ("undecided", "recursion limit of the analysis", None)
                pend = list(self.pending)
                full = list(self.decisions)
                yield res
            finally:
                for undo in reversed(self.journal):
                    undo()
                self.journal = None
            for p, n in reversed(pend):
                for alt in range(n - 1, 0, -1):
                    stack.append(full[:p] + [alt])

    # ---------------------------------------------------------------- mutation
    def loc(self):
        for f in reversed(self.frames):
            return "%s:%s (%s)" % (self.rel(f.path), f.line, f.name)
        return "?"

    def effect(self, what):
        """A library call that may fail at run time; the `inject`-ed one does."""
        n = len(self.effects_seen)
        self.effects_seen.append("%s at %s" % (what, self.loc()))
        if self.inject is not None and self.inject[0] == n:
            raise self.exc(self.inject[1], "injected fault")

    def where(self):
        return [("%s:%s (%s)" % (self.rel(f.path), f.line, f.name)) for f in self.frames if f.path]

    def rel(self, p):
        return p[len(self.root) + 1:] if p and p.startswith(self.root) else p

    def touch(self, o, what=None):
        if what is not None:
            self.effects.append((o, what, self.loc()))
            if isinstance(o, Obj) and o.backs is not None and what[0] != "setitem":
                raise self.undecided("change of an instance through its __dict__")
        if self.journal is None:
            return
        if o.gen == self.gen or id(o) in self.saved:
            return
        self.saved.add(id(o))
        if isinstance(o, Obj):
            f, p, op = dict(o.fields), o.payload, o.open
            p = list(p) if isinstance(p, list) else p
            if isinstance(p, list) and o.cls.issub(self.cls["dict"]):
                p = [list(e) for e in p]

            def undo():
                o.fields, o.payload, o.open = f, p, op
        elif isinstance(o, Cls):
            a = dict(o.attrs)

            def undo():
                o.attrs = a
        elif isinstance(o, Env):
            v = dict(o.vars)

            def undo():
                o.vars = v
        else:
            return
        self.journal.append(undo)

    def new(self, cls, payload=None):
        if isinstance(cls, str):
            cls = self.cls[cls]
        return Obj(cls, self.gen, payload, self.loc() if self.frames else None)

    def mklist(self, items):
        return self.new("list", list(items))

    def mktuple(self, items):
        return self.new("tuple", list(items))

    def mkset(self, items=()):
        s = self.new("set", [])
        for i in items:
            self.set_add(s, i)
        return s

    def mkdict(self, pairs=()):
        d = self.new("dict", [])
        for k, v in pairs:
            self.dict_set(d, k, v)
        return d

    # ------------------------------------------------------------------ raising
    def exc(self, name, *args):
        o = self.new(self.cls[name])
        o.fields["args"] = self.new("tuple", list(args))
        o.implicit = True          # not by a raise statement
        return PyRaise(o, self.loc())

    def undecided(self, why):
        return Undecided(why, self.loc())

    # -------------------------------------------------------------------- facts
    def find(self, t):
        while t in self.parent:
            t = self.parent[t]
        return t

    def norm(self, t):
        """Rewrite a scalar term under the equalities assumed on this trace."""
        if not self.parent or not isinstance(t, Val):
            return t
        r = self.find(t)
        if r is not t:
            return self.norm(r)
        if isinstance(t, App):
            args = tuple(self.norm(a) for a in t.args)
            if any(a is not b for a, b in zip(args, t.args)):
                return self.rebuild(t.op, args, t.kind, t.taint)
            return t
        if isinstance(t, AStr):
            return mk_str([self.norm(p) for p in t.pieces])
        if isinstance(t, Run):
            return run(self.norm(t.term), t.width)
        if isinstance(t, Lin):
            out = t.const
            for x, c in t.terms:
                out = lin_add(out, lin_scale(self.norm(x), c))
            return out
        return t

    def rebuild(self, op, args, k, taint):
        from . import libs
        if op in ("lower", "upper", "strip", "lstrip", "rstrip") and isinstance(args[0], str):
            return getattr(args[0], op)()
        if op == "str" and is_const(args[0]):
            return str(args[0])
        if op == "len" and isinstance(args[0], str):
            return len(args[0])
        if op == "floordiv":
            return floordiv(*args)
        if op == "mod":
            return mod(*args)
        if op == "mul":
            return mul(*args)
        return app(op, args, k, None)

    def assume_eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return
        if is_const(a) or (isinstance(a, Sym) and isinstance(b, Sym) and len(a.props) > len(b.props)):
            a, b = b, a
        if is_const(a):
            return
        self.parent[a] = b
        self.rekey()
        if kind(a) == "dt" and kind(b) == "dt":
            self.assume_dt_eq(a, b)

    def assume_dt_eq(self, a, b):
        """Equal instants of one zone agree in every component."""
        from . import libs
        try:
            if libs.dt_tz(self, a) is not libs.dt_tz(self, b):
                return
            pairs = [(libs.dt_part(a, p), libs.dt_part(b, p)) for p in libs.PARTS]
        except Undecided:
            return
        for x, y in pairs:
            if isinstance(x, Lin) and isinstance(y, Lin):
                (s, c), (t, d) = lin_parts(x), lin_parts(y)
                if c == d == 0 and len(s) == len(t) == 1 and list(s.values()) == list(t.values()):
                    x, y = list(s)[0], list(t)[0]
                else:
                    continue
            elif isinstance(x, Lin) or isinstance(y, Lin):
                continue
            self.assume_eq(x, y)

    def rekey(self):
        """Restate the comparisons made so far under the equalities now known."""
        for key, val in list(self.truth.items()):
            if key[0] != "eq" or len(key) != 3:
                continue
            x, y = self.norm(key[1]), self.norm(key[2])
            if x is key[1] and y is key[2]:
                continue
            if x is y or (is_const(x) and is_const(y)):
                same = x is y or (type(x) is type(y) and x == y)
                if same != val:
                    raise Infeasible()
                continue
            k2 = ("eq",) + tuple(sorted((x, y), key=lambda v: (show(v), id(v))))
            if self.truth.setdefault(k2, val) != val:
                raise Infeasible()
        for key, s in list(self.signs.items()):
            if key[0] != "ord":
                continue
            x, y = self.norm(key[1]), self.norm(key[2])
            if x is key[1] and y is key[2]:
                continue
            if x is y:
                if 0 not in s:
                    raise Infeasible()
                continue
            if is_const(x) and is_const(y):
                continue
            self.signs[("ord", x, y)] = self.signs.get(("ord", x, y), {-1, 0, 1}) & s
            if not self.signs[("ord", x, y)]:
                raise Infeasible()

    def fact(self, text, val):
        self.facts.append((text, val, self.loc()))

    def soften(self, terms, label):
        """Note that this trace took a side of a condition the domain cannot see through."""
        if self.soft is None and opaque(terms):
            self.soft = "%s at %s" % (label, self.loc())

    def branch(self, key, label):
        """Boolean split on an opaque predicate, remembered under `key`."""
        if key in self.truth:
            return self.truth[key]
        r = self.choose(2, label) == 0
        self.truth[key] = r
        self.soften(key, label)
        self.fact(label, r)
        return r

    # scalar equality -----------------------------------------------------------
    def eq_static(self, a, b):
        """Equality as far as it is settled without splitting the trace."""
        try:
            return self.scalar_eq(a, b, static=True)
        except _Open:
            return None

    def order_edges(self, ka):
        """Known comparisons: x -> [(y, strict)] meaning x >= y or x > y."""
        out = {}

        def add(x, y, s):
            x, y = self.norm(x), self.norm(y)
            if s <= {0, 1}:
                out.setdefault(x, []).append((y, 0 not in s))
            if s <= {0, -1}:
                out.setdefault(y, []).append((x, 0 not in s))
        for key, s in self.signs.items():
            if key[0] == "ord":
                add(key[1], key[2], s)
            elif isinstance(key[1], Lin) and key[1].const == 0 and len(key[1].terms) == 2:
                (t1, k1), (t2, k2) = key[1].terms
                if k1 == -k2:
                    add(t1, t2, s if k1 > 0 else {-x for x in s})
        return out

    def derived_order(self, a, b):
        """Possible signs of a <> b that follow from the comparisons already made (transitivity)."""
        edges = self.order_edges(kind(a))
        opts = {-1, 0, 1}
        for x, y, gt in ((a, b, 1), (b, a, -1)):
            seen, todo = {x: False}, [x]
            while todo:
                n = todo.pop()
                for m, strict in edges.get(n, ()):
                    st = seen[n] or strict
                    if m not in seen or (st and not seen[m]):
                        seen[m] = st
                        todo.append(m)
            if y in seen and y is not x:
                opts &= {gt} if seen[y] else {gt, 0}
        return opts

    def scalar_eq(self, a, b, static=False):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if is_const(a) and is_const(b):
            return type(a) is type(b) and a == b or (is_num(a) and is_num(b) and a == b)
        ka, kb = kind(a), kind(b)
        num = ("int", "float", "num", "bool")
        if (ka in num) != (kb in num) and "any" not in (ka, kb):
            return False
        if ka not in num and ka != kb and "any" not in (ka, kb):
            return False
        if ka in num and kb in num:
            if static:
                raise _Open()
            return self.sign(lin_add(a, b, -1), "%s == %s" % (show(a), show(b)), ask="eq") == 0
        ra, rb = self.rank(a), self.rank(b)
        if ra is not None and rb is not None and ra[0] == rb[0]:
            return ra[1] == rb[1]
        if isinstance(a, Sym) and isinstance(b, Sym) and a.props.get("group") is not None \
                and a.props.get("group") == b.props.get("group"):
            return False
        if ka == "bytes" and kb == "bytes" and (bytes_nonempty(a) and b == b"" or bytes_nonempty(b) and a == b""):
            return False
        if ka == "str" and kb == "str":
            d = self.str_differs(a, b)
            if d:
                return False
            m = self.match_eq(a, b, static)
            if m is not None:
                return m
        if ka == "dt":
            d = self.dt_eq(a, b)
            if d is not None:
                return d
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "urlparse":
            # texts of canonical URIs: parsing keeps them apart
            return self.scalar_eq(a.args[0], b.args[0], static)
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "hash" and len(a.args) == len(b.args) == 1:
            return self.scalar_eq(a.args[0], b.args[0], static)
        fa = isinstance(a, Sym) and a.props.get("fresh")
        fb = isinstance(b, Sym) and b.props.get("fresh")
        if fa or fb:
            if (is_const(a) or is_const(b)) or (fa and fb):
                return False
            x, y = (a, b) if fa else (b, a)
            if isinstance(y, (App, AStr)) and ka == "str" and not mentions(y, x):
                return False
        if ka == "uuid" and kb == "uuid" and (fa or fb or all(isinstance(x, App) and x.op == "uuid" and isinstance(x.args[0], str)
                                                              for x in (a, b))):
            return False
        key = ("eq",) + tuple(sorted((a, b), key=lambda v: (show(v), id(v))))
        if key in self.truth:
            return self.truth[key]
        # three-way order facts already settle equality
        s = self.signs.get(("ord", a, b)) or self.signs.get(("ord", b, a))
        if s is not None and len(s) == 1:
            return 0 in s
        d = self.derived_order(a, b)
        if 0 not in d:
            return False
        if static:
            raise _Open()
        r = self.choose(2, "eq") == 0
        self.truth[key] = r
        self.soften((a, b), "%s == %s" % (show(a), show(b)))
        self.fact("%s == %s" % (show(a), show(b)), r)
        if r:
            self.assume_eq(a, b)
        return r

    def rank(self, v):
        if isinstance(v, Sym):
            return v.props.get("rank")
        return None

    def match_eq(self, a, b, static=False):
        """Equality of two texts piece by piece: None when it stays open."""
        pa, pb = pieces(a), pieces(b)
        if len(pa) == 1 or len(pb) == 1:
            return None
        # same tail/head stripping
        def alike(p, q):
            return p is q or (isinstance(p, str) and isinstance(q, str) and p == q)
        while pa and pb and alike(pa[0], pb[0]):
            pa, pb = pa[1:], pb[1:]
        while pa and pb and alike(pa[-1], pb[-1]):
            pa, pb = pa[:-1], pb[:-1]
        while pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = 0
            while n < min(len(pa[-1]), len(pb[-1])) and pa[-1][-1 - n] == pb[-1][-1 - n]:
                n += 1
            if n == 0:
                break
            pa = pa[:-1] + ([pa[-1][:-n]] if pa[-1][:-n] else [])
            pb = pb[:-1] + ([pb[-1][:-n]] if pb[-1][:-n] else [])
        while pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            n = 0
            while n < len(pa[0]) and n < len(pb[0]) and pa[0][n] == pb[0][n]:
                n += 1
            if n == 0:
                break
            pa = ([pa[0][n:]] if pa[0][n:] else []) + pa[1:]
            pb = ([pb[0][n:]] if pb[0][n:] else []) + pb[1:]
        x, y = mk_str(pa), mk_str(pb)
        if x is y or (isinstance(x, str) and x == y):
            return True
        if (x is not a or y is not b) and (len(pa) <= 1 or len(pb) <= 1):
            return self.scalar_eq(x, y, static)
        for ch in sorted(set("".join(p for p in pa if isinstance(p, str)))):
            # both have the form  head + ch + tail  with no ch in the heads
            u, v = self.cut_at(pa, ch), self.cut_at(pb, ch)
            if u and v:
                return self.scalar_eq(mk_str(u[0]), mk_str(v[0]), static) and self.scalar_eq(mk_str(u[1]), mk_str(v[1]), static)
        return None

    @staticmethod
    def cut_at(ps, ch):
        for i, p in enumerate(ps):
            if isinstance(p, str) and ch in p:
                j = p.index(ch)
                return ps[:i] + ([p[:j]] if j else []), ([p[j + 1:]] if p[j + 1:] else []) + ps[i + 1:]
            if not excludes(p, ch):
                return None
        return None

    def str_differs(self, a, b):
        pa, pb = pieces(a), pieces(b)
        if not pa:
            return str_nonempty(b) is True
        if not pb:
            return str_nonempty(a) is True
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return True
        if isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if pa[-1][-n:] != pb[-1][-n:]:
                return True
        for x, y in ((pa, pb), (pb, pa)):
            lits = "".join(p for p in x if isinstance(p, str))
            if any(all(excludes(q, ch) for q in y) for ch in set(lits)):
                return True
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            if isinstance(x, Sym) and isinstance(y, Sym):
                g, h = x.props.get("group"), y.props.get("group")
                if g is not None and g == h:
                    return True
        for x, y in ((a, pb), (b, pa)):
            if isinstance(x, str) and len(y) > 1 and not self.could_be(x, y):
                return True
        la, lb = str_len(a), str_len(b)
        if is_const(la) and is_const(lb) and la != lb:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and len(x) < sum(
                    len(p) if isinstance(p, str) else (p.props.get("minlen", 0) if isinstance(p, Sym) else 0)
                    for p in pieces(y)):
                return True
        return False

    @staticmethod
    def could_be(text, ps):
        """Whether the pieces can spell the text, by the characters each piece may hold."""
        at = {0}
        for p in ps:
            nxt = set()
            for i in at:
                if isinstance(p, str):
                    if text.startswith(p, i):
                        nxt.add(i + len(p))
                    continue
                j = i
                if not (isinstance(p, Sym) and p.props.get("nonempty")):
                    nxt.add(j)
                while j < len(text) and not excludes(p, text[j]):
                    j += 1
                    nxt.add(j)
            at = nxt
            if not at:
                return False
        return len(text) in at

    def dt_eq(self, a, b):
        """Instant equality of two timestamps, when their parts settle it."""
        x, y = self.dt_concrete(a), self.dt_concrete(b)
        if x is not None and y is not None:
            return x == y
        return None

    def dt_concrete(self, v):
        import datetime as D
        if isinstance(v, App) and v.op == "dt.make" and all(isinstance(p, int) for p in v.args[:7]):
            from . import libs
            z = v.args[7]
            if z is None:
                return D.datetime(*v.args[:7])
            try:
                m = self.norm(libs.tz_minutes(self, z))
            except Undecided:
                return None
            if isinstance(m, int):
                return D.datetime(*v.args[:7], tzinfo=D.timezone(D.timedelta(minutes=m)))
        return None

    def dt_zones(self, a, b):
        """The zones of two timestamps, or None when unknown."""
        from . import libs
        try:
            return libs.dt_tz(self, a), libs.dt_tz(self, b)
        except Undecided:
            return None

    # numeric sign ---------------------------------------------------------------
    def atom_bounds(self, t):
        b = self.bounds.get(t)
        if b is None:
            if isinstance(t, Sym):
                lo, hi = t.props.get("lo"), t.props.get("hi")
            elif isinstance(t, App) and t.op in DT_BOUNDS:
                lo, hi = DT_BOUNDS[t.op]
            elif isinstance(t, App) and t.op == "len":
                lo, hi = 0, None
                if all(atom_nonempty(p) for p in pieces(t.args[0])) if is_str(t.args[0]) else False:
                    lo = 1
                elif self.truth.get(("nonempty", t.args[0])) is True:
                    lo = 1
            elif isinstance(t, App) and t.op == "floordiv" and isinstance(t.args[1], int) and t.args[1] > 0:
                l2, h2 = self.atom_bounds(t.args[0])[:2] if not is_const(t.args[0]) else (t.args[0], t.args[0])
                lo = None if l2 is None else l2 // t.args[1]
                hi = None if h2 is None else h2 // t.args[1]
            elif isinstance(t, App) and t.op == "mod" and isinstance(t.args[1], int) and t.args[1] > 0:
                lo, hi = 0, t.args[1] - 1
            else:
                lo, hi = None, None
            b = (lo, hi, False, False)
        return b

    def sign(self, v, label, ask="cmp"):
        """Sign (-1/0/1) of a numeric term; splits the trace when open.
        ask='eq' only separates zero from non-zero."""
        v = self.norm(v)
        if is_const(v):
            if v is None or isinstance(v, str):
                raise self.undecided("sign of a non-number")
            return (v > 0) - (v < 0)
        terms, c = lin_parts(v)
        if terms and all(isinstance(x, int) for x in list(terms.values()) + [c]):
            import math
            g = math.gcd(*list(terms.values()), c)
            if g > 1:
                v = lin_exact(v, g)
                terms, c = lin_parts(v)
                if len(terms) == 1 and c == 0 and list(terms.values())[0] == 1:
                    v = list(terms)[0]
        lo, hi, lstrict, hstrict = c, c, False, False
        for t, k in terms.items():
            if not isinstance(k, (int, float)):
                lo = hi = None
                break
            a, b, sa, sb = self.atom_bounds(t)
            if k < 0:
                a, b, sa, sb = b, a, sb, sa
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
            lstrict, hstrict = lstrict or sa, hstrict or sb
        opts = {-1, 0, 1}
        if lo is not None and (lo > 0 or (lo == 0 and lstrict)):
            opts -= {-1, 0}
        elif lo is not None and lo == 0:
            opts -= {-1}
        if hi is not None and (hi < 0 or (hi == 0 and hstrict)):
            opts -= {0, 1}
        elif hi is not None and hi == 0:
            opts -= {1}
        if not opts:
            raise Infeasible()
        # canonical orientation
        key, flip = v, 1
        if isinstance(v, Lin) and v.terms[0][1] < 0:
            key, flip = lin_scale(v, -1), -1
        known = self.signs.get(("sgn", key))
        if known is not None:
            opts &= {s * flip for s in known}
        if len(terms) == 2 and c == 0:
            (t1, k1), (t2, k2) = terms.items()
            if k1 == -k2:
                r1, r2 = self.rank(t1), self.rank(t2)
                if r1 and r2 and r1[0] == r2[0]:
                    s = (r1[1] > r2[1]) - (r1[1] < r2[1])
                    opts &= {s if k1 > 0 else -s}
        if len(terms) == 2 and c == 0 and len(opts) > 1:
            (t1, k1), (t2, k2) = terms.items()
            if k1 == -k2:
                d = self.derived_order(t1, t2)
                opts &= d if k1 > 0 else {-x for x in d}
        if not opts:
            raise Infeasible()
        if len(opts) == 1:
            return next(iter(opts))
        if ask == "eq":
            if 0 not in opts:
                return 1
            groups = [{0}, opts - {0}]
        elif ask == "cmp":
            groups = [{o} for o in (1, 0, -1) if o in opts]
        else:               # ask is a set: only membership matters
            inside = opts & ask
            if not inside:
                return next(iter(opts))
            if inside == opts:
                return next(iter(opts))
            groups = [inside, opts - inside]
        g = groups[self.choose(len(groups), label)] if len(groups) > 1 else groups[0]
        self.signs[("sgn", key)] = {s * flip for s in g}
        names = {1: ">", 0: "=", -1: "<"}
        if len(groups) > 1:
            self.soften(v, "sign of " + show(v))
        self.fact("%s %s 0" % (show(v), "".join(sorted(names[s] for s in g))), True)
        if g == {0} and len(terms) == 1:
            (t, k), = terms.items()
            val = -c / k if (-c) % k else -c // k
            self.assume_eq(t, val)
        elif g == {0} and len(terms) == 2 and c == 0:
            (t1, k1), (t2, k2) = terms.items()
            if k1 == -k2:
                self.assume_eq(t1, t2)
        elif len(terms) == 1:
            (t, k), = terms.items()
            if isinstance(k, int) and isinstance(c, (int, float)):
                self.narrow(t, k, c, g)
        return next(iter(g))

    def narrow(self, t, k, c, g):
        lo, hi, ls, hs = self.atom_bounds(t)
        integral = kind(t) in ("int", "bool")
        gg = g if k > 0 else {-s for s in g}
        cc = c if k > 0 else -c
        k = abs(k)
        import math
        b = -cc / k
        if gg <= {0, 1}:
            strict = 0 not in gg
            if integral:
                nb, ns = (math.floor(b) + 1 if strict else math.ceil(b)), False
            else:
                nb, ns = b, strict
            if lo is None or nb > lo or (nb == lo and ns):
                lo, ls = nb, ns
        if gg <= {0, -1}:
            strict = 0 not in gg
            if integral:
                nb, ns = (math.ceil(b) - 1 if strict else math.floor(b)), False
            else:
                nb, ns = b, strict
            if hi is None or nb < hi or (nb == hi and ns):
                hi, hs = nb, ns
        self.bounds[t] = (lo, hi, ls, hs)

    def order(self, a, b):
        """-1/0/1 for two scalars of an ordered kind."""
        a, b = self.norm(a), self.norm(b)
        if is_const(a) and is_const(b):
            try:
                return (a > b) - (a < b)
            except TypeError:
                raise self.exc("TypeError", "unorderable")
        if a is b:
            return 0
        if is_num(a) and is_num(b):
            return self.sign(lin_add(a, b, -1), "%s <> %s" % (show(a), show(b)))
        ka, kb = kind(a), kind(b)
        if "None" in (ka, kb) or (ka != kb and "any" not in (ka, kb) and not (is_num(a) and is_num(b))):
            raise self.exc("TypeError", "unorderable")
        zones = self.dt_zones(a, b) if ka == kb == "dt" else None
        if zones:
            if (zones[0] is None) != (zones[1] is None):
                raise self.exc("TypeError", "can't compare offset-naive and offset-aware datetimes")
            x, y = self.dt_concrete(a), self.dt_concrete(b)
            if x is not None and y is not None:
                return (x > y) - (x < y)
        ra, rb = self.rank(a), self.rank(b)
        if ra and rb and ra[0] == rb[0]:
            return (ra[1] > rb[1]) - (ra[1] < rb[1])
        eqk = ("eq",) + tuple(sorted((a, b), key=lambda v: (show(v), id(v))))
        opts = {1, 0, -1}
        s = self.signs.get(("ord", a, b))
        if s is None and ("ord", b, a) in self.signs:
            s = {-x for x in self.signs[("ord", b, a)]}
        if s is not None:
            opts &= s
        if eqk in self.truth:
            opts &= ({0} if self.truth[eqk] else {1, -1})
        else:
            e = self.eq_static(a, b)
            if e is not None:
                opts &= {0} if e else {1, -1}
        if ka == "str":
            if b == "":
                opts -= {-1}
            if a == "":
                opts -= {1}
        opts &= self.derived_order(a, b)
        if not opts:
            raise Infeasible()
        ol = [o for o in (1, 0, -1) if o in opts]
        r = ol[self.choose(len(ol), "order")] if len(ol) > 1 else ol[0]
        self.signs[("ord", a, b)] = {r}
        self.truth[eqk] = r == 0
        if len(ol) > 1:
            self.soften((a, b), "order of %s and %s" % (show(a), show(b)))
        self.fact("%s %s %s" % (show(a), {1: ">", 0: "==", -1: "<"}[r], show(b)), True)
        if r == 0 and not (zones and zones[0] is not zones[1]):
            self.assume_eq(a, b)
        return r

    # ------------------------------------------------------------------- typing
    def typeof(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Cls):
            return v.meta or self.cls["type"]
        if isinstance(v, (Func, Bound, Builtin)):
            return self.cls["function"]
        if isinstance(v, (Mod, ExtMod)):
            return self.cls["module"]
        k = kind(v)
        m = {"None": "NoneType", "dt": "datetime", "uuid": "UUID", "num": "float", "td": "timedelta", "tz": "timezone",
             "uri": "ParseResult", "xmldoc": "object", "bytes": "bytes"}
        n = m.get(k, k)
        if n in self.cls:
            return self.cls[n]
        return self.cls["object"]

    def isinstance_(self, v, c):
        if isinstance(c, Obj) and c.cls.name == "tuple":
            return any(self.isinstance_(v, x) for x in c.payload)
        if isinstance(c, (Obj, str, int, Func, Mod, ExtMod)) or c is None:
            raise self.exc("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
        if not isinstance(c, Cls):
            raise self.undecided("isinstance against %s" % show(c))
        if kind(v) == "any" and not isinstance(v, (Obj, Cls, Func, Bound, Builtin, Mod, ExtMod)):
            raise self.undecided("type of %s unknown" % show(v))
        return self.typeof(v).issub(c)

    def find_cls_attr(self, c, name):
        for k in c.mro:
            if name in k.attrs:
                return k.attrs[name], k
        return MISSING, None

    # --------------------------------------------------------------- attributes
    def bind(self, attr, obj, owner):
        if isinstance(attr, Func):
            return Bound(attr, obj)
        if isinstance(attr, StaticM):
            return attr.f
        if isinstance(attr, ClassM):
            return Bound(attr.f, obj.cls if isinstance(obj, Obj) else obj)
        if isinstance(attr, Prop):
            return self.call(attr.fget, [obj])
        if isinstance(attr, Obj) and self.user(attr, "__get__") is not None:
            inst = isinstance(obj, Obj)
            return self.call(self.user(attr, "__get__"), [obj if inst else None, obj.cls if inst else obj])
        return attr

    def getattr(self, o, name, default=MISSING):
        if isinstance(o, Obj):
            hook, k = self.find_cls_attr(o.cls, "__getattribute__")
            if hook is not MISSING:
                return self.call(Bound(hook, o), [name])
            return self.plain_getattr(o, name, default)
        return self.other_getattr(o, name, default)

    def plain_getattr(self, o, name, default=MISSING):
        if isinstance(o, Obj):
            a, k = self.find_cls_attr(o.cls, name)
            if isinstance(a, Prop):
                return self.call(a.fget, [o])
            if isinstance(a, Obj) and self.user(a, "__set__") is not None:
                return self.bind(a, o, k)
            if name in o.fields:
                return o.fields[name]
            if a is not MISSING:
                return self.bind(a, o, k)
            m = self.builtin_method(o, name)
            if m is not None:
                return m
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = self.mkdict([(k, v) for k, v in o.fields.items()])
                d.backs = o
                return d
            if name == "__doc__":
                return None
            if name == "__module__":
                return o.cls.module.name if o.cls.module else "builtins"
            g, _ = self.find_cls_attr(o.cls, "__getattr__")
            if g is not MISSING:
                return self.call(Bound(g, o), [name])
        if default is not MISSING:
            return default
        raise self.attr_error(o, name)

    def other_getattr(self, o, name, default=MISSING):
        if False:
            pass
        elif isinstance(o, Cls):
            a, k = self.find_cls_attr(o, name)
            if a is not MISSING:
                if isinstance(a, StaticM):
                    return a.f
                if isinstance(a, ClassM):
                    return Bound(a.f, o)
                return a
            m = o.meta or self.cls["type"]
            a, k = self.find_cls_attr(m, name)
            if a is not MISSING:
                return self.bind(a, o, k)
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return o.module.name if o.module else "builtins"
            if name == "__bases__":
                return self.mktuple(o.bases)
            if name == "__mro__":
                return self.mktuple(o.mro)
            if name == "__members__" and o.members is not None:
                return self.mkdict(list(o.members))
            if name == "__class__":
                return m
            if name == "__dict__":
                return self.mkdict([(k, v) for k, v in o.attrs.items()])
            u = self.unbound_builtin(o, name)
            if u is not None:
                return u
        elif isinstance(o, Super):
            inst = o.obj
            c = inst.cls if isinstance(inst, Obj) else None
            if isinstance(inst, Cls):
                # metaclass method (self is a class) or classmethod
                if o.cls.issub(self.cls["type"]):
                    c = inst.meta or self.cls["type"]
                else:
                    c = inst
            mro = c.mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                if name in k.attrs:
                    return self.bind(k.attrs[name], inst, k)
                if k.builtin:
                    m = self.builtin_method(inst, name, k)
                    if m is not None:
                        return m
        elif isinstance(o, Mod):
            v = o.env.vars[name] if name in o.env.vars else self.modules.get(o.name + "." + name, MISSING)
            if v is not MISSING:
                return v
        elif isinstance(o, ExtMod):
            v = o.table.get(name, MISSING)
            if v is MISSING:
                v = self.prelude.get(o.name, {}).get(name, MISSING)
            if v is not MISSING:
                return v
            sub = self.ext.get(o.name + "." + name)
            if sub is not None:
                return sub
            return Builtin(o.name + "." + name, self.opaque_call(o.name + "." + name))
        elif isinstance(o, (Func, Builtin)):
            from . import libs
            st = libs.STATIC.get((o.name, name))
            if st is not None:
                return Builtin(name, st)
            if isinstance(o, Func) and name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            if name == "__module__" and isinstance(o, Func):
                return o.module.name
            if name == "__annotations__" and isinstance(o, Func):
                args = o.node.args
                return self.mkdict([(a.arg, self.eval(a.annotation, o.env)) for a in args.posonlyargs + args.args + args.kwonlyargs
                                    if a.annotation is not None])
            if name == "__get__":
                return Builtin("__get__", lambda I, a, k: Bound(o, a[0]))
        elif isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name, default)
        else:
            if name == "__class__" and kind(o) != "any":
                return self.typeof(o)
            m = self.builtin_method(o, name)
            if m is NONE_VALUE:
                return None
            if m is not None:
                return m
            if kind(o) == "any" and isinstance(o, Val):
                return app("attr." + name, (o,), "any", taint=True)
            if is_const(o) and type(o) in (str, int, float, bytes) and callable(getattr(o, name, None)):
                from . import libs
                return Builtin(name, libs.const_call(getattr(o, name)))
        if default is not MISSING:
            return default
        raise self.attr_error(o, name)

    def attr_error(self, o, name):
        t = o.cls.name if isinstance(o, Obj) else o.name if isinstance(o, (Cls, Mod)) else self.typeof(o).name if not \
            isinstance(o, Super) else "super"
        if isinstance(o, Obj) and o.cls.builtin and o.cls.name in self.opaque_types:
            return self.undecided("attribute %r of %s is not modelled" % (name, t))
        if isinstance(o, Val) and not isinstance(o, Obj):
            import datetime
            import uuid
            py = {"str": str, "int": int, "float": float, "dt": datetime.datetime, "uuid": uuid.UUID, "bool": bool}
            c = py.get(kind(o))
            if c is not None and hasattr(c, name):
                return self.undecided("attribute %r of %s is not modelled" % (name, t))
        if isinstance(o, Obj):
            for k in o.cls.mro:
                if k.builtin and hasattr(getattr(_pyb, k.name, None), name):
                    return self.undecided("attribute %r of %s is not modelled" % (name, t))
        if is_const(o) and hasattr(o, name):
            return self.undecided("attribute %r of %s is not modelled" % (name, t))
        return self.exc("AttributeError", "%s has no attribute %s" % (t, name))

    opaque_types = {"Element", "Document", "Node", "SaxParser", "Struct", "Thread"}

    def opaque_call(self, name):
        def f(I, args, kw):
            I.ext_calls.append((name, args, I.loc()))
            return app("ext:" + name, [a for a in args], "any", taint=True)
        return f

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            a, k = self.find_cls_attr(o.cls, name)
            if isinstance(a, Prop):
                if a.fset is None:
                    raise self.exc("AttributeError", "can't set " + name)
                return self.call(a.fset, [o, v])
            if isinstance(a, Obj) and self.user(a, "__set__") is not None:
                return self.call(self.user(a, "__set__"), [o, v])
            h, _ = self.find_cls_attr(o.cls, "__setattr__")
            if h is not MISSING:
                return self.call(Bound(h, o), [name, v])
            if o.cls.builtin and o.cls.name not in ("Element", "File", "Struct", "Document"):
                raise self.exc("AttributeError", "cannot set " + name)
            self.touch(o, ("set", name))
            o.fields[name] = v
        elif isinstance(o, Cls):
            self.touch(o, ("setcls", name))
            o.attrs[name] = v
        elif isinstance(o, Mod):
            self.touch(o.env, ("setmod", name))
            o.env.vars[name] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        else:
            raise self.exc("AttributeError", "cannot set %s on %s" % (name, show(o)))

    def delattr(self, o, name):
        if isinstance(o, Obj) and name in o.fields:
            self.touch(o, ("del", name))
            del o.fields[name]
        elif isinstance(o, Cls) and name in o.attrs:
            self.touch(o, ("delcls", name))
            del o.attrs[name]
        else:
            raise self.attr_error(o, name)

    def builtin_method(self, o, name, only=None):
        from . import libs
        return libs.method(self, o, name, only)

    def unbound_builtin(self, c, name):
        for k in c.mro:
            if k.builtin:
                b = k

                def f(I, args, kw, b=b):
                    if not args:
                        raise I.exc("TypeError", "unbound method needs an argument")
                    m = I.builtin_method(args[0], name, b)
                    if m is None:
                        raise I.attr_error(args[0], name)
                    return I.call(m, args[1:], kw)
                from . import libs
                if libs.has_method(self, k, name):
                    sm = libs.static_method(self, k, name)
                    return sm if sm is not None else Builtin(k.name + "." + name, f)
        return None

    # -------------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        args = list(args)
        kw = kw or {}
        if isinstance(f, Bound):
            if isinstance(f.func, (Func, Builtin, Cls, Bound, Obj)):
                return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.sig is not None:
                try:
                    f.sig.bind(*args, **kw)
                except TypeError as e:
                    raise self.exc("TypeError", "%s(): %s" % (f.name, e))
            return f.fn(self, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Cls):
            m = f.meta
            if m is not None:
                c, _ = self.find_cls_attr(m, "__call__")
                if c is not MISSING:
                    return self.call(Bound(c, f), args, kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            c, k = self.find_cls_attr(f.cls, "__call__")
            if c is not MISSING:
                return self.call(self.bind(c, f, k), args, kw)
            raise self.exc("TypeError", "%s is not callable" % show(f))
        if isinstance(f, Val) and kind(f) == "any":
            return app("call", [f] + [a for a in args], "any", taint=True)
        raise self.exc("TypeError", "%s is not callable" % show(f))

    def open_seqs(self):
        return [o for o in self.opens]

    def call_func(self, f, args, kw):
        if f.node is None:
            return f.f(self, args, kw)
        if self.hooks:
            h = self.hooks.get(f.name)
            if h is not None:
                r = h(self, f, args, kw)
                if r is not NotImplemented:
                    return r
        node = f.node
        env = Env(f.env, f.module, gen=self.gen)
        self.bind_params(f, args, kw, env)
        fr = Frame()
        fr.func, fr.env, fr.line, fr.path, fr.clsname, fr.owner, fr.name = (
            f, env, node.lineno, f.module.path, f.clsname, f.owner, f.name)
        fr.firstarg = args[0] if args else None
        if len(self.frames) > 120:
            raise self.undecided("call depth")
        self.functions_seen.add((self.rel(f.module.path), f.name, node.lineno))
        if self.record_calls:
            self.calls.append((f, args, kw, self.loc()))
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if f.is_gen is None:
                f.is_gen = has_yield(node)
            if f.is_gen:
                return self.lazy(self.resumable(fr, self.g_block(node.body, env)))
            try:
                self.exec_block(node.body, env)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.frames.pop()

    def bind_params(self, f, args, kw, env):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = env.vars
        clsn = f.clsname
        names_m = [mangle(n, clsn) for n in names]
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            raise self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (
                f.name, len(names), len(args)))
        for n, v in zip(names_m, args):
            vals[n] = v
        if a.vararg is not None:
            vals[mangle(a.vararg.arg, clsn)] = self.mktuple(args[len(names):])
        pos_only = {p.arg for p in a.posonlyargs}
        for n, m in zip(names, names_m):
            if n in kw and n not in pos_only:
                if m in vals:
                    raise self.exc("TypeError", "%s() got multiple values for argument %r" % (f.name, n))
                vals[m] = kw.pop(n)
        nd = len(f.defaults)
        for i, (n, m) in enumerate(zip(names, names_m)):
            if m not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[m] = f.defaults[j]
                else:
                    raise self.exc("TypeError", "%s() missing required argument %r" % (f.name, n))
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            elif d is not MISSING:
                vals[p.arg] = d
            else:
                raise self.exc("TypeError", "%s() missing keyword argument %r" % (f.name, p.arg))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.mkdict(list(kw.items()))
        elif kw:
            raise self.exc("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, next(iter(kw))))

    def instantiate(self, c, args, kw):
        from . import libs
        if c.members is not None:
            for _, m in c.members:
                if self.eq(m.fields["value"], args[0]):
                    return m
            raise self.exc("ValueError", "not a valid enum value")
        if c.builtin:
            return libs.construct(self, c, args, kw)
        if any(b.builtin and b.name == "ABC" for b in c.mro) or c.meta is not None and c.meta.issub(self.cls["ABCMeta"]):
            for b in c.mro:
                for name, x in b.attrs.items():
                    if abstract(x) and self.find_cls_attr(c, name)[0] is x:
                        raise self.exc("TypeError", "Can't instantiate abstract class %s with abstract method %s" % (c.name, name))
        n, k = self.find_cls_attr(c, "__new__")
        if n is not MISSING:
            f = n.f if isinstance(n, StaticM) else n
            o = self.call(f, [c] + args, kw)
            if not (isinstance(o, Obj) and o.cls.issub(c)):
                return o
        else:
            o = self.allocate(c)
            if c.issub(self.cls["tuple"]):
                o.payload = list(self.iterate(args[0])) if args else []
                return o
        i, k = self.find_cls_attr(c, "__init__")
        if i is not MISSING:
            r = self.call(self.bind(i, o, k), args, kw)
            if r is not None:
                raise self.exc("TypeError", "__init__ should return None")
        else:
            m = self.builtin_method(o, "__init__")
            if m is not None:
                self.call(m, args, kw)
            elif (args or kw) and n is MISSING:
                raise self.exc("TypeError", "%s() takes no arguments" % c.name)
        return o

    def allocate(self, c):
        o = self.new(c)
        for b in c.mro:
            if b.builtin and b.name in ("str", "int", "float", "bytes", "datetime", "timedelta"):
                raise self.undecided("instance of a subclass of %s" % b.name)
            if b.builtin and b.name in ("list", "dict", "set", "tuple"):
                o.payload = []
        if c.issub(self.cls["BaseException"]):
            o.fields["args"] = self.mktuple([])
        return o

    # ----------------------------------------------------------- generic protocol
    def user(self, o, name):
        """User-defined special method of an object's class (not inherited from a builtin)."""
        if isinstance(o, Obj):
            for k in o.cls.mro:
                if name in k.attrs:
                    a = k.attrs[name]
                    return None if a is None else self.bind(a, o, k)
                if k.builtin and k.name in ("list", "dict", "set", "tuple") and name in ("__eq__", "__len__", "__iter__",
                                                                                      "__contains__", "__hash__"):
                    return None
        elif isinstance(o, Cls):
            m = o.meta
            if m is not None:
                a, k = self.find_cls_attr(m, name)
                if a is not MISSING and a is not None:
                    return self.bind(a, o, k)
        return None

    def base_of(self, o):
        """Builtin container behaviour of an object: 'list' | 'dict' | 'set' | 'tuple' | None."""
        if isinstance(o, Obj):
            for k in o.cls.mro:
                if k.builtin and k.name in ("list", "dict", "set", "frozenset", "tuple", "iterator", "dictview"):
                    return {"frozenset": "set"}.get(k.name, k.name)
        return None

    def truthy(self, v, label=None):
        if isinstance(v, (Func, Bound, Builtin, Cls, Mod, ExtMod, Super)):
            return True
        if isinstance(v, Obj):
            b = self.user(v, "__bool__")
            if b is not None:
                return self.truthy(self.call(b, []))
            l = self.user(v, "__len__")
            if l is not None:
                return self.truthy(self.call(l, []))
            if self.base_of(v) in ("list", "dict", "set", "tuple", "dictview"):
                return len(self.contents(v)) > 0
            if v.cls.name == "Element":
                return len(v.fields["children"].payload) > 0
            return True
        v = self.norm(v)
        if is_const(v):
            return bool(v)
        k = kind(v)
        if k == "str":
            n = str_nonempty(v)
            if n is not None:
                return n
            if isinstance(v, App) and v.op in ("lower", "upper", "casefold"):
                return self.truthy(v.args[0])
            ps = pieces(v)
            if len(ps) == 1:
                b = self.bounds.get(app("len", (v,), "int"))
                if b is not None and b[0] is not None and (b[0] >= 1 or b[0] == 0 and b[2]):
                    return True
                if b is not None and b[1] is not None and b[1] <= 0:
                    self.assume_eq(v, "")
                    return False
                r = self.branch(("nonempty", v), "%s is non-empty" % show(v))
                if r is False:
                    self.assume_eq(v, "")
                return r
            return any([self.truthy(p) for p in ps])
        if k in ("int", "float", "num"):
            return self.sign(v, "%s != 0" % show(v), ask="eq") != 0
        if k in ("dt", "uuid", "tz", "uri"):
            return True
        if k == "bytes" and bytes_nonempty(v):
            return True
        if k == "td":
            return self.sign(v.args[0], "td", ask="eq") != 0
        return self.branch(("true", v), "%s" % show(v))

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                # a subclass's reflected __eq__ goes first
                first, second = a, b
                if isinstance(b, Obj) and b.cls is not a.cls and b.cls.issub(a.cls) and self.user(b, "__eq__"):
                    first, second = b, a
                m = self.user(first, "__eq__")
                if m is not None:
                    r = self.call(m, [second])
                    if r is not self.notimpl:
                        return self.truthy(r)
            if isinstance(b, Obj):
                m = self.user(b, "__eq__")
                if m is not None:
                    r = self.call(m, [a])
                    if r is not self.notimpl:
                        return self.truthy(r)
            ba, bb = self.base_of(a), self.base_of(b)
            if ba and ba == bb and ba != "iterator":
                return self.container_eq(a, b, ba)
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls.name in ("Struct",):
                raise self.undecided("equality of " + a.cls.name)
            return False
        if isinstance(a, (Cls, Func, Builtin, Mod, ExtMod, Super)) or isinstance(b, (Cls, Func, Builtin, Mod, ExtMod)):
            return a is b
        if isinstance(a, Bound) or isinstance(b, Bound):
            return isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_
        return self.scalar_eq(a, b)

    def container_eq(self, a, b, base):
        pa, pb = self.contents(a), self.contents(b)
        if len(pa) != len(pb):
            return False
        if base in ("list", "tuple"):
            return all(self.eq(x, y) for x, y in zip(pa, pb))
        if base == "set":
            return all(self.set_has(b, x) for x in pa)
        if base == "dict":
            for k, v in a.payload:
                w = self.dict_get(b, k)
                if w is MISSING or not self.eq(v, w):
                    return False
            return True
        raise self.undecided("equality of containers")

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(op, ast.NotEq):
                m = self.user(a, "__ne__")
                if m is not None:
                    r = self.call(m, [b])
                    if r is not self.notimpl:
                        return self.truthy(r)
                return not self.eq(a, b)
            return self.eq(a, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same_object(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        names = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"),
                 ast.GtE: ("__ge__", "__le__")}
        n, rn = names[type(op)]
        if isinstance(a, (Obj, Cls)) or isinstance(b, (Obj, Cls)):
            m = self.user(a, n)
            if m is not None:
                r = self.call(m, [b])
                if r is not self.notimpl:
                    return self.truthy(r)
            m = self.user(b, rn)
            if m is not None:
                r = self.call(m, [a])
                if r is not self.notimpl:
                    return self.truthy(r)
            ba, bb = self.base_of(a), self.base_of(b)
            if ba in ("list", "tuple") and ba == bb:
                for x, y in zip(a.payload, b.payload):
                    if not self.eq(x, y):
                        return self.compare(op, x, y)
                return self.compare(op, len(a.payload), len(b.payload))
            if ba == "set" and bb == "set":
                sub = all(self.set_has(b, x) for x in a.payload)
                sup = all(self.set_has(a, x) for x in b.payload)
                return {ast.Lt: sub and not sup, ast.LtE: sub, ast.Gt: sup and not sub, ast.GtE: sup}[type(op)]
            if isinstance(a, Val) and kind(a) == "any" or isinstance(b, Val) and kind(b) == "any":
                raise self.undecided("order of unknown values")
            raise self.exc("TypeError", "%s not supported between %s and %s" % (n, show(a), show(b)))
        if is_num(a) and is_num(b):
            want = {ast.Lt: {-1}, ast.LtE: {-1, 0}, ast.Gt: {1}, ast.GtE: {1, 0}}[type(op)]
            return self.sign(lin_add(a, b, -1), "cmp", ask=want) in want
        s = self.order(a, b)
        return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]

    def same_object(self, a, b):
        if a is b:
            return True
        if is_const(a) and is_const(b):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return a is b
            return type(a) is type(b) and a == b
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            o = b if (a is None or isinstance(a, bool)) else a
            if isinstance(o, Val) and kind(o) == "any":
                return self.branch(("is", o, a if o is b else b), "%s is %s" % (show(o), show(a if o is b else b)))
            if isinstance(o, Val) and kind(o) == "bool":
                return self.eq(a, b)
            return False
        if isinstance(a, Val) and isinstance(b, Val) and not isinstance(a, Obj) and not isinstance(b, Obj):
            return self.norm(a) is self.norm(b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def hash_term(self, v):
        """Canonical term for hash(v); raises TypeError for unhashable values."""
        if isinstance(v, Obj):
            for k in v.cls.mro:
                if "__hash__" in k.attrs:
                    h = k.attrs["__hash__"]
                    if h is None:
                        raise self.exc("TypeError", "unhashable type: %s" % v.cls.name)
                    r = self.call(self.bind(h, v, k), [])
                    if r is None or isinstance(r, (str, Obj, float)):
                        raise self.exc("TypeError", "__hash__ method should return an integer")
                    return r
                if k.builtin and k.name in ("list", "dict", "set"):
                    raise self.exc("TypeError", "unhashable type: %r" % k.name)
                if k.builtin and k.name in ("tuple", "frozenset"):
                    return app("hash", (tuple(self.hash_term(x) for x in v.payload),), "int")
                if not k.builtin and "__eq__" in k.attrs:
                    raise self.exc("TypeError", "unhashable type: %s" % v.cls.name)
            return app("hash", (v,), "int")
        if isinstance(v, Super):
            return app("hash", (self.fresh("super", "any"),), "int")
        if isinstance(v, Val):
            v = self.norm(v)
            d = self.dt_concrete(v)
            if d is not None and d.tzinfo is not None:      # one hash per instant
                import datetime as D
                return app("hash", ("instant " + d.astimezone(D.timezone.utc).isoformat(),), "int")
        if isinstance(v, (bool, float)) and v == int(v) if isinstance(v, (bool, float)) and v == v and abs(v) < 1e300 else False:
            v = int(v)
        return app("hash", (v,), "int")

    def fresh(self, name, k, **props):
        self.fresh_n += 1
        return Sym("%s#%d" % (name, self.fresh_n), k, **props)

    # ---------------------------------------------------------------- containers
    def contents(self, o):
        """Python list of the values iteration yields (a snapshot)."""
        b = self.base_of(o)
        if b == "iterator" and o.lazy is not None:
            o.payload, o.lazy = list(o.payload) + self.bounded(o.lazy), None
        if b in ("list", "tuple", "iterator"):
            return list(o.payload)
        if b == "set":
            items = list(o.payload)
            return items[::-1] if self.set_reverse else items
        if b == "dict":
            return [k for k, _ in o.payload]
        if b == "dictview":
            d = o.fields["d"]
            w = o.fields["what"]
            if w == "keys":
                return [k for k, _ in d.payload]
            if w == "values":
                return [v for _, v in d.payload]
            return [self.mktuple([k, v]) for k, v in d.payload]
        return None

    # ------------------------------------------------------------------ iterators
    def lazy(self, pygen):
        """An iterator whose items are computed when they are asked for."""
        o = self.new("iterator", [])
        o.lazy = pygen
        return o

    def pull(self, o):
        """The next item of an iterator, MISSING at its end."""
        if o.gen != self.gen and self.journal is not None:
            if o.lazy is not None:
                o.payload, o.lazy = list(o.payload) + self.bounded(o.lazy), None
            self.touch(o)
        if o.payload:
            return o.payload.pop(0)
        if o.lazy is not None:
            try:
                o.started = True
                return next(o.lazy)
            except StopIteration:
                o.lazy = None
            except ValueError:
                raise self.undecided("a generator that resumes itself")
        return MISSING

    def bounded(self, items):
        out = []
        for x in items:
            out.append(x)
            if len(out) > 5000:
                raise self.undecided("unbounded iteration")
        return out

    def steps_of(self, v):
        """What iterating over v yields, one at a time (a Python generator)."""
        if not isinstance(v, Obj):
            yield from self.iterate(v)
            return
        m = self.user(v, "__iter__")
        if m is not None:
            r = self.call(m, [])
            if r is not v:
                yield from self.steps_of(r)
                return
        n = self.user(v, "__next__")
        if n is not None:
            while True:
                try:
                    x = self.call(n, [])
                except PyRaise as e:
                    if e.value.cls.issub(self.cls["StopIteration"]):
                        return
                    raise
                yield x
        b = self.base_of(v)
        if b == "list":
            i = 0
            while i < len(v.payload):
                if i > 5000:
                    raise self.undecided("unbounded iteration")
                yield v.payload[i]
                i += 1
            return
        if b == "iterator":
            while True:
                x = self.pull(v)
                if x is MISSING:
                    return
                yield x
        d = v.fields["d"] if b == "dictview" else v
        watch = isinstance(d, Obj) and self.base_of(d) in ("dict", "set")
        n0 = len(d.payload) if watch else 0
        for x in self.iterate(v):
            if watch and len(d.payload) != n0:
                raise self.exc("RuntimeError", "container changed size during iteration")
            yield x
        if watch and len(d.payload) != n0:
            raise self.exc("RuntimeError", "container changed size during iteration")

    def iterable(self, v):
        """steps_of for an argument that has to be iterable now."""
        if not isinstance(v, Obj):
            return iter(self.iterate(v))
        if self.user(v, "__iter__") is None and self.user(v, "__next__") is None and self.base_of(v) is None \
                and v.cls.name not in ("Element", "range", "File"):
            self.iterate(v)
        return self.steps_of(v)

    def resumable(self, fr, body):
        """Run a Python generator over analysed code with `fr` as its frame whenever it is resumed."""
        def send():
            return next(body)
        while True:
            if len(self.frames) > 120:
                raise self.undecided("call depth")
            self.frames.append(fr)
            try:
                v = send()
            except (StopIteration, ReturnSig):
                return
            finally:
                self.frames.pop()
            try:
                got = yield v

                def send(got=got):
                    return body.send(got)
            except PyRaise as e:
                def send(e=e):
                    return body.throw(e)

    def frame_copy(self):
        old, fr = self.frames[-1], Frame()
        for n in Frame.__slots__:
            setattr(fr, n, getattr(old, n, None))
        return fr

    def g_block(self, stmts, env):
        for s in stmts:
            if yields(s):
                yield from self.g_exec(s, env)
            else:
                self.exec(s, env)

    def g_value(self, e, env):
        if isinstance(e, ast.Yield):
            v = None if e.value is None else self.eval(e.value, env)
            r = yield v
            return r
        if isinstance(e, ast.YieldFrom):
            for v in self.steps_of(self.eval(e.value, env)):
                yield v
            return None
        raise self.undecided("yield inside an expression")

    def g_exec(self, s, env):
        self.frames[-1].line = s.lineno
        if isinstance(s, ast.Expr):
            yield from self.g_value(s.value, env)
        elif isinstance(s, ast.Assign):
            v = yield from self.g_value(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.Return):
            v = yield from self.g_value(s.value, env)
            raise ReturnSig(v)
        elif isinstance(s, ast.If):
            r = self.truthy(self.eval(s.test, env))
            self.branches_seen.add((self.frames[-1].path, s.lineno, s.col_offset, r))
            yield from self.g_block(s.body if r else s.orelse, env)
        elif isinstance(s, (ast.For, ast.While)):
            yield from self.g_loop(s, env)
        elif isinstance(s, ast.Try):
            yield from self.g_try(s, env)
        elif isinstance(s, ast.With):
            yield from self.g_with(s.items, 0, s, env)
        else:
            raise self.undecided("yield in %s" % type(s).__name__)

    def g_loop(self, s, env):
        def turns():
            if isinstance(s, ast.For):
                for v in self.steps_of(self.eval(s.iter, env)):
                    self.assign(s.target, v, env)
                    yield
            else:
                while self.truthy(self.eval(s.test, env)):
                    yield
        n = 0
        for _ in turns():
            n += 1
            if n > 1300:
                raise self.undecided("loop without a bound in the abstract state")
            try:
                yield from self.g_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
        yield from self.g_block(s.orelse, env)

    def g_try(self, s, env):
        done = False
        try:
            try:
                try:
                    yield from self.g_block(s.body, env)
                except PyRaise as e:
                    for h in s.handlers:
                        if self.handles(h, e.value, env):
                            if h.name:
                                self.store_name(h.name, e.value, env)
                            self.cur_exc.append(e.value)
                            try:
                                yield from self.g_block(h.body, env)
                            finally:
                                self.cur_exc.pop()
                            break
                    else:
                        raise
                else:
                    yield from self.g_block(s.orelse, env)
            except (Undecided, Infeasible, AnchorMissing, GeneratorExit):
                done = True
                raise
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            if not done:
                yield from self.g_block(s.finalbody, env)
            raise
        yield from self.g_block(s.finalbody, env)

    def g_with(self, items, i, s, env):
        if i == len(items):
            yield from self.g_block(s.body, env)
            return
        cm, v = self.enter(items[i], env)
        try:
            yield from self.g_with(items, i + 1, s, env)
        except PyRaise as e:
            if cm is not None and self.truthy(self.call(self.getattr(cm, "__exit__"), [e.value.cls, e.value, None])):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            if cm is not None:
                self.call(self.getattr(cm, "__exit__"), [None, None, None])
            raise
        if cm is not None:
            self.call(self.getattr(cm, "__exit__"), [None, None, None])

    def iterate(self, v):
        if isinstance(v, Obj):
            m = self.user(v, "__iter__")
            if m is not None:
                r = self.call(m, [])
                if r is not v:
                    return self.iterate(r)
            n = self.user(v, "__next__")
            if n is not None:
                out = []
                while True:
                    try:
                        out.append(self.call(n, []))
                    except PyRaise as e:
                        if e.value.cls.issub(self.cls["StopIteration"]):
                            return out
                        raise
                    if len(out) > 5000:
                        raise self.undecided("unbounded iteration")
            if self.base_of(v) == "iterator":
                return self.bounded(iter(lambda: self.pull(v), MISSING))
            c = self.contents(v)
            if c is not None:
                return c
            if v.cls.name == "Element":
                return list(v.fields["children"].payload)
            if v.cls.name == "range":
                return list(v.payload)
            if v.cls.name == "File":
                raise self.undecided("iterating over a file")
            g = self.user(v, "__getitem__")
            if g is not None:
                raise self.undecided("iteration through __getitem__")
            raise self.exc("TypeError", "%s object is not iterable" % v.cls.name)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Cls):
            if v.members is not None:
                return [m for _, m in v.members]
            m = self.user(v, "__iter__")
            if m is not None:
                return self.iterate(self.call(m, []))
            raise self.exc("TypeError", "type is not iterable")
        if v is None or is_num(v) or isinstance(v, (Func, Bound, Builtin, Cls)):
            raise self.exc("TypeError", "%s is not iterable" % show(v))
        if is_str(v):
            out = []
            for p in pieces(v):
                if isinstance(p, str):
                    out.extend(p)
                elif isinstance(p, Run):
                    from .terms import cut_run
                    out.extend(cut_run(p, i, i + 1) for i in range(p.width))
                else:
                    raise self.undecided("iterating over the characters of %s" % show(v))
            return out
        raise self.undecided("iterating over %s" % show(v))

    def key_eq(self, a, b):
        """Dictionary/set key match: same object, or equal hash and equal."""
        if a is b:
            return True
        oa, ob = isinstance(a, Obj), isinstance(b, Obj)
        if not oa and not ob:
            return self.eq(a, b)
        if oa != ob:
            if oa and self.user(a, "__eq__") is None or ob and self.user(b, "__eq__") is None:
                return False
        if self.base_of(a) == "tuple" and self.base_of(b) == "tuple" and oa and ob:
            return len(a.payload) == len(b.payload) and all(self.key_eq(x, y) for x, y in zip(a.payload, b.payload))
        if oa and ob and self.user(a, "__eq__") is None and self.user(b, "__eq__") is None \
                and self.base_of(a) is None:
            return False
        ha, hb = self.hash_term(a), self.hash_term(b)
        if ha is not hb and not self.scalar_eq_hash(ha, hb):
            return False
        return self.eq(b, a)

    def scalar_eq_hash(self, a, b):
        """Two hash terms agree only when they hash equal contents."""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if is_const(a) and is_const(b):
            return a == b
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "hash":
            x, y = a.args[0], b.args[0]
            return self.hash_arg_eq(x, y)
        if isinstance(a, Lin) and isinstance(b, Lin) and len(a.terms) == len(b.terms) and a.const == b.const:
            ok = True
            for (t, c), (u, d) in zip(sorted(a.terms, key=lambda x: repr(x[1])), sorted(b.terms, key=lambda x: repr(x[1]))):
                ok = ok and c == d and self.scalar_eq_hash(t, u)
            return ok
        return False

    def hash_arg_eq(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.scalar_eq_hash(p, q) if isinstance(p, App) and isinstance(q, App)
                                            else self.hash_arg_eq(p, q) for p, q in zip(x, y))
        if isinstance(x, tuple) or isinstance(y, tuple):
            return False
        if isinstance(x, Obj) or isinstance(y, Obj):
            return x is y
        if isinstance(x, (Cls, Func, Builtin)) or isinstance(y, (Cls, Func, Builtin)):
            return x is y
        if isinstance(x, App) and x.op == "hash" and isinstance(y, App) and y.op == "hash":
            return self.scalar_eq_hash(x, y)
        return self.scalar_eq(x, y)

    def check_hashable(self, k):
        if isinstance(k, Obj):
            self.hash_term(k)

    def dict_find(self, d, k):
        self.check_hashable(k)
        for e in d.payload:
            if self.key_eq(e[0], k):
                return e
        return None

    def dict_get(self, d, k):
        e = self.dict_find(d, k)
        return MISSING if e is None else e[1]

    def dict_set(self, d, k, v):
        self.check_hashable(k)
        self.touch(d, ("setitem", k))
        if d.backs is not None:
            self.touch(d.backs, ("set", k))
            d.backs.fields[k] = v
        for e in d.payload:
            if self.key_eq(e[0], k):
                e[1] = v
                return
        d.payload.append([k, v])

    def dict_del(self, d, k):
        e = self.dict_find(d, k)
        if e is None:
            raise self.exc("KeyError", k)
        self.touch(d, ("delitem", k))
        d.payload = [x for x in d.payload if x is not e and not (x[0] is e[0])]
        return e[1]

    def set_has(self, s, v):
        self.check_hashable(v)
        return any(self.key_eq(x, v) for x in s.payload)

    def set_add(self, s, v):
        if not self.set_has(s, v):
            self.touch(s, ("add", v))
            s.payload.append(v)
        else:
            self.touch(s, ("add-existing", v))

    def contains(self, c, v):
        if isinstance(c, Obj):
            m = self.user(c, "__contains__")
            if m is not None:
                return self.truthy(self.call(m, [v]))
            b = self.base_of(c)
            if b == "dict":
                return self.dict_find(c, v) is not None
            if b == "set":
                return self.set_has(c, v)
            if b == "dictview" and c.fields["what"] == "keys":
                return self.dict_find(c.fields["d"], v) is not None
            if c.cls.name == "range":
                return any(self.eq(x, v) for x in c.payload)
            if c.cls.name == "AttrImpl":
                return self.dict_find(c.fields["d"], v) is not None
            if b == "iterator" or self.user(c, "__iter__") is not None:
                return any(x is v or self.eq(x, v) for x in self.steps_of(c))
            it = self.contents(c)
            if it is None:
                it = self.iterate(c)
            return any(x is v or self.eq(x, v) for x in it)
        if is_str(c) and is_str(v):
            from . import libs
            return libs.str_contains(self, c, v)
        if is_str(c):
            raise self.exc("TypeError", "'in <string>' requires string")
        if isinstance(c, Cls) and c.members is not None:
            return any(m is v for _, m in c.members)
        if c is None or is_num(c):
            raise self.exc("TypeError", "argument is not iterable")
        raise self.undecided("membership in %s" % show(c))

    def index(self, o, i):
        """Position in a list for an index value; None when out of range."""
        n = len(o.payload)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if i < 0:
                i += n
            return i if 0 <= i < n else None
        if isinstance(i, Val) and o.open is not None:
            d = lin_add(i, self.list_len(o), -1)
            if isinstance(d, int) and d < 0:
                return n + d if n + d >= 0 else None
        raise self.undecided("index %s" % show(i))

    def list_len(self, o):
        n = len(o.payload)
        if o.open is not None:
            return lin_add(o.open[0], n - o.open[1])
        return n

    def getitem(self, o, i):
        if isinstance(o, Obj):
            m = self.user(o, "__getitem__")
            if m is not None:
                return self.call(m, [i])
            b = self.base_of(o)
            if b in ("list", "tuple"):
                if isinstance(i, Obj) and i.cls.name == "slice":
                    return self.list_slice(o, i)
                if not is_num(i):
                    raise self.exc("TypeError", "list indices must be integers")
                p = self.index(o, i)
                if p is None:
                    raise self.exc("IndexError", "list index out of range")
                return o.payload[p]
            if b == "dict":
                v = self.dict_get(o, i)
                if v is MISSING:
                    mm = self.user(o, "__missing__")
                    if mm is not None:
                        return self.call(mm, [i])
                    if "default_factory" in o.fields and o.fields["default_factory"] is not None:
                        v = self.call(o.fields["default_factory"], [])
                        self.dict_set(o, i, v)
                        return v
                    if o.cls.name == "Counter":
                        return 0
                    raise self.exc("KeyError", i)
                return v
            if o.cls.name == "AttrImpl":
                v = self.dict_get(o.fields["d"], i)
                if v is MISSING:
                    raise self.exc("KeyError", i)
                return v
            if o.cls.name == "Element":
                return self.getitem(o.fields["children"], i)
            if o.cls.name == "range":
                return o.payload[self.index(o, i)]
            raise self.exc("TypeError", "%s object is not subscriptable" % o.cls.name)
        if isinstance(o, Cls):
            if o.members is not None:
                for n, m in o.members:
                    if n == i:
                        return m
                raise self.exc("KeyError", i)
            m = self.user(o, "__getitem__")
            if m is not None:
                return self.call(m, [i])
            return o
        if is_str(o):
            from . import libs
            if isinstance(i, Obj) and i.cls.name == "slice":
                return libs.str_slice(self, o, i)
            if isinstance(i, Obj):
                raise self.exc("TypeError", "string indices must be integers")
            return libs.str_index(self, o, i)
        if o is None or is_num(o) or isinstance(o, (Func, Bound, Builtin)):
            raise self.exc("TypeError", "object is not subscriptable")
        if isinstance(o, Val) and kind(o) == "uri":
            from . import libs
            parts = [libs.METHODS["ParseResult"][n](self, o, [], {}) for n in ("scheme", "netloc", "path", "params", "query", "fragment")]
            return self.getitem(self.mktuple(parts), i)
        return app("item", (o, i), "any", taint=True)

    def slice_bounds(self, sl, n):
        def cv(x):
            if x is None or isinstance(x, int):
                return x
            raise self.undecided("slice bound %s" % show(x))
        return slice(cv(sl.fields["lower"]), cv(sl.fields["upper"]), cv(sl.fields["step"])).indices(n)

    def list_slice(self, o, sl):
        if o.open is not None and not (sl.fields["lower"] is None and sl.fields["upper"] is None):
            raise self.undecided("slice of a sequence of open length")
        a, b, s = self.slice_bounds(sl, len(o.payload))
        r = self.new("tuple" if self.base_of(o) == "tuple" else "list", [o.payload[i] for i in range(a, b, s)])
        r.open = o.open
        return r

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            m = self.user(o, "__setitem__")
            if m is not None:
                self.call(m, [i, v])
                return
            b = self.base_of(o)
            if b == "dict":
                return self.dict_set(o, i, v)
            if b == "list":
                self.touch(o, ("setitem", i))
                if isinstance(i, Obj) and i.cls.name == "slice":
                    a, e, s = self.slice_bounds(i, len(o.payload))
                    if s != 1:
                        raise self.undecided("assignment to a slice with a step")
                    o.payload[a:e] = self.iterate(v)
                    return
                p = self.index(o, i)
                if p is None:
                    raise self.exc("IndexError", "list assignment index out of range")
                o.payload[p] = v
                return
        raise self.exc("TypeError", "%s does not support item assignment" % show(o))

    def delitem(self, o, i):
        if isinstance(o, Obj):
            m = self.user(o, "__delitem__")
            if m is not None:
                self.call(m, [i])
                return
            b = self.base_of(o)
            if b == "dict":
                self.dict_del(o, i)
                return
            if b == "list":
                self.touch(o, ("delitem", i))
                if isinstance(i, Obj) and i.cls.name == "slice":
                    a, e, s = self.slice_bounds(i, len(o.payload))
                    del o.payload[a:e:s]
                    return
                p = self.index(o, i)
                if p is None:
                    raise self.exc("IndexError", "list assignment index out of range")
                del o.payload[p]
                return
        raise self.exc("TypeError", "object does not support item deletion")

    # ---------------------------------------------------------------- text of a value
    def to_str(self, v):
        if isinstance(v, Obj):
            m = self.user(v, "__str__")
            if m is not None:
                r = self.call(m, [])
                if not is_str(r):
                    if isinstance(r, Val) and kind(r) == "any":
                        return r
                    raise self.exc("TypeError", "__str__ returned non-string")
                return r
            if v.cls.issub(self.cls["BaseException"]):
                a = v.fields["args"].payload
                return self.to_str(a[0]) if len(a) == 1 else app("str", (v,), "str", taint=True)
            m = self.user(v, "__repr__")
            if m is not None:
                return self.call(m, [])
            if v.cls.members is not None:
                return v.cls.name + "." + v.fields["name"]
            return app("strobj", (v,), "str", taint=True)
        v = self.norm(v)
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if is_str(v):
            return v
        if kind(v) == "dt":
            from . import libs
            return libs.dt_str(self, v)
        if isinstance(v, App) and v.op == "uuid" and isinstance(v.args[0], str):
            return v.args[0]    # a UUID known in full
        if kind(v) == "any" or not isinstance(v, Val):
            return app("strobj", (v if isinstance(v, (Val,)) or is_const(v) else show(v),), "str", taint=True)
        return app("str", (v,), "str")

    # --------------------------------------------------------------- module system
    def find_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.package or name.startswith(self.package + "."):
            base = os.path.join(self.root, *name.split("."))
            p = base + ".py"
            if not os.path.isfile(p):
                p = os.path.join(base, "__init__.py")
                if not os.path.isfile(p):
                    if os.path.isdir(base):
                        m = Mod(name, None)
                        m.env = Env(None, m)
                        self.modules[name] = m
                        return m
                    return None
            for i in range(1, len(name.split("."))):
                self.find_module(".".join(name.split(".")[:i]))
            if name in self.modules:
                return self.modules[name]
            m = Mod(name, p)
            self.modules[name] = m
            if p not in self.trees:
                with open(p, encoding="utf-8-sig") as fh:
                    self.trees[p] = ast.parse(fh.read(), p)
            m.tree = self.trees[p]
            self.consulted.add(p)
            m.env = Env(None, m)
            m.env.vars["__name__"] = name
            m.env.vars["__file__"] = p
            fr = Frame()
            fr.func, fr.env, fr.line, fr.path, fr.clsname, fr.owner, fr.name, fr.firstarg = (
                None, m.env, 1, p, None, None, "<module>", None)
            self.frames.append(fr)
            try:
                self.exec_block(m.tree.body, m.env)
            except PyRaise as e:
                self.modules.pop(name, None)
                if self.import_raises:
                    raise
                raise Undecided("module %s raises %s at import" % (name, e.value.cls.name), e.loc)
            finally:
                self.frames.pop()
            return m
        if name in self.ext:
            return self.ext[name]
        if not known_module(name, self.root):
            return None
        r = ExtMod(name, {})
        self.ext[name] = r
        return r

    PARSED = {}

    def client(self, text, name="client", path="client.py"):
        """A module of client code (analysed like the repository's), not kept."""
        m = Mod(name, path)
        m.tree = self.PARSED.get((path, text)) if path != "client.py" else None
        if m.tree is None:
            m.tree = ast.parse(text, path)
            if path != "client.py":
                self.PARSED[path, text] = m.tree
        m.env = Env(None, m)
        m.env.vars["__name__"] = name
        fr = Frame()
        fr.func, fr.env, fr.line, fr.path, fr.clsname, fr.owner, fr.name, fr.firstarg = (
            None, m.env, 1, path, None, None, "<module>", None)
        self.frames.append(fr)
        try:
            self.exec_block(m.tree.body, m.env)
        finally:
            self.frames.pop()
        return m.env.vars

    def mod_attr(self, m, name):
        if name in m.env.vars:
            return m.env.vars[name]
        sub = self.find_module(m.name + "." + name)
        return MISSING if sub is None else sub

    def get_class(self, modname, clsname):
        m = self.find_module(modname)
        if m is None:
            raise AnchorMissing("module %s" % modname)
        c = m.env.vars.get(clsname)
        if c is None:
            raise AnchorMissing("%s.%s" % (modname, clsname))
        return c

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise self.undecided("step budget")
        self.frames[-1].line = s.lineno
        getattr(self, "x_" + type(s).__name__, self.x_unsupported)(s, env)

    def x_unsupported(self, s, env):
        raise self.undecided("statement %s" % type(s).__name__)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise ReturnSig(None if s.value is None else self.eval(s.value, env))

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def x_Assert(self, s, env):
        if not self.truthy(self.eval(s.test, env)):
            raise self.exc("AssertionError")

    def x_If(self, s, env):
        r = self.truthy(self.eval(s.test, env))
        self.branches_seen.add((self.frames[-1].path, s.lineno, s.col_offset, r))
        self.exec_block(s.body if r else s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while self.truthy(self.eval(s.test, env)):
            n += 1
            if n == 100:
                before, pos, eff = dict(env.vars), self.pos, len(self.effects)
            if n > 200:
                if self.pos == pos and before.keys() == env.vars.keys() and all(
                        before[v] is env.vars[v] or is_const(before[v]) and is_const(env.vars[v]) and before[v] == env.vars[v] for v in before
                ) and all(isinstance(o, Obj) and o.cls.name == "File" for o, _, _ in self.effects[eff:]):
                    raise Endless("the loop never ends: nothing it tests changes any more", self.loc())
                if n > 1200 or self.pos != pos:     # otherwise nothing was decided since: known values are looped over
                    raise self.undecided("loop without a bound in the abstract state")
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
        self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        for v in self.steps_of(it):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                self.drop(s.iter, it)
                return
            except ContinueSig:
                pass
            except (ReturnSig, PyRaise):
                self.drop(s.iter, it)
                raise
        self.exec_block(s.orelse, env)

    def drop(self, e, it):
        """Close a generator that only the loop just left refers to."""
        if isinstance(e, ast.Call) and isinstance(it, Obj) and it.lazy is not None:
            self.call(self.getattr(it, "close"), [])

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if env.is_class and isinstance(s.target, ast.Name):
            if "__annotations__" not in env.vars:
                env.vars["__annotations__"] = self.mkdict([])
            self.dict_set(env.vars["__annotations__"], s.target.id, ast.unparse(s.annotation))
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(mangle(t.id, self.frames[-1].clsname), env)
            self.assign(t, self.inplace(s.op, cur, self.eval(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            n = mangle(t.attr, self.frames[-1].clsname)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.inplace(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(s.op, cur, self.eval(s.value, env)))
        else:
            raise self.undecided("augmented assignment")

    INPLACE = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.BitOr: "ior", ast.BitAnd: "iand", ast.BitXor: "ixor",
               ast.Div: "itruediv", ast.FloorDiv: "ifloordiv", ast.Mod: "imod"}

    def inplace(self, op, a, b):
        if isinstance(a, Obj):
            m = self.user(a, "__%s__" % self.INPLACE.get(type(op), "?"))
            if m is not None:
                r = self.call(m, [b])
                if r is not self.notimpl:
                    return r
            base = self.base_of(a)
            if isinstance(op, ast.Add) and base == "list":
                items = self.iterate(b)
                self.touch(a, ("extend", None))
                a.payload.extend(items)
                return a
            if isinstance(op, ast.BitOr) and base == "set":
                for x in self.iterate(b):
                    self.set_add(a, x)
                return a
            if isinstance(op, ast.BitOr) and base == "dict":
                for k, v in b.payload:
                    self.dict_set(a, k, v)
                return a
            if isinstance(op, ast.Sub) and base == "set":
                self.touch(a, ("remove", None))
                a.payload = [x for x in a.payload if not self.contains(b, x)]
                return a
            if isinstance(op, (ast.BitAnd, ast.BitXor)) and base == "set" or isinstance(op, ast.Mult) and base == "list":
                r = self.binop(op, a, b)
                self.touch(a, ("update", None))
                a.payload = list(r.payload)
                return a
        return self.binop(op, a, b)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    raise self.exc("NameError", t.id)
                self.touch(env)
                del env.vars[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), mangle(t.attr, self.frames[-1].clsname))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            else:
                raise self.undecided("del")

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = self.frames[-1].env
            e = self.cur_exc[-1] if self.cur_exc else None
            if e is None:
                raise self.exc("RuntimeError", "no active exception")
            raise PyRaise(e, self.loc())
        v = self.eval(s.exc, env)
        if isinstance(v, Cls):
            v = self.call(v, [])
        if not isinstance(v, Obj):
            raise self.exc("TypeError", "exceptions must derive from BaseException")
        if s.cause is not None:
            cause = self.eval(s.cause, env)
            self.touch(v)
            v.fields["__cause__"] = self.call(cause, []) if isinstance(cause, Cls) else cause
        if self.cur_exc and "__context__" not in v.fields and v is not self.cur_exc[-1]:
            self.touch(v)
            v.fields["__context__"] = self.cur_exc[-1]
        raise PyRaise(v, self.loc())

    def x_Try(self, s, env):
        done = False
        try:
            try:
                try:
                    self.exec_block(s.body, env)
                except PyRaise as e:
                    depth = len(self.frames)
                    for h in s.handlers:
                        if self.handles(h, e.value, env):
                            if h.name:
                                self.store_name(h.name, e.value, env)
                            self.cur_exc.append(e.value)
                            try:
                                self.exec_block(h.body, env)
                            finally:
                                self.cur_exc.pop()
                            break
                    else:
                        raise
                else:
                    self.exec_block(s.orelse, env)
            except (Undecided, Infeasible, AnchorMissing):
                done = True
                raise
        finally:
            if not done:
                self.exec_block(s.finalbody, env)

    def handles(self, h, value, env):
        if h.type is None:
            return True
        t = self.eval(h.type, env)
        ts = t.payload if isinstance(t, Obj) and t.cls.name == "tuple" else [t]
        for c in ts:
            if isinstance(c, Cls) and value.cls.issub(c):
                return True
            if not isinstance(c, Cls):
                raise self.undecided("unknown exception class %s" % show(c))
        return False

    def x_With(self, s, env):
        self.with_items(s.items, 0, s, env)

    def with_items(self, items, i, s, env):
        if i == len(items):
            self.exec_block(s.body, env)
            return
        cm, v = self.enter(items[i], env)
        try:
            self.with_items(items, i + 1, s, env)
        except PyRaise as e:
            if cm is not None and self.truthy(self.call(self.getattr(cm, "__exit__"), [e.value.cls, e.value, None])):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            if cm is not None:
                self.call(self.getattr(cm, "__exit__"), [None, None, None])
            raise
        if cm is not None:
            self.call(self.getattr(cm, "__exit__"), [None, None, None])

    def enter(self, it, env):
        cm = self.eval(it.context_expr, env)
        if isinstance(cm, Obj) and (self.user(cm, "__enter__") or self.builtin_method(cm, "__enter__")):
            v = self.call(self.getattr(cm, "__enter__"), [])
        elif isinstance(cm, Val) and not isinstance(cm, Obj) and kind(cm) == "any":
            v = app("enter", (cm,), "any", taint=True)
            cm = None
        else:
            raise self.exc("TypeError", "object does not support the context manager protocol")
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        return cm, v

    def x_Import(self, s, env):
        for a in s.names:
            m = self.find_module(a.name)
            if m is None:
                raise self.exc("ModuleNotFoundError", a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                self.store_name(a.name.split(".")[0], self.find_module(a.name.split(".")[0]), env)

    def x_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            base = env.module.name.split(".")
            if not (env.module.path or "").endswith("__init__.py"):
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return
        m = self.find_module(name)
        if m is None:
            raise self.exc("ModuleNotFoundError", name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.env.vars.items():
                        if not k.startswith("_"):
                            self.store_name(k, v, env)
                    continue
                raise self.undecided("import *")
            v = self.getattr(m, a.name, None) if isinstance(m, ExtMod) else self.mod_attr(m, a.name)
            if v is MISSING:
                raise self.exc("ImportError", "cannot import name %s from %s" % (a.name, name))
            self.store_name(a.asname or a.name, v, env)

    def make_func(self, node, env, name):
        clsname = self.frames[-1].clsname
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = [MISSING if d is None else self.eval(d, env) for d in node.args.kw_defaults]
        return Func(name, node, env, env.module, clsname, defaults, kwd, owner=None)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        self.store_name(mangle(s.name, self.frames[-1].clsname), v, env)

    def decorate(self, d, v, env):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") and isinstance(d.value, ast.Name):
            p = self.load_name(mangle(d.value.id, self.frames[-1].clsname), env)
            if isinstance(p, Prop):
                if d.attr == "setter":
                    return Prop(p.fget, v, p.fdel)
                if d.attr == "deleter":
                    return Prop(p.fget, p.fset, v)
                return Prop(v, p.fset, p.fdel)
        dec = self.eval(d, env)
        if isinstance(dec, Cls) and dec.builtin and dec.name in ("staticmethod", "classmethod", "property"):
            return {"staticmethod": StaticM, "classmethod": ClassM, "property": Prop}[dec.name](v)
        r = self.call(dec, [v])
        return r

    def x_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.eval(b, env)
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, Builtin) or isinstance(v, Val):
                raise self.undecided("base class %s" % show(v))
            else:
                raise self.exc("TypeError", "bad base class")
        meta = None
        for k in s.keywords:
            if k.arg == "metaclass":
                meta = self.eval(k.value, env)
        if meta is None or not isinstance(meta, Cls):
            if meta is not None:
                raise self.undecided("metaclass %s" % show(meta))
            for b in bases:
                if b.meta is not None:
                    meta = b.meta
                    break
        if not bases:
            bases = [self.cls["object"]]
        cenv = Env(env, env.module, is_class=True, gen=self.gen)
        fr = self.frames[-1]
        old = fr.clsname
        oldq = getattr(env, "vars", {}).get("__qualname__")
        fr.clsname = s.name
        try:
            self.exec_block(s.body, cenv)
        finally:
            fr.clsname = old
        kw = {k.arg: self.eval(k.value, env) for k in s.keywords if k.arg not in (None, "metaclass")}
        n = self.find_cls_attr(meta, "__new__")[0] if meta is not None else MISSING
        if n is not MISSING:
            ns = self.mkdict([(k, x) for k, x in cenv.vars.items()])
            self.making = (env.module, s)
            c = self.call(n.f if isinstance(n, StaticM) else n, [meta, s.name, self.mktuple(bases), ns], kw)
            self.making = None
        else:
            c = self.build_class(s.name, bases, cenv.vars, meta, env.module, s, kw)
        if meta is not None and isinstance(c, Cls):
            i, k = self.find_cls_attr(meta, "__init__")
            if i is not MISSING:
                self.call(Bound(i, c), [s.name, self.mktuple(bases), self.mkdict(list(cenv.vars.items()))], kw)
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        self.store_name(s.name, v, env)

    def build_class(self, name, bases, attrs, meta=None, module=None, node=None, kw=None):
        kw = kw or {}
        c = Cls(name, bases, attrs, meta, module=module, node=node)
        c.gen = self.gen
        self.classes_built.append(c)
        for k, v in list(attrs.items()):
            f = v.f if isinstance(v, (StaticM, ClassM)) else v
            fs = [v.fget, v.fset, v.fdel] if isinstance(v, Prop) else [f]
            for g in fs:
                if isinstance(g, Func) and g.owner is None:
                    g.owner = c
        if "__eq__" in attrs and "__hash__" not in attrs:
            attrs["__hash__"] = None
        for k, v in list(attrs.items()):
            if isinstance(v, Obj) and self.user(v, "__set_name__") is not None:
                self.call(self.user(v, "__set_name__"), [c, k])
        if any(b.name == "Enum" or b.members is not None for b in bases if b.builtin or b.members is not None):
            c.members = []
            auto = 0
            for k, v in list(attrs.items()):
                if k.startswith("_") or isinstance(v, (Func, StaticM, ClassM, Prop)):
                    continue
                if isinstance(v, Obj) and v.cls.name == "enum.auto":
                    v = auto + 1
                auto = v if isinstance(v, int) else auto
                m = self.new(c)
                m.fields["name"], m.fields["value"] = k, v
                attrs[k] = m
                c.members.append((k, m))
        isub, k = MISSING, None
        for b in c.mro[1:]:
            if "__init_subclass__" in b.attrs:
                isub = b.attrs["__init_subclass__"]
                break
        if isub is not MISSING:
            f = isub.f if isinstance(isub, (ClassM, StaticM)) else isub
            self.call(Bound(f, c), [], kw)
        return c

    def x_Match(self, s, env):
        subj = self.eval(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, subj, env) and (c.guard is None or self.truthy(self.eval(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.same_object(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, Obj) or self.base_of(v) not in ("list", "tuple"):
                if isinstance(v, Val) and kind(v) == "any":
                    raise self.undecided("match on an unknown value")
                return False
            if v.open is not None:
                raise self.undecided("match on a sequence of open length")
            items, stars = list(v.payload), [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if len(items) < len(p.patterns) - len(stars) or (not stars and len(items) != len(p.patterns)):
                return False
            if stars:
                n, tail = stars[0], len(p.patterns) - stars[0] - 1
                mid = items[n:len(items) - tail]
                rest = items[len(items) - tail:] if tail else []
                if not all(self.match(q, x, env) for q, x in zip(p.patterns[:n], items[:n])):
                    return False
                if p.patterns[n].name:
                    self.store_name(p.patterns[n].name, self.mklist(mid), env)
                return all(self.match(q, x, env) for q, x in zip(p.patterns[n + 1:], rest))
            return all(self.match(q, x, env) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, Obj) or self.base_of(v) != "dict":
                if isinstance(v, Val) and kind(v) == "any":
                    raise self.undecided("match on an unknown value")
                return False
            keys = [self.eval(k, env) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                x = self.dict_get(v, k)
                if x is MISSING or not self.match(q, x, env):
                    return False
            if p.rest:
                left = [(k, x) for k, x in v.payload if not any(self.key_eq(k, y) for y in keys)]
                self.store_name(p.rest, self.mkdict(left), env)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if c.builtin:
                    if len(p.patterns) != 1 or p.kwd_patterns:
                        raise self.undecided("match pattern")
                    return self.match(p.patterns[0], v, env)
                names = self.iterate(self.getattr(c, "__match_args__"))
                if len(names) < len(p.patterns):
                    raise self.exc("TypeError", "too many positional patterns")
                if not all(self.match_attr(n, q, v, env) for n, q in zip(names, p.patterns)):
                    return False
            return all(self.match_attr(n, q, v, env) for n, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise self.undecided("match pattern")

    def match_attr(self, name, q, v, env):
        try:
            x = self.getattr(v, name)
        except PyRaise as e:
            if e.value.cls.name == "AttributeError":
                return False
            raise
        return self.match(q, x, env)

    # -------------------------------------------------------------------- binding
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(mangle(t.id, self.frames[-1].clsname), v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), mangle(t.attr, self.frames[-1].clsname), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.mklist(vals[i:len(vals) - after]), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise self.exc("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise self.undecided("assignment target")

    def store_name(self, n, v, env):
        if n in env.globals_:
            self.touch(env.module.env, ("global", n))
            env.module.env.vars[n] = v
            return
        if n in env.nonlocals:
            e = env.parent
            while e is not None:
                if n in e.vars and not e.is_class:
                    self.touch(e)
                    e.vars[n] = v
                    return
                e = e.parent
        if env.gen != self.gen:
            self.touch(env)
        env.vars[n] = v

    def load_name(self, n, env):
        e = env
        if n in env.globals_:
            e = env.module.env
        first = True
        while e is not None:
            if n in e.vars and (first or not e.is_class):
                return e.vars[n]
            first = False
            e = e.parent
        if n in self.builtin:
            return self.builtin[n]
        m = env.module.env
        if n in m.vars:
            return m.vars[n]
        if hasattr(_pyb, n):
            raise self.undecided("builtin %s is not modelled" % n)
        f = self.frames[-1].func
        if f is not None and isinstance(f.node, ast.FunctionDef) and n in local_names(f.node):
            raise self.exc("UnboundLocalError", n)
        raise self.exc("NameError", "name %r is not defined" % n)

    # ----------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise self.undecided("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load_name(mangle(e.id, self.frames[-1].clsname), env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        self.store_name(e.target.id, v, t)
        return v

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.frames[-1].line = e.lineno
        return self.getattr(o, mangle(e.attr, self.frames[-1].clsname))

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        o = self.new("slice")
        for n in ("lower", "upper", "step"):
            x = getattr(e, n)
            o.fields[n] = None if x is None else self.eval(x, env)
        return o

    def e_Tuple(self, e, env):
        return self.mktuple(self.eval_star(e.elts, env))

    def e_List(self, e, env):
        return self.mklist(self.eval_star(e.elts, env))

    def e_Set(self, e, env):
        return self.mkset(self.eval_star(e.elts, env))

    def eval_star(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                for a, b in src.payload:
                    self.dict_set(d, a, b)
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_IfExp(self, e, env):
        r = self.truthy(self.eval(e.test, env))
        self.branches_seen.add((self.frames[-1].path, e.lineno, e.col_offset, r))
        return self.eval(e.body if r else e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, env)
            if self.truthy(v) != is_and:
                return v
        return self.eval(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truthy(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_num(v):
                return lin_scale(v, -1)
            if kind(v) == "td":
                return app("td", (lin_scale(v.args[0], -1),), "td")
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise self.undecided("unary operator on %s" % show(v))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            self.frames[-1].line = e.lineno
            if not self.compare(op, left, right):
                return False
            left = right
        return True

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.frames[-1].line = e.lineno
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        from . import libs
        return libs.binop(self, op, a, b)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            out.extend(pieces(self.eval(v, env)))
        return mk_str(out)

    def e_FormattedValue(self, e, env):
        from . import libs
        v = self.eval(e.value, env)
        spec = "" if e.format_spec is None else self.eval(e.format_spec, env)
        if e.conversion in (114, 97):
            v = libs.repr_(self, v)
        elif e.conversion == 115:
            v = self.to_str(v)
        return libs.format_(self, v, spec)

    def e_Starred(self, e, env):
        raise self.undecided("starred expression")

    def e_Yield(self, e, env):
        raise self.undecided("yield inside an expression")

    e_YieldFrom = e_Yield

    def comp(self, gens, i, env, emit):
        for _ in self.g_comp(gens, i, env):
            emit(env)

    def g_comp(self, gens, i, env, first=None):
        if i == len(gens):
            yield
            return
        g = gens[i]
        for v in first or self.steps_of(self.eval(g.iter, env)):
            self.assign(g.target, v, env)
            if all(self.truthy(self.eval(c, env)) for c in g.ifs):
                yield from self.g_comp(gens, i + 1, env)

    def comp_env(self, env):
        return Env(env, env.module, gen=self.gen) if not env.is_class else Env(env, env.module, gen=self.gen)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, 0, self.comp_env(env), lambda en: out.append(self.eval(e.elt, en)))
        return self.mklist(out)

    def e_GeneratorExp(self, e, env):
        en = self.comp_env(env)
        source = self.eval(e.generators[0].iter, env)
        source = self.iterable(source)      # raises here when it is not

        def items():
            for _ in self.g_comp(e.generators, 0, en, source):
                yield self.eval(e.elt, en)
        return self.lazy(self.resumable(self.frame_copy(), items()))

    def e_SetComp(self, e, env):
        s = self.mkset()
        self.comp(e.generators, 0, self.comp_env(env), lambda en: self.set_add(s, self.eval(e.elt, en)))
        return s

    def e_DictComp(self, e, env):
        d = self.mkdict()

        def emit(en):
            k = self.eval(e.key, en)
            self.dict_set(d, k, self.eval(e.value, en))
        self.comp(e.generators, 0, self.comp_env(env), emit)
        return d

    def e_Call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and fn.id not in env.vars:
            return self.make_super(e, env)
        f = self.eval(fn, env)
        args = self.eval_star(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                for a, b in d.payload:
                    kw[a] = b
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.frames[-1].line = e.lineno
        return self.call(f, args, kw)

    def make_super(self, e, env):
        if e.args:
            c = self.eval(e.args[0], env)
            o = self.eval(e.args[1], env)
            return Super(c, o)
        fr = self.frames[-1]
        i = len(self.frames) - 1
        while fr.owner is None and i > 0:
            i -= 1
            fr = self.frames[i]
        if fr.owner is None:
            raise self.exc("RuntimeError", "super(): no class")
        # the first parameter, as currently bound
        node = fr.func.node
        names = [p.arg for p in node.args.posonlyargs + node.args.args]
        o = fr.env.vars.get(names[0]) if names else fr.firstarg
        return Super(fr.owner, o)


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def yields(s):
    """Does this statement of a generator function yield?"""
    y = getattr(s, "_yields", None)
    if y is None:
        todo, y = [s], False
        while todo and not y:
            n = todo.pop()
            y = isinstance(n, (ast.Yield, ast.YieldFrom))
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
        s._yields = y
    return y


def local_names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def mentions(t, s):
    if t is s:
        return True
    if isinstance(t, App):
        return any(mentions(a, s) for a in t.args)
    if isinstance(t, AStr):
        return any(mentions(p, s) for p in t.pieces)
    if isinstance(t, Run):
        return mentions(t.term, s)
    if isinstance(t, Lin):
        return any(mentions(x, s) for x, _ in t.terms)
    if isinstance(t, tuple):
        return any(mentions(x, s) for x in t)
    return False
