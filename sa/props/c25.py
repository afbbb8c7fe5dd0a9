"""Release of streams: typestate of every stream the library opens, over normal and exceptional paths."""
import ast
import os

from . import c03
from .c11 import doc as definition
METHOD = ("Typestate (open -> closed) of every stream opened inside the package, by abstract interpretation of all operations that "
          "open one: parsing (four parsers, universal parser), serialising (four serializers), extension definitions (file, URL), "
          "the extension cache. Every library call that can fail on these paths (open, read, write, XML parser, XML writer) is made "
          "to fail in turn, and documents, factories and logs of the client fail in the middle. A syntactic rule accounts for "
          "every other call in the source that opens a stream.")
RULE = ("at every exit, normal or exceptional, of an operation each stream it opened has been closed; every call that opens a stream "
        "is covered by the interpretation, stands in a with statement, or its result is closed or handed on")
ASSUMES = ["close itself does not fail", "the XML parser closes the stream it is given (as expat's reader does)"]
OPENERS = {"open", "urlopen", "GzipFile", "fdopen", "TemporaryFile", "NamedTemporaryFile", "ZipFile", "BZ2File", "LZMAFile", "socket"}
FAULTS = ("OSError", "ValueError")


def run(k):
    sites = set()

    def left_open(k, mine=()):
        out = []
        for o in k.I.opened:
            if any(o is m for m in mine):
                continue
            sites.add(o.fields["site"])
            if not o.fields["closed"]:
                out.append(o.fields["site"])
        return out

    def guarded(k, op, mine=(), fault=None, then=None):
        """op() with the fault injected, then every stream it opened must be closed"""
        I = k.I
        before = list(I.opened)
        I.effects_seen = []
        I.inject = fault
        raised, r = k.raises(op)
        I.inject = None
        at = k.last
        left = left_open(k, before + list(mine))
        k.ok(not left, "a stream opened at %s is still open when %s %s" % (
            ", ".join(left), at, "raises" if raised else "returns"), left[0] if left else at)
        if then and not raised:
            then(k)
        return len(I.effects_seen)

    def sweep(label, make, faults=True):
        """make(k) -> (operation, streams of the client, check after success)"""
        seen = {"n": 0}

        def base(k):
            op, mine, then = make(k)
            seen["n"] = max(seen["n"], guarded(k, op, mine, None, then))
        k.scenario(label, base)
        if not faults:
            return
        for n in range(seen["n"]):
            for x in FAULTS:
                k.scenario("%s/fault-%d-%s" % (label, n, x),
                           lambda k, n=n, x=x: guarded(k, *make(k)[:2], fault=(n, x)))

    # ---- parsers
    def xes(k):
        lit = lambda key, v: k.elem("string", {"key": key, "value": v})
        return k.elem("log", {"xes.version": "1.0"},
                      k.elem("extension", {"name": k.phrase("n"), "prefix": k.word("p"), "uri": "http://x.org/unknown.xesext"}),
                      k.elem("global", {"scope": "event"}, lit(k.key("g"), k.text("gv"))),
                      k.elem("classifier", {"name": "c", "keys": "a b"}), lit(k.key("l"), k.text("lv")),
                      k.elem("trace", {}, k.elem("event", {}, lit(k.key("e"), k.text("ev")),
                                                 k.elem("id", {"key": k.key("i"), "value": k.text("bad")}))))

    def mxml(k):
        return k.elem("WorkflowLog", {}, k.elem("Process", {"id": k.word("p")}, k.elem("ProcessInstance", {"id": k.word("i")},
                      k.elem("AuditTrailEntry", {}, k.elem("WorkflowModelElement", {}, text=k.word("w")),
                             k.elem("EventType", {}, text="complete")))))
    BAD = {"empty": lambda k: b"", "junk": lambda k: b"no document", "no-key": lambda k: k.elem(
        "log", {}, k.elem("int", {"key": k.key("k"), "value": "x"}), k.elem("global", {}), k.elem("classifier", {})),
        "other-root": lambda k: k.elem("root", {}, k.elem("trace", {})), "event-outside": lambda k: k.elem("event", {}),
        "attribute-outside": lambda k: k.elem("string", {"key": "a", "value": "b"})}

    def parsing(k, pn, doc, name, gz, warm_client=None):
        path = k.place("/tmp/" + name, doc(k), gz=gz)
        p = k.new(pn) if warm_client is None else k.new(pn, warm_client)
        f = k.openfile(path)
        return lambda: k.m(p, "parse", f), (f,), None
    PARSERS = (("XesXmlParser", xes, "a.xes", False), ("XesXmlGZIPParser", xes, "a.xes.gz", True),
               ("XMxmlParser", mxml, "a.mxml", False), ("XMxmlGZIPParser", mxml, "a.mxml.gz", True))
    for pn, doc, name, gz in PARSERS:
        sweep("parse/%s" % pn, lambda k, a=(pn, doc, name, gz): parsing(k, *a))
        sweep("parse/universal/%s" % pn, lambda k, a=("XUniversalParser", doc, name, gz): parsing(k, *a))
        for b, mk in BAD.items():
            sweep("parse/%s/%s" % (pn, b), lambda k, a=(pn, mk, name, gz): parsing(k, *a), faults=k.thorough)
            sweep("parse/universal/%s/%s" % (pn, b), lambda k, a=("XUniversalParser", mk, name, gz): parsing(k, *a), faults=False)

        def short(k, a=(pn, doc, name, gz)):
            r = parsing(k, *a)
            f = k.I.fs["/tmp/" + a[2]]
            from ..terms import app
            f.fields["content"] = (app("part", (f.fields["content"][0], 0, 2), "bytes"),)
            return r
        sweep("parse/%s/cut-short" % pn, short, faults=False)

    # a client's factory that fails at its nth call
    def failing(k, a, n):
        ns = k.client("""
            from opyenxes.factory.XFactory import XFactory
            class F(XFactory):
                left = [%d]
                @staticmethod
                def tick():
                    F.left[0] -= 1
                    if F.left[0] < 0:
                        raise RuntimeError("client")
            %s
            """ % (n, "\n            ".join("def _%s(*a, **k):\n                F.tick()\n                return XFactory.%s(*a, **k)\n"
                                            "            F.%s = staticmethod(_%s)" % (m, m, m, m)
                                            for m in ("create_log", "create_trace", "create_event", "create_attribute_literal",
                                                      "create_attribute_id"))))
        return parsing(k, *a, warm_client=k.call(ns["F"]))
    for a in PARSERS:
        if a[3]:
            for n in range(8):
                sweep("parse/%s/client-fails-%d" % (a[0], n), lambda k, a=a, n=n: failing(k, a, n), faults=False)

    # ---- serializers
    def log(k):
        return c03.log(k, [([], [{}, {"trans": "resume"}]), ([], [{}])])[0]

    def broken(k, n):
        ns = k.client("""
            from opyenxes.model.XLog import XLog
            class L(XLog):
                def __iter__(self):
                    for i in range(len(self)):
                        if i == %d:
                            raise RuntimeError("client")
                        yield self[i]
            """ % n)
        g = k.call(ns["L"], k.amap())
        for i in range(2):
            k.append(g, k.trace([k.event(k.attr("literal", "concept:name", k.word("w")))]))
        return g

    def saving(k, sn, make):
        g = make(k)
        s = k.new(sn)
        out = k.openfile("/tmp/out.x", "w")

        def then(k):
            if "GZIP" not in sn:
                k.ok(not out.fields["closed"], "%s closes the stream of its caller" % sn, k.last)
        return lambda: k.m(s, "serialize", g, out), (out,), then
    for sn in ("XesXmlSerializer", "XesXmlGZIPSerializer", "XMxmlSerializer", "XMxmlGZIPSerializer"):
        sweep("serialize/%s" % sn, lambda k, sn=sn: saving(k, sn, log))
        sweep("serialize/%s/empty" % sn, lambda k, sn=sn: saving(k, sn, lambda k: k.log()))
        for n in (0, 1):
            sweep("serialize/%s/client-fails-%d" % (sn, n), lambda k, sn=sn, n=n: saving(k, sn, lambda k: broken(k, n)), faults=False)

    # ---- extension definitions
    SHAPE = [("log", [("string", ["EN"])]), ("event", [("int", [])])]

    def ext(k, doc, web):
        if web:
            u = k.place("http://x.org/e.xesext", doc(k), web=True)
            k.I.faults["isfile"] = k.I.faults["isdir"] = False
        else:
            u = k.place("/tmp/e.xesext", doc(k))
        return lambda: k.static("XExtensionParser", "parse", u), (), None
    DEFS = {"good": lambda k: definition(k, "x", SHAPE)["doc"], "junk": lambda k: b"no document", "empty": lambda k: b"",
            "no-name": lambda k: k.elem("xesextension", {}), "no-extension": lambda k: k.elem("log", {}, k.elem("string", {"key": "a"})),
            "no-key": lambda k: k.elem("xesextension", {"name": "n", "prefix": "p", "uri": "u"}, k.elem("log", {}, k.elem("int", {})))}
    for b, mk in DEFS.items():
        for web in (False, True):
            sweep("definition/%s/%s" % ("url" if web else "file", b), lambda k, mk=mk, w=web: ext(k, mk, w))

    def gone(k, kind):
        k.I.faults["isfile"], k.I.faults["isdir"] = False, kind == "folder"
        k.I.faults["urlopen"] = True
        return lambda: k.static("XExtensionParser", "parse", "http://x.org/e.xesext"), (), None
    for kind in ("folder", "unreachable"):
        sweep("definition/%s" % kind, lambda k, kind=kind: gone(k, kind))

    HOME = "/home/u"
    CACHE = HOME + "/.OpenXES/ExtensionCache"

    def disk(k):
        k.I.disk = {"dirs": {"/", "/home", HOME, HOME + "/.OpenXES", CACHE}, "home": HOME, "now": 1790000000.0}
        k.I.faults[("env", "HOME")] = HOME

    def caching(k, parts, u):
        disk(k)
        if u:
            k.place(u, definition(k, "x", SHAPE)["doc"], web=True, parts=parts)
        else:
            k.place("http://x.org/other", definition(k, "x", SHAPE)["doc"], web=True)
        m = k.new("XExtensionManager")
        uri = k.parsed(u or "http://x.org/e.xesext")
        return lambda: k.m(m, "cache_extension", uri), (), None
    for parts in (1, 2, 3):
        sweep("cache/%d-reads" % parts, lambda k, p=parts: caching(k, p, "http://x.org/e.xesext"))
    sweep("cache/unreachable", lambda k: caching(k, 1, None))

    def loading(k, names):
        disk(k)
        for i, b in enumerate(names):
            k.place(CACHE + "/e%d.xesext" % i, DEFS[b](k))
        m = k.new("XExtensionManager")
        return lambda: k.m(m, "load_extension_cache"), (), None
    for names in (("good", "good"), ("junk", "good"), ("no-name", "empty"), ("no-extension",), ("no-key", "good")):
        sweep("load-cache/%s" % "+".join(names), lambda k, n=names: loading(k, n))
    call_sites(k, sites)


# ---------------------------------------------------------------- every other call that opens a stream
def call_sites(k, covered):
    k.sites = []
    reached = {s.rsplit(" (", 1)[0] for s in covered}
    for d, ds, fs in os.walk(os.path.join(k.root, "opyenxes")):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            with open(p, encoding="utf-8-sig") as fh:
                tree = ast.parse(fh.read(), p)
            parent = {}
            for n in ast.walk(tree):
                for c in ast.iter_child_nodes(n):
                    parent[c] = n
            for n in ast.walk(tree):
                if isinstance(n, ast.Call) and opener(n.func, tree):
                    w = "%s:%d" % (os.path.relpath(p, k.root), n.lineno)
                    how = site(n, parent)
                    if how is None and any("%s:%d" % (os.path.relpath(p, k.root), l) in reached
                                           for l in range(n.lineno, (n.end_lineno or n.lineno) + 1)):
                        how = "covered by the interpretation"
                    k.sites.append({"at": w, "call": ast.unparse(n)[:80], "decided": how or "not released"})
                    k.rule("site/%s" % ast.unparse(n.func), how is not None,
                           "the stream opened by %s is neither closed nor handed on" % ast.unparse(n)[:80], w)


def opener(f, tree):
    if isinstance(f, ast.Name):
        if f.id not in OPENERS:
            return False
        # a function of the module itself is not a library's
        return not any(isinstance(n, ast.FunctionDef) and n.name == f.id for n in tree.body)
    if not isinstance(f, ast.Attribute) or f.attr not in OPENERS:
        return False
    if f.attr == "open" and isinstance(f.value, ast.Name) and f.value.id in ("webbrowser", "os", "self", "cls"):
        return False
    return True


def site(call, parent):
    """How a stream opened here is released, as far as the syntax alone shows it."""
    n = call
    while True:
        p = parent.get(n)
        if isinstance(p, ast.withitem):
            return "with statement"
        if isinstance(p, ast.Return):
            return "handed to the caller"
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if not all(isinstance(t, ast.Name) for t in ts):
                return "kept in an object"
            name = ts[0].id
            fn = p
            while fn in parent and not isinstance(fn, (ast.FunctionDef, ast.Module)):
                fn = parent[fn]
            return used(fn, name, parent)
        if isinstance(p, ast.Call) and n is not p.func:
            g = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
            if g in ("closing", "enter_context", "push", "callback"):
                return "handed to %s" % g
            if g in ("read", "load", "loads", "list", "sorted", "str", "len", "print"):
                return None
            return "handed to %s" % (g or "a call")
        if isinstance(p, (ast.IfExp, ast.Tuple, ast.List, ast.BoolOp)):
            n = p
            continue
        return None


def used(fn, name, parent):
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            p = parent.get(n)
            if isinstance(p, ast.withitem):
                return "with statement"
            if isinstance(p, ast.Attribute) and p.attr in ("close", "__exit__"):
                return "closed by name"
            if isinstance(p, (ast.Return, ast.Yield, ast.Tuple, ast.List, ast.Assign)):
                return "handed on"
            if isinstance(p, ast.Call) and n in p.args:
                return "handed on"
    return None


MIN_SCENARIOS = 100
