"""Readers and writers used again, by abstract interpretation of sequences and interleavings of operations."""
from ..terms import app
from . import xes, c35
from .c11 import doc as definition
METHOD = ("Abstract interpretation of sequences of read (or write) operations on one parser (serializer) and on several: a first "
          "document that is complete, that stops being well-formed at any element, that the file system or the client's factory "
          "fails in the middle of, then a second one; and of operations started in the middle of another. What the last operation "
          "yields is compared, term by term, with what a new parser (serializer) yields for it in an untouched process.")
RULE = ("read(p after any history, d) == read(new parser, d); write(s after any history, g) == write(new serializer, g); a log read "
        "earlier is not changed by reading on")
ASSUMES = ["operations of several threads interleave where one calls the client's code (factory, log), not inside the library"]


def run(k):
    def lit(k, key, n, *kids):
        return k.elem("string", {"key": key, "value": k.text(n)}, *kids)

    def rich(k, n):
        """An XES document that uses everything; n makes its texts its own.  Its elements by name."""
        e, P = k.elem, {}
        P["nested"] = lit(k, "n:" + n, n + ".nested", lit(k, "nn" + n, n + ".deep"))
        P["member"] = lit(k, "m" + n, n + ".member")
        P["list"] = e("list", {"key": "list" + n}, P["member"], e("int", {"key": "i", "value": "1"}))
        P["container"] = e("container", {"key": "box" + n}, e("boolean", {"key": "b", "value": "true"}))
        P["date"] = e("date", {"key": "time:timestamp", "value": "2020-01-01T10:00:00.000+01:00"})
        P["attribute"] = lit(k, "concept:name", n + ".event", P["nested"])
        P["event"] = e("event", {}, P["attribute"], P["list"], P["container"], P["date"])
        P["last-event"] = e("event", {}, lit(k, "z" + n, n + ".z"))
        P["trace"] = e("trace", {}, lit(k, "t" + n, n + ".trace"), P["event"], P["last-event"])
        P["extension"] = e("extension", {"name": "Concept", "prefix": "concept", "uri": "http://www.xes-standard.org/concept.xesext"})
        P["global"] = e("global", {"scope": "trace"}, lit(k, "gt" + n, n + ".gt"))
        P["event-global"] = e("global", {"scope": "event"}, lit(k, "ge" + n, n + ".ge"), e("float", {"key": "f", "value": "1.5"}))
        P["classifier"] = e("classifier", {"name": "c" + n, "keys": "a b" + n})
        P["log-attribute"] = lit(k, "l" + n, n + ".log")
        P["log"] = e("log", {"xes.version": "2.0", "xes.features": "nested-attributes"}, P["extension"], P["global"], P["event-global"],
                     P["classifier"], P["log-attribute"], P["trace"], e("trace", {}, e("event", {})))
        return P

    def bare(k, n):
        t = k.elem("trace", {}, k.elem("event", {}, lit(k, "a", n + ".a")), k.elem("event", {}))
        return {"log": k.elem("log", {"xes.version": "1.0"}, t), "trace": t}

    def mrich(k, n):
        e, P = k.elem, {}
        data = lambda w: e("Data", {}, e("Attribute", {"name": w + n}, text=k.word(n + "." + w)))
        P["name"] = e("WorkflowModelElement", {"modelReference": "ref" + n}, text=k.word(n + ".w"))
        P["type"] = e("EventType", {"unknowntype": "own"}, text="unknown")
        P["originator"] = e("Originator", {}, text=k.word(n + ".o"))
        P["time"] = e("Timestamp", {}, text="2020-01-01T10:00:00.000+01:00")
        P["data"] = data("entry")
        P["entry"] = e("AuditTrailEntry", {}, P["data"], P["name"], P["type"], P["originator"], P["time"])
        P["instance"] = e("ProcessInstance", {"id": "i" + n, "description": "d" + n}, data("instance"), P["entry"],
                          e("AuditTrailEntry", {}, e("WorkflowModelElement", {}, text=k.word(n + ".w2")), e("EventType", {}, text="start")))
        P["process"] = e("Process", {"id": "p" + n}, data("process"), P["instance"])
        P["log"] = e("WorkflowLog", {}, e("Source", {"program": "x" + n}), P["process"])
        return P

    def mbare(k, n):
        i = k.elem("ProcessInstance", {"id": n}, k.elem("AuditTrailEntry", {}, k.elem("WorkflowModelElement", {}, text=k.word(n + ".w")),
                                                         k.elem("EventType", {}, text="complete")))
        return {"log": k.elem("WorkflowLog", {}, k.elem("Process", {"id": n + "p"}, i))}

    def whole(k, g):
        return (xes.lview(k, g), tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_trace_attributes"))),
                tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_event_attributes"))),
                tuple((k.get(c, "name"), tuple(k.items(k.get(c, "get_defining_attribute_keys")))) for c in k.items(k.get(g, "get_classifiers"))),
                tuple(sorted(k.m(x, "get_prefix") for x in k.items(k.get(g, "get_extensions")))),
                tuple(sorted((e[0], e[1]) for e in k.get(g, "get_features").payload)))
    WHAT = ("contents", "global trace attributes", "global event attributes", "classifiers", "extensions", "features")

    def judge(k, got, want, what, at):
        k.same(len(got), len(want), "%s: number of logs" % what, at)
        for v, w in zip(got, want):
            if not isinstance(v, tuple):
                v = whole(k, v)
            for i, n in enumerate(WHAT):
                k.same(v[i], w[i], "%s: %s" % (what, n), at)

    def read(k, p, path):
        f = k.openfile(path, "r")
        try:
            return k.items(k.m(p, "parse", f))
        finally:
            at = k.last
            k.I.call(k.I.getattr(f, "close"), [])
            k.last = at
    PARSERS = {"XesXmlParser": (rich, bare, "a.xes", False), "XesXmlGZIPParser": (rich, bare, "a.xes.gz", True),
               "XMxmlParser": (mrich, mbare, "a.mxml", False), "XMxmlGZIPParser": (mrich, mbare, "a.mxml.gz", True)}

    def reference(k, pn, doc, name, gz):
        k.place("/tmp/2" + name, doc, gz=gz)
        return [whole(k, g) for g in read(k, k.new(pn), "/tmp/2" + name)]

    def finish(k, pn, p, name, want):
        """The second document, by the parser with the history and by another one."""
        judge(k, read(k, p, "/tmp/2" + name), want, "document read by a parser that has been used", k.last)
        judge(k, read(k, k.new(pn), "/tmp/2" + name), want, "document read by a new parser, after another one has been used", k.last)

    def twice(k, pn, first, second, universal=False):
        r, b, name, gz = PARSERS[pn]
        mk = {"rich": r, "bare": b}
        want = reference(k, pn, mk[second](k, "2")["log"], name, gz)
        p = k.new("XUniversalParser") if universal else k.new(pn)
        k.place("/tmp/1" + name, mk[first](k, "1")["log"], gz=gz)
        g1 = read(k, p, "/tmp/1" + name)
        v1 = [whole(k, g) for g in g1]
        finish(k, pn, p, name, want)
        judge(k, g1, v1, "log read before", k.last)
        r1 = read(k, p, "/tmp/1" + name)
        judge(k, r1, v1, "document read for the second time", k.last)
        k.ok(all(a is not b for a in g1 for b in r1), "reading a document again gives the log read before", k.last)

    def mutate(k, a, pre):
        for _, n in k.attrs(a):
            mutate(k, n, pre)
        if k.opt(a, "add_to_collection") is not None:
            for c in k.items(k.get(a, "get_collection")):
                mutate(k, c, pre)
            k.m(a, "add_to_collection", k.attr("literal", "added-" + pre, "member"))
        else:
            v = {"XAttributeBoolean": False, "XAttributeDiscrete": 77, "XAttributeContinuous": 7.5, "XAttributeTimestamp": k.dt(pre)}
            k.m(a, "set_value", v.get(k.kind_of(a), "changed"))
        k.put(a, k.attr("literal", "added-" + pre, "nested"))

    def mutate_element(k, o, pre):
        for _, a in k.attrs(o):
            mutate(k, a, pre)
        k.put(o, k.attr("literal", "added-" + pre, "attribute"))

    def changed(k, pn, n):
        """Everything about a log that was read is changed by the client."""
        r, b, name, gz = PARSERS[pn]
        want = reference(k, pn, r(k, "2")["log"], name, gz)
        p = k.new(pn)
        k.place("/tmp/1" + name, r(k, "1")["log"], gz=gz)
        before = [whole(k, g) for g in read(k, p, "/tmp/1" + name)]
        for i in range(n):
            for j, g in enumerate(read(k, p, "/tmp/1" + name)):
                pre = "chg%d.%d" % (i, j)
                mutate_element(k, g, pre)
                for t, tr in enumerate(k.items(g)):
                    mutate_element(k, tr, "%s.t%d" % (pre, t))
                    for e, ev in enumerate(k.items(tr)):
                        mutate_element(k, ev, "%s.t%d.e%d" % (pre, t, e))
                    k.append(tr, k.event())
                for lv in ("trace", "event"):
                    l = k.get(g, "get_global_%s_attributes" % lv)
                    for m, a in enumerate(k.items(l)):
                        mutate(k, a, "%s.g%s%d" % (pre, lv, m))
                    k.append(l, k.attr("literal", "more"))
                k.append(k.get(g, "get_classifiers"), k.new("XEventNameClassifier"))
                for c in k.items(k.get(g, "get_classifiers"))[:-1]:
                    if k.opt(c, "set_name") is not None and pn[:3] == "Xes":
                        k.m(c, "set_name", "renamed")
                k.m(k.get(g, "get_extensions"), "clear")
                k.m(g, "set_features", "added", "yes")
                k.m(g, "clear")
        finish(k, pn, p, name, want)
        judge(k, read(k, p, "/tmp/1" + name), before, "document read again after the log read from it was changed", k.last)

    def broken(k, pn, part, how, second):
        r, b, name, gz = PARSERS[pn]
        want = reference(k, pn, {"rich": r, "bare": b}[second](k, "2")["log"], name, gz)
        p = k.new(pn)
        d = r(k, "1")
        d[part].fields["broken"] = how
        k.place("/tmp/1" + name, d["log"], gz=gz)
        bad, _ = k.raises(lambda: read(k, p, "/tmp/1" + name))
        k.ok(bad, "a document that is not well-formed is read without error", k.last)
        finish(k, pn, p, name, want)

    def faulty(k, pn, n, exc, seen=None):
        r, b, name, gz = PARSERS[pn]
        want = reference(k, pn, b(k, "2")["log"], name, gz)
        p = k.new(pn)
        k.place("/tmp/1" + name, r(k, "1")["log"], gz=gz)
        k.I.effects_seen, k.I.inject = [], (n, exc)
        k.raises(lambda: read(k, p, "/tmp/1" + name))
        k.I.inject = None
        finish(k, pn, p, name, want)
    OPS = ("create_log", "create_trace", "create_event", "create_attribute_literal", "create_attribute_list", "create_attribute_timestamp")

    def factory(k, action):
        """A client's factory that does something at chosen calls."""
        return k.client("""
            from opyenxes.factory.XFactory import XFactory
            class F(XFactory):
                calls = [0]
                todo = [None]
                @staticmethod
                def tick():
                    F.calls[0] += 1
                    if F.todo[0] is not None:
                        F.todo[0](F.calls[0])
            %s
            """ % "\n            ".join("def _%s(*a, **k):\n                F.tick()\n                return XFactory.%s(*a, **k)\n"
                                          "            F.%s = staticmethod(_%s)" % (m, m, m, m) for m in OPS))["F"]

    def client_fails(k, pn, n, second):
        r, b, name, gz = PARSERS[pn]
        want = reference(k, pn, {"rich": r, "bare": b}[second](k, "2")["log"], name, gz)
        ns = k.client("""
            def at(n):
                def f(i):
                    if i == n:
                        raise RuntimeError("client")
                return f
            """)
        F = factory(k, None)
        p = k.new(pn, k.call(F))
        k.setindex(k.I.getattr(F, "todo"), 0, k.call(ns["at"], n))
        k.place("/tmp/1" + name, r(k, "1")["log"], gz=gz)
        k.raises(lambda: read(k, p, "/tmp/1" + name))
        k.setindex(k.I.getattr(F, "todo"), 0, None)
        finish(k, pn, p, name, want)

    def between(k, pn, n, same):
        """Another document is read (by the same parser, or by one of its own) in the middle of reading one."""
        r, b, name, gz = PARSERS[pn]
        want = reference(k, pn, b(k, "2")["log"], name, gz)
        k.place("/tmp/1" + name, r(k, "1")["log"], gz=gz)
        want1 = [whole(k, g) for g in read(k, k.new(pn), "/tmp/1" + name)]
        ns = k.client("""
            out = []
            def at(n, p, path):
                def f(i):
                    if i == n:
                        with open(path) as g:
                            out.append(p.parse(g))
                return f
            """)
        F = factory(k, None)
        p = k.new(pn, k.call(F))
        q = p if same else k.new(pn)
        k.setindex(k.I.getattr(F, "todo"), 0, k.call(ns["at"], n, q, "/tmp/2" + name))
        got1 = read(k, p, "/tmp/1" + name)
        at = k.last
        k.setindex(k.I.getattr(F, "todo"), 0, None)
        inner = k.items(ns["out"])
        k.same(len(inner), 1, "number of documents read in between", at)
        judge(k, got1, want1, "document read while another is read in the middle of it", at)
        judge(k, k.items(inner[0]), want, "document read in the middle of another", at)
        finish(k, pn, p, name, want)
    parts = {}
    for pn, (r, b, name, gz) in PARSERS.items():
        for first in ("rich", "bare"):
            for second in ("rich", "bare"):
                k.scenario("read/%s/%s-%s" % (pn, first, second), lambda k, a=(pn, first, second): twice(k, *a))
                k.scenario("read/universal/%s/%s-%s" % (pn, first, second), lambda k, a=(pn, first, second): twice(k, *a, universal=True))
        for n in (1, 2):
            k.scenario("read/%s/changed-%d" % (pn, n), lambda k, a=(pn, n): changed(k, *a))
        names = ("log", "extension", "global", "event-global", "classifier", "log-attribute", "trace", "event", "attribute", "nested", "list",
                 "member", "container", "date", "last-event") if r is rich else (
            "log", "process", "instance", "entry", "data", "name", "type", "originator", "time")
        for part in names:
            for how in ("inside", "end"):
                for second in (("rich", "bare") if k.thorough or not gz else ("bare",)):
                    k.scenario("read/%s/broken-%s-%s/%s" % (pn, part, how, second), lambda k, a=(pn, part, how, second): broken(k, *a))
        for n in range(4):
            for exc in ("OSError", "ValueError"):
                k.scenario("read/%s/fault-%d-%s" % (pn, n, exc), lambda k, a=(pn, n, exc): faulty(k, *a))
        for n in range(1, 22 if k.thorough else 14 if not gz else 5):
            k.scenario("read/%s/client-fails-%d" % (pn, n), lambda k, a=(pn, n, "rich" if n % 2 else "bare"): client_fails(k, *a))
        for n in (1, 2, 3, 4, 6, 8) if not gz else (2, 4):
            for same in (True, False):
                k.scenario("read/%s/in-the-middle-%d-%s" % (pn, n, "same" if same else "other"), lambda k, a=(pn, n, same): between(k, *a))

    # files of several formats through the universal parser
    def mixed(k, order):
        want, v = {}, {}
        for pn in PARSERS:
            r, b, name, gz = PARSERS[pn]
            want[pn] = reference(k, pn, r(k, pn[:5] + str(gz))["log"], name, gz)
        p = k.new("XUniversalParser")
        for pn in order:
            judge(k, read(k, p, "/tmp/2" + PARSERS[pn][2]), want[pn], "document read by the universal parser after others", k.last)
    N = list(PARSERS)
    for order in (N, N[::-1], [N[0], N[2], N[0], N[3], N[1]], [N[2], N[2], N[1], N[1]]):
        k.scenario("read/universal/" + "-".join(str(N.index(x)) for x in order), lambda k, o=order: mixed(k, o))

    # ---- serializers -----------------------------------------------------------
    def tree(e):
        return (e.fields["tag"], tuple(sorted(((n, v) for n, v in e.fields["attrib"].payload), key=lambda x: str(x[0]))), e.fields["text"],
                tuple(tree(c) for c in e.fields["children"].payload))

    def full(k, n):
        ev = lambda i: k.event(k.attr("literal", "concept:name", k.word("%s.e%d" % (n, i))), k.attr("literal", "lifecycle:transition", "own"),
                               k.attr("literal", "org:resource", k.word("%s.r%d" % (n, i))), k.attr("timestamp", "time:timestamp", k.dt("%s.t%d" % (n, i))))
        es = [ev(0), ev(1)]
        k.put(k.attr_of(es[0], "concept:name"), k.attr("literal", "n", k.word(n + ".n")))
        g = k.log([k.trace(es, [k.attr("literal", "concept:name", k.word(n + ".t"))])], [k.attr("discrete", "l" + n, name=n + ".l")])
        k.m(k.get(g, "get_extensions"), "add", k.new("XConceptExtension"))
        k.append(k.get(g, "get_global_trace_attributes"), k.attr("literal", "gt" + n, k.word(n + ".gt")))
        k.append(k.get(g, "get_global_event_attributes"), k.attr("boolean-true", "ge" + n))
        k.append(k.get(g, "get_classifiers"), k.new("XEventAttributeClassifier", "c" + n, k.lst("concept:name")))
        return g

    def small(k, n):
        return k.log([k.trace([k.event(k.attr("literal", "concept:name", k.word(n + ".e")))])])

    def ill(k, n, at):
        """A log that cannot be written to its end."""
        g = full(k, n)
        if at == "value":
            k.put(k.items(k.items(g)[0])[1], k.attr("timestamp", "bad", k.client("class T:\n    pass\n")["T"]))
        elif at == "key":
            k.I.dict_set(k.get(k.items(k.items(g)[0])[1], "get_attributes"), "x", k.attr("literal", None, "v"))
        elif at == "event":
            k.append(k.items(g)[0], None)
        elif at == "trace":
            k.append(g, None)
        elif at == "global":
            k.append(k.get(g, "get_global_event_attributes"), None)
        return g

    def save(k, s, g, name, exp=False):
        out = k.openfile("/tmp/" + name, "w")
        try:
            k.m(s, "serialize", g, out)
        finally:
            at = k.last
            k.I.call(k.I.getattr(out, "close"), [])
            k.last = at
        return tree(c35.document(k, "/tmp/" + name, name.endswith(".gz")))
    SER = {"XesXmlSerializer": "o.xes", "XesXmlGZIPSerializer": "o.xes.gz", "XMxmlSerializer": "o.mxml", "XMxmlGZIPSerializer": "o.mxml.gz"}

    def close(k, sn, s, g2, want, extra=None):
        name = "2" + SER[sn]
        k.same(save(k, s, g2, name), want, "document written by a serializer that has been used", k.last)
        k.same(save(k, k.new(sn), g2, name), want, "document written by a new serializer, after another one has been used", k.last)

    def write_twice(k, sn, first, second):
        mk = {"full": full, "small": small, "empty": lambda k, n: k.log()}
        g2 = mk[second](k, "2")
        want = save(k, k.new(sn), g2, "2" + SER[sn])
        s = k.new(sn)
        g1 = mk[first](k, "1")
        one = save(k, s, g1, "1" + SER[sn])
        close(k, sn, s, g2, want)
        k.same(tree(c35.document(k, "/tmp/1" + SER[sn], SER[sn].endswith(".gz"))), one, "document written before", k.last)
        k.same(save(k, s, g1, "3" + SER[sn]), one, "document of the same log, written again", k.last)

    def write_ill(k, sn, at, second):
        g2 = {"full": full, "small": small}[second](k, "2")
        want = save(k, k.new(sn), g2, "2" + SER[sn])
        s = k.new(sn)
        k.raises(lambda: save(k, s, ill(k, "1", at), "1" + SER[sn]))
        close(k, sn, s, g2, want)

    def write_fault(k, sn, n, exc):
        g2 = small(k, "2")
        want = save(k, k.new(sn), g2, "2" + SER[sn])
        s = k.new(sn)
        g1 = full(k, "1")
        k.I.effects_seen, k.I.inject = [], (n, exc)
        k.raises(lambda: save(k, s, g1, "1" + SER[sn]))
        k.I.inject = None
        close(k, sn, s, g2, want)

    def write_between(k, sn, n, same):
        ns = k.client("""
            from opyenxes.model.XLog import XLog
            class L(XLog):
                todo = [None]
                def __iter__(self):
                    for i in range(len(self)):
                        if L.todo[0] is not None:
                            L.todo[0](i)
                        yield self[i]
            def at(n, s, g, path):
                def f(i):
                    if i == n:
                        with open(path, "w") as o:
                            s.serialize(g, o)
                return f
            """)
        g2 = full(k, "2")
        want = save(k, k.new(sn), g2, "2" + SER[sn])
        g1 = k.call(ns["L"], k.amap(k.attr("literal", "concept:name", k.word("1.log"))))
        for i in range(2):
            k.append(g1, k.trace([k.event(k.attr("literal", "concept:name", k.word("1.w%d" % i)))]))
        want1 = save(k, k.new(sn), g1, "1" + SER[sn])
        s = k.new(sn)
        k.setindex(k.I.getattr(ns["L"], "todo"), 0, k.call(ns["at"], n, s if same else k.new(sn), g2, "/tmp/m" + SER[sn]))
        k.same(save(k, s, g1, "1" + SER[sn]), want1, "document written while another is written in the middle of it", k.last)
        k.setindex(k.I.getattr(ns["L"], "todo"), 0, None)
        k.same(tree(c35.document(k, "/tmp/m" + SER[sn], SER[sn].endswith(".gz"))), want, "document written in the middle of another", k.last)
        close(k, sn, s, g2, want)
    for sn in SER:
        for first in ("full", "small", "empty"):
            for second in ("full", "small", "empty"):
                k.scenario("write/%s/%s-%s" % (sn, first, second), lambda k, a=(sn, first, second): write_twice(k, *a))
        for at in ("value", "key", "event", "trace", "global"):
            for second in ("full", "small"):
                k.scenario("write/%s/unwritable-%s/%s" % (sn, at, second), lambda k, a=(sn, at, second): write_ill(k, *a))
        for n in range(5):
            for exc in ("OSError", "ValueError"):
                k.scenario("write/%s/fault-%d-%s" % (sn, n, exc), lambda k, a=(sn, n, exc): write_fault(k, *a))
        for n in (0, 1):
            for same in (True, False):
                k.scenario("write/%s/in-the-middle-%d-%s" % (sn, n, "same" if same else "other"), lambda k, a=(sn, n, same): write_between(k, *a))

    # ---- extension definitions --------------------------------------------------
    SHAPE = [("log", [("string", ["EN"])]), ("trace", [("int", [])]), ("event", [("date", []), ("float", [])]), ("meta", [("id", [])])]

    def defs(k, x):
        return (k.get(x, "get_name"), k.get(x, "get_prefix"), k.I.call(k.I.getattr(k.get(x, "get_uri"), "geturl"), []), tuple(
            tuple(sorted(((k.get(a, "get_key"), k.kind_of(a)) for a in k.items(k.get(x, "get_%s_attributes" % lv))), key=str))
            for lv in ("log", "trace", "event", "meta")))

    def again(k, path, breaks):
        k.place("/tmp/2.xesext", definition(k, "b", SHAPE[1:])["doc"])
        want = defs(k, k.static("XExtensionParser", "parse", "/tmp/2.xesext"))
        d = definition(k, "a", SHAPE)["doc"]
        x, todo = d, list(path)
        while todo:
            x = x.fields["children"].payload[todo.pop(0)]
        if breaks:
            x.fields["broken"] = breaks
        k.place("/tmp/1.xesext", d)
        bad, one = k.raises(lambda: k.static("XExtensionParser", "parse", "/tmp/1.xesext"))
        k.same(bad, bool(breaks), "the definition is refused", k.last)
        v = None if bad else defs(k, one)
        two = k.static("XExtensionParser", "parse", "/tmp/2.xesext")
        k.same(defs(k, two), want, "extension read after another definition", k.last)
        if not bad:
            k.same(defs(k, one), v, "extension read before", k.last)
    k.scenario("definition/twice", lambda k: again(k, (), None))
    for path in ((), (0,), (0, 0), (0, 0, 0), (1,), (1, 0), (2, 0), (2, 1), (3, 0)):
        for how in ("inside", "end"):
            k.scenario("definition/broken-%s-%s" % ("-".join(map(str, path)) or "root", how), lambda k, a=(path, how): again(k, *a))


    # long histories, and a large document before a small one --------------------------------------------
    def given(k, form, i, n):
        """A document that says which it is: n events of each of n traces, and as many of everything else."""
        e = k.elem
        if form == "mxml":
            ate = lambda j: e("AuditTrailEntry", {}, e("Data", {}, *[e("Attribute", {"name": "d%d.%d" % (i, x)}, text="v%d" % x) for x in range(n)]),
                              e("WorkflowModelElement", {}, text="w%d.%d" % (i, j)), e("EventType", {}, text="start"))
            return e("WorkflowLog", {}, *[e("Process", {"id": "p%d.%d" % (i, q)}, *[e("ProcessInstance", {"id": "i%d.%d" % (i, x)}, *[
                ate(j) for j in range(n)]) for x in range(n)]) for q in range(i % 2 + 1)])
        s = lambda key, *kids: e("string", {"key": key, "value": "v%d" % i}, *kids)
        deep = s("x%d" % i)
        for j in range(n):
            deep = s("x%d" % j, deep)
        rows = lambda w: [s("%s%d.%d" % (w, i, j)) for j in range(n)]
        return e("log", {"xes.version": "%d.0" % i}, *([e("global", {"scope": sc}, *rows("g")) for sc in (("trace", "event") if i % 2 else ())] + [
            e("classifier", {"name": "c%d.%d" % (i, j), "keys": "a b%d" % j}) for j in range(n)] + rows("l") + [deep] + [
            e("trace", {}, *(rows("t") + [e("event", {}, *rows("e%d." % j)) for j in range(n)])) for _ in range(n)]))

    def series(k, pn, sizes, who):
        name, gz = PARSERS[pn][2:]
        form = "mxml" if "Mxml" in pn else "xes"
        p = k.new("XUniversalParser") if who == "universal" else k.new(pn)
        seen = []
        for i, n in enumerate(sizes):
            k.place("/tmp/s%d.%s" % (i, name), given(k, form, i, n), gz=gz)
            got = read(k, k.new(pn) if who == "new" else p, "/tmp/s%d.%s" % (i, name))
            at = k.last
            k.same(len(got), 1 if form == "xes" else i % 2 + 1, "number of logs of document %d" % i, at)
            for q, g in enumerate(got):
                lit = lambda key, v, *m: (key, ("XAttributeLiteral", key, None, v, tuple(m)))
                if form == "mxml":
                    nm = lambda o: k.get(k.attr_of(o, "concept:name"), "get_value")
                    k.same(nm(g), "p%d.%d" % (i, q), "name of the log of document %d" % i, at)
                    k.same([nm(t) for t in k.items(g)], ["i%d.%d" % (i, x) for x in range(n)], "traces of document %d" % i, at)
                    for t in k.items(g):
                        k.same([nm(x) for x in k.items(t)], ["w%d.%d" % (i, j) for j in range(n)], "events of document %d" % i, at)
                        for x in k.items(t):
                            k.same(tuple(sorted(a for a, _ in k.attrs(x) if a[:1] == "d")), tuple(sorted("d%d.%d" % (i, j) for j in range(n))),
                                   "data of an event of document %d" % i, at)
                else:
                    row = lambda w: tuple(lit("%s%d.%d" % (w, i, j), "v%d" % i) for j in range(n))
                    deep = lit("x%d" % i, "v%d" % i)
                    for j in range(n):
                        deep = lit("x%d" % j, "v%d" % i, deep)
                    keep = tuple(sorted(row("l") + (deep,)))
                    k.same(xes.views(k, g), keep, "attributes of the log of document %d" % i, at)
                    k.same(tuple(xes.tview(k, t) for t in k.items(g)), tuple((tuple(sorted(row("t"))), tuple(tuple(sorted(row("e%d." % j)))
                           for j in range(n))) for _ in range(n)), "traces of document %d" % i, at)
                    w = whole(k, g)
                    k.same(w[1:3], (tuple(x[1] for x in row("g")) if i % 2 else (),) * 2, "global attributes of document %d" % i, at)
                    k.same(w[3], tuple(("c%d.%d" % (i, j), ("a", "b%d" % j)) for j in range(n)), "classifiers of document %d" % i, at)
                    k.same(w[5], (("xes.version", "%d.0" % i),), "features of document %d" % i, at)
                seen.append((i, g, whole(k, g)))
        for i, g, v in seen:
            judge(k, [g], [v], "log of document %d after reading on" % i, at)
    for pn in PARSERS:
        for who in ("same", "new", "universal"):
            k.scenario("series/%s/%s" % (pn, who), lambda k, a=(pn, [1 + i % 3 for i in range(20)], who): series(k, *a))
            k.scenario("series/%s/%s/large-first" % (pn, who), lambda k, a=(pn, [9, 0, 1, 9, 2], who): series(k, *a))

    def writing(k, sn, sizes, same):
        s = k.new(sn)
        form = "mxml" if "Mxml" in sn else "xes"
        pn = "XMxmlParser" if form == "mxml" else "XesXmlParser"
        p, logs = k.new(pn), []
        for i, n in enumerate(sizes):
            k.place("/tmp/w." + form, given(k, form, 2 * i, n))
            logs.append(read(k, p, "/tmp/w." + form)[0])
        want = [save(k, k.new(sn), g, "0" + SER[sn]) for g in logs]
        k.ok(all(k.diff(want[i], want[i + 1]) is not None for i in range(len(want) - 1)), "documents of different logs are the same", k.last)
        for r in (1, 2):
            for i, g in enumerate(logs):
                got = save(k, s if same else k.new(sn), g, "%d" % i + SER[sn])
                k.same(got, want[i], "document of log %d, written in round %d" % (i, r), k.last)
        for i, g in enumerate(logs):
            k.same(tree(c35.document(k, "/tmp/%d" % i + SER[sn], SER[sn].endswith(".gz"))), want[i], "document %d after writing on" % i, k.last)
    for sn in SER:
        for same in (True, False):
            w = "same" if same else "new"
            k.scenario("series/%s/%s" % (sn, w), lambda k, a=(sn, [1 + i % 3 for i in range(9)], same): writing(k, *a))
            k.scenario("series/%s/%s/large-first" % (sn, w), lambda k, a=(sn, [6, 0, 1, 6, 2], same): writing(k, *a))


MIN_SCENARIOS = 120
