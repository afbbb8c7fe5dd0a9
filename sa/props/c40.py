"""Working on with a log that was read, by abstract interpretation of reading, editing and writing, against a log built by hand."""
from .. import libs
from . import xes
from .c35 import document, kids, attribs, tag, blank
METHOD = ("Abstract interpretation of reading a document, editing the log read through the public interface and writing it in every "
          "format. Beside it a log of the same contents is built by hand through the public interface and edited in the same way: "
          "after every step the two are compared, term by term, and so are the trees of elements written for them; single "
          "changes are compared with the list of all attributes before.")
RULE = ("a change to one attribute of a log read shows in that attribute only; edit(read(d)) == edit(hand-built log); write(edit(read(d))) "
        "== write(edit(hand-built log)); read(write(g)) == g for XES")
ASSUMES = ["texts hold no line breaks (C01 has the finding)", "one MXML document of several processes has no Source (they share it)"]
SERS = {"xes": ("XesXmlSerializer", "XesXmlParser", "/tmp/w.xes", False), "xes.gz": ("XesXmlGZIPSerializer", "XesXmlGZIPParser", "/tmp/w.xes.gz", True),
        "mxml": ("XMxmlSerializer", "XMxmlParser", "/tmp/w.mxml", False),
        "mxml.gz": ("XMxmlGZIPSerializer", "XMxmlGZIPParser", "/tmp/w.mxml.gz", True)}


def run(k):
    # ---- documents
    def xdoc(k, n, plain=False):
        def lit(k, key, n, *sub):
            return k.elem("string", {"key": key, "value": k.word(n, excl=xes.BREAKS) if plain else k.text(n, excl=xes.BREAKS)}, *sub)
        e = k.elem
        twin = lambda i: e("event", {}, e("string", {"key": "concept:name", "value": "same"}, e("string", {"key": "why", "value": "same"})),
                           e("string", {"key": "org:resource", "value": "same"}), e("list", {"key": "l"}, e("string", {"key": "m", "value": "same"})),
                           e("string", {"key": "lifecycle:transition", "value": "start"}),
                           e("date", {"key": "time:timestamp", "value": "2020-01-0%dT10:00:00.000+01:00" % i}))
        first = e("event", {}, lit(k, "concept:name", n + ".e", lit(k, "nested", n + ".n", lit(k, "deep", n + ".d"))),
                  e("list", {"key": "list"}, lit(k, "m", n + ".m"), e("int", {"key": "m", "value": "12"}, lit(k, "sub", n + ".s"))),
                  e("container", {"key": "box"}, e("boolean", {"key": "b", "value": "true"}), e("list", {"key": "in"}, lit(k, "x", n + ".x"))),
                  e("id", {"key": "identity:id", "value": "12345678-1234-1234-1234-123456789abc"}), e("float", {"key": "cost:total", "value": "1.5"}))
        t1 = e("trace", {}, lit(k, "concept:name", n + ".t"), e("int", {"key": "size", "value": "3"}), first, twin(2), twin(2), e("event", {}))
        t2 = e("trace", {}, e("string", {"key": "concept:name", "value": "same"}), twin(1), twin(3))
        t3 = e("trace", {}, e("string", {"key": "concept:name", "value": "same"}))
        ext = lambda nm: e("extension", {"name": nm, "prefix": nm.lower(), "uri": "http://www.xes-standard.org/%s.xesext" % nm.lower()})
        return e("log", {"xes.version": "2.0", "xes.features": "nested-attributes"}, ext("Concept"), ext("Time"),
                 e("global", {"scope": "trace"}, e("string", {"key": "concept:name", "value": "same"})),
                 e("global", {"scope": "event"}, e("string", {"key": "concept:name", "value": "same"}, e("string", {"key": "gn", "value": "same"})),
                   e("date", {"key": "time:timestamp", "value": "1970-01-01T00:00:00.000+00:00"}), e("int", {"key": "gi", "value": "1"})),
                 e("classifier", {"name": "Activity", "keys": "concept:name lifecycle:transition"}), e("classifier", {"name": "Who", "keys": "org:resource"}),
                 lit(k, "concept:name", n + ".log"), e("string", {"key": "org:resource", "value": "same"}), t1, t2, t3)

    def mdoc(k, n, processes=1):
        e = k.elem
        T = lambda tg, v, **at: e(tg, at, text=v)
        data = lambda *w: e("Data", {}, *[e("Attribute", {"name": x}, text="same" if x == "same" else k.word(n + "." + x)) for x in w])

        def entry(i, name):
            return e("AuditTrailEntry", {}, data("same", "own%d" % i), T("WorkflowModelElement", name), T("EventType", "start" if i % 2 else "complete"),
                     T("Originator", "same"), T("Timestamp", "2020-01-0%dT10:00:00.000+01:00" % (i + 1)))

        def process(j):
            i1 = e("ProcessInstance", {"id": "i1", "description": "d"}, data("same"), entry(1, k.word("%s.w%d" % (n, j))), entry(2, "same"), entry(3, "same"))
            i2 = e("ProcessInstance", {"id": "i2"}, entry(1, "same"), e("AuditTrailEntry", {}, T("WorkflowModelElement", "same"), e("EventType", {"unknowntype": "own"}, text="unknown")))
            return e("Process", {"id": "p%d" % j, "description": "d"}, data("same", "pd"), i1, i2)
        return e("WorkflowLog", {}, *(([e("Source", {"program": "prog"})] if processes == 1 else []) + [process(j) for j in range(processes)]))
    DOCS = {"xes": (lambda k, n: xdoc(k, n), "XesXmlParser", ".xes", False),
            "xes-plain": (lambda k, n: xdoc(k, n, True), "XesXmlParser", ".xes", False), "xes.gz": (lambda k, n: xdoc(k, n), "XesXmlGZIPParser", ".xes.gz", True),
            "mxml": (lambda k, n: mdoc(k, n), "XMxmlParser", ".mxml", False), "mxml.gz": (lambda k, n: mdoc(k, n), "XMxmlGZIPParser", ".mxml.gz", True),
            "mxml-two": (lambda k, n: mdoc(k, n, 2), "XMxmlParser", ".mxml", False)}

    def read(k, d, n="1", universal=False):
        mk, pn, ending, gz = DOCS[d]
        path = "/tmp/r%s%s" % (n, ending)
        k.place(path, mk(k, "d" + n), gz=gz)
        gs = k.load(path, "XUniversalParser" if universal else pn)
        k.same(len(gs), 2 if d == "mxml-two" else 1, "number of logs read", k.last)
        return gs

    # ---- what a log says
    def whole(k, g):
        return (xes.lview(k, g), tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_trace_attributes"))),
                tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_event_attributes"))),
                tuple((k.get(c, "name"), tuple(k.items(k.get(c, "get_defining_attribute_keys")))) for c in k.items(k.get(g, "get_classifiers"))),
                tuple(sorted(k.m(x, "get_prefix") for x in k.items(k.get(g, "get_extensions")))))
    WHAT = ("contents", "global trace attributes", "global event attributes", "classifiers", "extensions")

    def judge(k, g, h, what, at=None):
        """Log g says what h (a log or what one said) does."""
        at = at or k.last
        v, w = whole(k, g), h if isinstance(h, tuple) else whole(k, h)
        xes.judge(k, g, w[0], at)
        for i in range(1, 5):
            k.same(v[i], w[i], "%s: %s" % (what, WHAT[i]), at)

    def copy(k, a):
        """An attribute of the same kind, key, extension, value and nested attributes, built by hand."""
        cn = k.kind_of(a)
        c = k.m(k.new("XFactory"), {"XAttributeList": "create_attribute_list", "XAttributeContainer": "create_attribute_container"}.get(
            cn, "create_attribute_" + cn[len("XAttribute"):].lower()), k.get(a, "get_key"),
            *([] if cn in ("XAttributeList", "XAttributeContainer") else [value(k, a)]), k.get(a, "get_extension"))
        members = []
        if k.opt(c, "add_to_collection") is not None:
            for x in k.items(k.get(a, "get_collection")):
                members.append((x, copy(k, x)))
                k.m(c, "add_to_collection", members[-1][1])
        for _, x in k.attrs(a):      # the readers give lists their members as nested attributes, too
            k.put(c, next((m for y, m in members if y is x), None) or copy(k, x))
        return c

    def value(k, a):
        v = k.get(a, "get_value")
        return k.new("XID", k.get(v, "get_uuid")) if k.isinst(v, "XID") else v

    def mirror(k, g):
        F = k.new("XFactory")

        def fill(o, p):
            for n, a in k.attrs(p):
                k.setindex(k.m(o, "get_attributes"), n, copy(k, a))
            return o
        h = fill(k.m(F, "create_log"), g)
        for t in k.items(g):
            u = fill(k.m(F, "create_trace"), t)
            for e in k.items(t):
                k.append(u, fill(k.m(F, "create_event"), e))
            k.append(h, u)
        for lv in ("trace", "event"):
            for a in k.items(k.get(g, "get_global_%s_attributes" % lv)):
                k.append(k.get(h, "get_global_%s_attributes" % lv), copy(k, a))
        for c in k.items(k.get(g, "get_classifiers")):
            k.append(k.get(h, "get_classifiers"), k.new("XEventAttributeClassifier", k.get(c, "name"), k.lst(*k.items(k.get(c, "get_defining_attribute_keys")))))
        for x in k.items(k.get(g, "get_extensions")):
            k.m(k.get(h, "get_extensions"), "add", x)
        judge(k, h, g, "the log built by hand")
        return h

    # ---- what is written
    def tree(k, e):
        return (tag(e), tuple(sorted(attribs(e).items())), None if blank(e.fields["text"]) else e.fields["text"],
                tuple(tree(k, c) for c in kids(e)))

    def written(k, g, how):
        ser, _, path, gz = SERS[how]
        k.save(g, path, ser)
        at = k.last
        d = document(k, path, gz)
        k.last = at
        return d, at

    def same_tree(k, a, b, what, at):
        k.same(tag(a), tag(b), "%s: element" % what, at)
        x, y = attribs(a), attribs(b)
        k.same(sorted(x), sorted(y), "%s: XML attributes of <%s>" % (what, tag(a)), at)
        for n in x:
            k.same(x[n], y[n], "%s: %s of <%s>" % (what, n, tag(a)), at)
        ta, tb = [None if blank(e.fields["text"]) else e.fields["text"] for e in (a, b)]
        k.same(ta, tb, "%s: text of <%s>" % (what, tag(a)), at)
        ka, kb = kids(a), kids(b)
        if tag(a) == "log":      # extensions are a set
            key = lambda e: (0, str(attribs(e).get("prefix"))) if tag(e) == "extension" else (1, "")
            ka, kb = sorted(ka, key=key), sorted(kb, key=key)
        k.same(len(ka), len(kb), "%s: number of children of <%s>" % (what, tag(a)), at)
        for c, d in zip(ka, kb):
            same_tree(k, c, d, what, at)

    def write_and_judge(k, g, h, formats):
        for f in formats:
            b, _ = written(k, h, f)
            a, at = written(k, g, f)
            same_tree(k, a, b, "document written for the log read (%s)" % f, at)
            if f.startswith("xes"):
                back = k.load(SERS[f][2], SERS[f][1])
                k.same(len(back), 1, "number of logs read back", k.last)
                judge(k, back[0], g, "read back", k.last)

    # ---- editing
    def everything(k, g):
        """Every attribute of the log and of its globals, with its path."""
        out = []

        def walk(path, a):
            out.append((path, a))
            if k.opt(a, "add_to_collection") is not None:
                for i, c in enumerate(k.items(k.get(a, "get_collection"))):
                    walk(path + (i,), c)
                return
            for n, x in k.attrs(a):
                walk(path + (n,), x)

        def owner(path, o):
            for n, a in k.attrs(o):
                walk(path + (n,), a)
        owner(("log",), g)
        for i, t in enumerate(k.items(g)):
            owner(("trace", i), t)
            for j, e in enumerate(k.items(t)):
                owner(("event", i, j), e)
        for lv in ("trace", "event"):
            for i, a in enumerate(k.items(k.get(g, "get_global_%s_attributes" % lv))):
                walk(("global", lv, i), a)
        return out

    def own(k, a):
        return (k.kind_of(a), k.get(a, "get_key"), k.get(a, "get_extension"), () if k.opt(a, "add_to_collection") is not None else xes.val(k, k.value_of(a)))

    NEW = {"XAttributeBoolean": lambda k, i: False, "XAttributeDiscrete": lambda k, i: 1000 + i, "XAttributeContinuous": lambda k, i: 1000.5 + i,
           "XAttributeTimestamp": lambda k, i: k.dt("new%d" % i), "XAttributeID": lambda k, i: k.xid("new%d" % i)}

    def single(k, d, universal):
        gs = read(k, d, universal=universal)
        for g in gs:
            rest = [(h, whole(k, h)) for h in gs if h is not g]
            xs = everything(k, g)
            k.ok(len(xs) > 20, "the log read holds few attributes", k.last)
            k.same(len({id(a) for _, a in xs}), len(xs), "number of different attributes in the log", k.last)
            now = [own(k, a) for _, a in xs]
            for i, (path, a) in enumerate(xs):
                if k.opt(a, "add_to_collection") is not None:
                    continue
                k.m(a, "set_value", NEW.get(now[i][0], lambda k, i: "new%d" % i)(k, i))
                at = k.last
                now[i] = own(k, a)
                ys = everything(k, g)
                k.same([p for p, _ in ys], [p for p, _ in xs], "attributes of the log after one was changed", at)
                for j, (p, b) in enumerate(ys):
                    k.same(own(k, b), now[j], "attribute %s after %s was changed" % (p, path), at)
            for i, (path, a) in enumerate(xs):
                before = [p for p, _ in everything(k, g)]
                coll = k.opt(a, "add_to_collection") is not None
                n = k.attr("literal", "added%d" % i, "added")
                if coll:
                    k.m(a, "add_to_collection", n)
                else:
                    k.put(a, n)
                at = k.last
                more = [p for p, _ in everything(k, g) if p not in before]
                k.same(len(more), 1, "attributes of the log that are new after one was given a nested attribute", at)
                k.same(more[0][:len(path)], path, "attribute that shows the nested attribute", at)
            for h, w in rest:
                judge(k, h, w, "another log of the document")
        for g in gs:
            xs = everything(k, g)
            for i, t in enumerate(k.items(g)):
                for o, p in [(t, ("trace", i))] + [(e, ("event", i, j)) for j, e in enumerate(k.items(t))]:
                    for n, _ in k.attrs(o):
                        k.delindex(k.m(o, "get_attributes"), n)
                        at = k.last
                        xs = [(q, a) for q, a in xs if q[:len(p) + 1] != p + (n,)]
                        k.same([q for q, _ in everything(k, g)], [q for q, _ in xs], "attributes left after one was removed", at)
    for d in ("xes", "xes.gz", "mxml", "mxml.gz", "mxml-two"):
        for u in (False, True):
            k.scenario("single/%s%s" % (d, "/universal" if u else ""), lambda k, a=(d, u): single(k, *a))

    def anonymise(k, g):
        for _, a in everything(k, g):
            if k.kind_of(a) == "XAttributeLiteral" and k.get(a, "get_key") in ("org:resource", "concept:name", "same", "m"):
                k.m(a, "set_value", "hidden")
        return g

    def thin(k, g):
        c = k.m(g, "clone")
        k.m(c, "clear")
        for t in k.items(g)[::2]:
            k.append(c, t)
        return c

    def rebuild(k, g):
        """A new log with the header of the old one and its traces in reverse (as the clustering example does)."""
        c = k.m(k.new("XFactory"), "create_log", k.m(k.m(g, "get_attributes"), "clone"))
        for x in k.items(k.get(g, "get_extensions")):
            k.m(k.get(c, "get_extensions"), "add", x)
        for n in ("get_classifiers", "get_global_trace_attributes", "get_global_event_attributes"):
            k.m(k.get(c, n), "extend", k.get(g, n))
        for t in k.items(g)[::-1]:
            k.append(c, t)
        return c

    def grow(k, g):
        F = k.new("XFactory")
        C, L, T, O = (k.new("X%sExtension" % n) for n in ("Concept", "Lifecycle", "Time", "Organizational"))

        def event(n, t):
            e = k.m(F, "create_event")
            k.m(C, "assign_name", e, n)
            k.m(L, "assign_transition", e, "complete")
            k.m(O, "assign_resource", e, "who")
            k.m(T, "assign_timestamp", e, k.call(moment, 2020, 1, t, 12, 0, 0))
            return e
        moment = k.client("from datetime import datetime, timezone\ndef at(*a):\n    return datetime(*a, tzinfo=timezone.utc)\n")["at"]
        for i, t in enumerate(k.items(g)):
            k.m(t, "insert_ordered", event("inserted%d" % i, 2))
            k.append(t, event("appended%d" % i, 9))
            k.m(C, "assign_name", t, "renamed%d" % i)
        t = k.m(F, "create_trace")
        k.m(C, "assign_name", t, "new")
        k.append(t, event("only", 1))
        k.m(g, "insert", 1, t)
        k.m(k.get(g, "get_extensions"), "add", O)
        k.m(C, "assign_name", g, "new name")
        return g

    def strip(k, g):
        for t in k.items(g):
            for e in k.items(t):
                for n, a in k.attrs(e):
                    if n not in ("concept:name", "lifecycle:transition", "time:timestamp"):
                        k.delindex(k.m(e, "get_attributes"), n)
                    elif k.attrs(a):
                        k.m(a, "set_attributes", k.new("XAttributeMap"))
                if not k.attrs(e):
                    k.m(t, "remove", e)
        return g

    def header(k, g):
        cs = k.get(g, "get_classifiers")
        k.m(cs, "pop", 0)
        k.append(cs, k.new("XEventNameClassifier"))
        k.m(k.get(g, "get_global_event_attributes"), "reverse")
        k.append(k.get(g, "get_global_trace_attributes"), k.attr("discrete", "size", 0))
        k.m(k.get(g, "get_extensions"), "clear")
        k.m(k.get(g, "get_extensions"), "add", k.new("XTimeExtension"))
        k.m(g, "set_features", "own", "yes")
        return g

    def doubled(k, g):
        """Every trace a second time, as a clone whose events are renamed."""
        for t in k.items(g):
            c = k.m(t, "clone")
            for e in k.items(c):
                k.m(k.new("XConceptExtension"), "assign_name", e, "clone")
            k.append(g, c)
        return g

    def swap(k, g):
        """Events change places, attributes are exchanged for lists of them."""
        for t in k.items(g):
            k.m(t, "reverse")
            for e in k.items(t):
                a = k.attr_of(e, "org:resource")
                if a is not None:
                    l = k.attr("list", "who")
                    k.m(l, "add_to_collection", a)
                    k.delindex(k.m(e, "get_attributes"), "org:resource")
                    k.put(e, l)
        k.m(g, "reverse")
        return g
    EDITS = {"none": lambda k, g: g, "clone": lambda k, g: k.m(g, "clone"), "anonymise": anonymise, "thin": thin, "rebuild": rebuild, "grow": grow,
             "strip": strip, "header": header, "doubled": doubled, "swap": swap}

    def edited(k, d, names, formats, universal=False):
        gs = read(k, d, universal=universal)
        for g, h in [(g, mirror(k, g)) for g in gs]:
            for n in names:
                g2, h2 = EDITS[n](k, g), EDITS[n](k, h)
                judge(k, g2, h2, "after %s" % n)
                if g2 is not g:
                    judge(k, g, h, "the log read, after %s" % n)
                g, h = g2, h2
                if len(names) > 1 and n != names[-1]:
                    write_and_judge(k, g, mirror(k, g), formats)
            before = whole(k, g)
            write_and_judge(k, g, h, formats)
            judge(k, g, before, "the log read, after writing it")
    for d in ("xes", "xes.gz", "mxml", "mxml.gz", "mxml-two"):
        for n in EDITS:
            k.scenario("edit/%s/%s" % (d, n), lambda k, a=(d, (n,), ("xes", "mxml")): edited(k, *a))
        for ns in (("anonymise", "grow", "thin"), ("doubled", "header", "swap"), ("clone", "strip", "rebuild", "grow")):
            k.scenario("edit/%s/%s" % (d, "+".join(ns)), lambda k, a=(d, ns, ("xes.gz", "mxml.gz"), True): edited(k, *a))

    def merged(k, d1, d2, formats):
        g1, g2 = read(k, d1, "1")[0], read(k, d2, "2")[0]
        h1, h2 = mirror(k, g1), mirror(k, g2)

        def merge(a, b):
            c = k.m(a, "clone")
            for t in k.items(b):
                k.append(c, t)
            for n in ("get_classifiers", "get_global_trace_attributes", "get_global_event_attributes"):
                k.m(k.get(c, n), "extend", k.get(b, n))
            for x in k.items(k.get(b, "get_extensions")):
                k.m(k.get(c, "get_extensions"), "add", x)
            return c
        g, h = merge(g1, g2), merge(h1, h2)
        judge(k, g, h, "merged log")
        write_and_judge(k, g, h, formats)
        judge(k, g1, h1, "first log, after merging")
        judge(k, g2, h2, "second log, after merging")
    for d1 in ("xes", "mxml"):
        for d2 in ("xes", "mxml", "mxml.gz"):
            k.scenario("merged/%s/%s" % (d1, d2), lambda k, a=(d1, d2, ("xes", "mxml")): merged(k, *a))

    def chain(k, d, formats):
        """Written and read again and again: from the first on, nothing changes any more."""
        g = read(k, d)[0]
        before = None
        for i, f in enumerate(formats):
            a, at = written(k, g, f)
            g = k.load(SERS[f][2], SERS[f][1])[0]
            b, at = written(k, g, f)
            if f.startswith("xes"):
                same_tree(k, b, a, "document written again (%s)" % f, at)
            else:
                if before is not None:
                    same_tree(k, b, before, "document written again (%s)" % f, at)
                before = b
    for d in ("xes-plain", "mxml"):
        for fs in (("xes", "xes.gz") * 5, ("mxml", "mxml.gz") * 4, ("xes", "xes.gz", "xes"), ("mxml", "mxml", "mxml.gz"), ("mxml", "xes", "mxml")):
            k.scenario("chain/%s/%s" % (d, "-".join(fs) if len(fs) < 4 else "%s-%s/%d" % (fs[0], fs[1], len(fs))), lambda k, a=(d, fs): chain(k, *a))


    # large logs: read, edited and written like small ones
    def large(k, form, nt, ne, na, names):
        e = k.elem
        if form == "xes":
            s = lambda key, v: e("string", {"key": key, "value": v})
            doc = e("log", {"xes.version": "2.0"}, s("concept:name", "log"), *[e("trace", {}, s("concept:name", "t%d" % i), *[e(
                "event", {}, s("concept:name", "a%d" % (j % 3)), s("org:resource", "r%d" % (i % 2)), *[s("k%d" % x, "v%d.%d.%d" % (i, j, x)) for x in range(na)])
                for j in range(ne)]) for i in range(nt)])
        else:
            doc = e("WorkflowLog", {}, e("Process", {"id": "p"}, *[e("ProcessInstance", {"id": "i%d" % i}, *[e("AuditTrailEntry", {}, e("Data", {}, *[
                e("Attribute", {"name": "k%d" % x}, text="v%d.%d.%d" % (i, j, x)) for x in range(na)]), e("WorkflowModelElement", {}, text="a%d" % (j % 3)),
                e("EventType", {}, text="start"), e("Originator", {}, text="r%d" % (i % 2))) for j in range(ne)]) for i in range(nt)]))
        k.place("/tmp/large." + form, doc)
        g = k.load("/tmp/large." + form, "XesXmlParser" if form == "xes" else "XMxmlParser")[0]
        k.same([len(k.items(t)) for t in k.items(g)], [ne] * nt, "events of the traces read", k.last)
        h = mirror(k, g)
        for n in names:
            g, h = EDITS[n](k, g), EDITS[n](k, h)
            judge(k, g, h, "after %s" % n)
        write_and_judge(k, g, h, ("xes", "mxml"))
    for form in ("xes", "mxml"):
        for nt, ne, na in ((40, 1, 0), (1, 64, 0), (2, 2, 64), (12, 6, 1)):
            for names in (("none",), ("clone", "swap"), ("doubled", "thin"), ("rebuild", "grow")):
                k.scenario("large/%s/%d-%d-%d/%s" % (form, nt, ne, na, "+".join(names)), lambda k, a=(form, nt, ne, na, names): large(k, *a))


MIN_SCENARIOS = 60
