"""XES write/read, by abstract interpretation of the serializer and the parser composed."""
from .common import ALL, BIG, DEPTHS, LEAF, LENGTHS, SIZES, TEXTS, keyed
from . import xes
METHOD = ("Abstract interpretation of XesXmlSerializer.serialize followed by XesXmlParser.parse on symbolic logs: the serializer "
          "builds an abstract XML tree, the parser's SAX handler is driven with its events, and the log read is compared, term "
          "by term, with the log written (kinds, keys, extensions, values, nesting, member order, traces and events in order).")
RULE = "read(write(log)) has the traces, events, attributes, nested attributes and list members of log, in order, nothing else"
ASSUMES = ["values and keys hold no characters that XML cannot represent, and no line breaks or tabs except where stated",
           "timestamps to the millisecond; floats are not NaN",
           "attributes are filed under their own key and carry the extension their key prefix names, as the factory does"]
A = xes.attr


def trip(k, g, parser="XesXmlParser", ser="XesXmlSerializer", path="/tmp/log.xes"):
    want = xes.lview(k, g)
    k.save(g, path, ser)
    at = k.last
    k.same(xes.lview(k, g), want, "the log that was written, afterwards", at)
    got = k.load(path, parser)
    k.same(len(got), 1, "number of logs read", k.last)
    xes.judge(k, got[0], want)
    k.ok(got[0] is not g, "reading returns the log that was written")
    return got[0]


def at_level(k, level, attrs):
    if level == "log":
        return k.log([k.trace([k.event()])], attrs)
    if level == "trace":
        return k.log([k.trace([k.event()], attrs)])
    return k.log([k.trace([k.event(*attrs)])])


def run(k):
    T = lambda label, f, **kw: k.scenario(label, lambda k: trip(k, f(k)), **kw)
    for level in ("log", "trace", "event"):
        for kd in ALL:
            for how in ("plain", "known", "two", "unknown"):
                T("one/%s/%s/%s" % (level, kd, how), lambda k, l=level, kd=kd, h=how: at_level(k, l, [A(k, kd, "a", h)]))
        T("all/" + level, lambda k, l=level: at_level(k, l, [A(k, kd, "a%d" % i) for i, kd in enumerate(ALL)]))
        T("all-reversed/" + level, lambda k, l=level: at_level(
            k, l, [A(k, kd, "a%d" % i, "known") for i, kd in enumerate(reversed(ALL))]))
    for z in ("naive", "+", "-", "named"):
        def zoned(k, z=z):
            tz = {"naive": lambda: "naive", "+": lambda: k.zone("z", 1), "-": lambda: k.zone("z", -1),
                  "named": lambda: k.named_zone("CEST", 120)}[z]()
            return at_level(k, "event", [A(k, "timestamp", "t", tz=tz)])
        T("zone/" + z, zoned)

    # nesting ----------------------------------------------------------------
    def nest(k, level, kinds, how="plain"):
        top = cur = A(k, kinds[0], "n0", how)
        for i, kd in enumerate(kinds[1:], 1):
            n = A(k, kd, "n%d" % i, how)
            k.put(cur, n)
            k.put(cur, A(k, "literal", "s%d" % i))
            cur = n
        return at_level(k, level, [A(k, "literal", "before"), top, A(k, "discrete", "after")])
    for level in ("log", "trace", "event"):
        for kd in LEAF:
            T("nested/%s/%s" % (level, kd), lambda k, l=level, kd=kd: nest(k, l, [kd, "literal"]))
            T("nested3/%s/%s" % (level, kd), lambda k, l=level, kd=kd: nest(k, l, [kd, "discrete", kd, "boolean-true"]))
    for a in LEAF:
        for b in LEAF:
            T("nested/%s-in-%s" % (b, a), lambda k, a=a, b=b: nest(k, "event", [a, b], "known"))

    # collections ------------------------------------------------------------
    def coll(k, kd, members, level="event", nested=False, around=True):
        c = A(k, kd, "c")
        for i, m in enumerate(members):
            x = A(k, m, "m%d" % i, "plain" if i % 2 else "known")
            if m in ("list", "container"):
                for j, n in enumerate(LEAF[:3]):
                    k.get(x, "add_to_collection", A(k, n, "m%d.%d" % (i, j)))
            elif nested:
                k.put(x, A(k, "literal", "m%d.n" % i))
                k.put(k.attr_of(x, k.get(k.attrs(x)[0][1], "get_key")), A(k, "discrete", "m%d.n2" % i))
            k.get(c, "add_to_collection", x)
        return at_level(k, level, ([A(k, "literal", "before")] if around else []) + [c] + (
            [A(k, "float" if False else "continuous", "after")] if around else []))
    for kd in ("list", "container"):
        T("%s/empty" % kd, lambda k, kd=kd: coll(k, kd, []))
        for m in ALL:
            T("%s/of-%s" % (kd, m), lambda k, kd=kd, m=m: coll(k, kd, [m]))
            T("%s/of-three-%s" % (kd, m), lambda k, kd=kd, m=m: coll(k, kd, [m, m, m]))
        for level in ("log", "trace", "event"):
            T("%s/all-kinds/%s" % (kd, level), lambda k, kd=kd, l=level: coll(k, kd, ALL, l))
            T("%s/nested/%s" % (kd, level), lambda k, kd=kd, l=level: coll(k, kd, LEAF, l, True))

    def same_key(k, kd):
        c = A(k, kd, "c")
        key = xes.key(k, "key")
        for i, m in enumerate(("literal", "literal", "discrete", "literal")):
            kw = {"excl": xes.BREAKS} if m == "literal" else {}
            k.get(c, "add_to_collection", k.attr(m, key, name="m%d" % i, **kw))
        return at_level(k, "trace", [c, A(k, "literal", "after")])

    def deep(k, kd, n):
        top = cur = A(k, kd, "c0")
        for i in range(1, n):
            d = A(k, "container" if (i % 2) == (kd == "list") else "list", "c%d" % i)
            k.get(cur, "add_to_collection", A(k, "literal", "b%d" % i))
            k.get(cur, "add_to_collection", d)
            k.get(cur, "add_to_collection", A(k, "discrete", "a%d" % i))
            cur = d
        k.get(cur, "add_to_collection", A(k, "timestamp", "last"))
        return at_level(k, "event", [top, A(k, "literal", "after")])

    def in_nested(k, kd):
        a = A(k, "literal", "a")
        c = A(k, kd, "c")
        k.get(c, "add_to_collection", A(k, "literal", "m"))
        k.put(a, c)
        k.put(a, A(k, "discrete", "d"))
        return at_level(k, "event", [a, A(k, "literal", "after")])
    for kd in ("list", "container"):
        T("%s/same-key" % kd, lambda k, kd=kd: same_key(k, kd))
        for n in (2, 3, 4):
            T("%s/deep/%d" % (kd, n), lambda k, kd=kd, n=n: deep(k, kd, n))
        T("%s/nested-in-attribute" % kd, lambda k, kd=kd: in_nested(k, kd))

    # traces and events ------------------------------------------------------
    def shape(k, sizes):
        ts = []
        for i, n in enumerate(sizes):
            ts.append(k.trace([k.event(A(k, "literal", "e%d.%d" % (i, j)), A(k, "timestamp", "t%d.%d" % (i, j)))
                               for j in range(n)], [A(k, "literal", "t%d" % i)]))
        return k.log(ts, [A(k, "literal", "g")])
    for sizes in ((), (0,), (1,), (2,), (3,), (0, 0), (0, 2), (2, 0), (2, 1, 3), (1, 1, 1, 1)):
        T("shape/" + "-".join(map(str, sizes)), lambda k, s=sizes: shape(k, s))
        T("shape/cold/" + "-".join(map(str, sizes)), lambda k, s=sizes: shape(k, s), warm=False)

    def bare(k, sizes):
        return k.log([k.trace([k.event() for _ in range(n)]) for n in sizes])
    for sizes in ((0,), (1,), (0, 0), (2, 3), (2, 0, 1), (0, 1), (1, 0)):
        T("bare/" + "-".join(map(str, sizes)), lambda k, s=sizes: bare(k, s))

    def same_values(k):
        key = xes.key(k, "key")
        v = k.text("v", excl=xes.BREAKS)
        mk = lambda: k.event(k.attr("literal", key, v))
        return k.log([k.trace([mk(), mk()]), k.trace([mk(), mk()])])
    T("equal-events", same_values)

    # many of everything: the guarantees hold for every number and every depth ----
    def many(k, what, n):
        num = lambda i, kd="literal": k.attr(
            kd, "k%d" % i, name="v%d" % i, **({"excl": xes.BREAKS} if kd == "literal" else {}))
        ev = lambda i: k.event(k.attr("literal", "n", name="e%d" % i, excl=xes.BREAKS), k.attr("discrete", "i", i))
        if what == "events":
            return k.log([k.trace([ev(i) for i in range(n)]), k.trace([ev(n)])])
        if what == "traces":
            return k.log([k.trace([ev(i)] if i % 3 else [], [k.attr("discrete", "t", i)]) for i in range(n)])
        if what == "matrix":
            return k.log([k.trace([ev(i * n + j) for j in range(n)], [k.attr("discrete", "t", i)]) for i in range(n)])
        if what in ("log", "trace", "event"):
            return at_level(k, what, [num(i, LEAF[i % len(LEAF)]) for i in range(n)])
        if what == "siblings":
            a = k.attr("literal", "a", "v")
            for i in range(n):
                k.put(a, num(i, LEAF[i % len(LEAF)]))
            return at_level(k, "event", [a, k.attr("literal", "after", "w")])
        if what in ("list", "container"):
            c = A(k, what, "c")
            for i in range(n):
                k.get(c, "add_to_collection", num(i, LEAF[i % len(LEAF)]))
            return at_level(k, "event", [c, k.attr("literal", "after", "w")])
        if what == "depth":
            top = cur = num(0)
            for i in range(1, n):
                a = num(i, LEAF[i % len(LEAF)])
                k.put(cur, a)
                cur = a
            return at_level(k, "event", [top, k.attr("literal", "after", "w")])
        if what == "collections":
            top = cur = A(k, "list", "c")
            for i in range(1, n):
                d = k.attr("container" if i % 2 else "list", "c%d" % i)
                k.get(cur, "add_to_collection", d)
                k.get(cur, "add_to_collection", num(i))
                cur = d
            return at_level(k, "trace", [top, k.attr("literal", "after", "w")])
    for what in ("events", "traces", "log", "trace", "event", "siblings", "list", "container"):
        for n in SIZES + (BIG if what in ("events", "traces") else ()):
            T("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n))
    for n in (5, 11, 17):
        T("many/matrix/%d" % n, lambda k, n=n: many(k, "matrix", n))
    for what in ("depth", "collections"):
        for n in DEPTHS:
            T("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n))
    for n in LENGTHS:
        T("long/text/%d" % n, lambda k, n=n: at_level(k, "event", [k.attr("literal", "k", "x" * n + "y")]))
        T("long/key/%d" % n, lambda k, n=n: at_level(k, "event", [k.attr("literal", "k" * n + "l", "v")]))

    # values that look like something else ----
    def texts(k, level):
        return at_level(k, level, [k.attr("literal", "k%d" % i, v) for i, v in enumerate(TEXTS)] + [k.attr("literal", "empty", ""),
                                                                                              k.attr("literal", "blank", "  x  ")])
    for level in ("log", "trace", "event"):
        T("texts/" + level, lambda k, l=level: texts(k, l))

    # keys that mean something somewhere ----
    def known_keys(k, level, rot, nest):
        o = at_level(k, level, [])
        t = k.items(o)[0]
        keyed(k, {"log": o, "trace": t, "event": k.items(t)[0]}[level], rot, nest=nest)
        return o

    def known_members(k, kd, rot):
        c = A(k, kd, "c")
        x = k.event()
        for a in keyed(k, x, rot):
            k.get(c, "add_to_collection", a)
        return at_level(k, "event", [c, k.attr("literal", "after", "w")])
    for rot in range(len(LEAF)):
        for level in ("log", "trace", "event"):
            for nest in (False, True):
                T("keys/%s/%d/%s" % (level, rot, "nested" if nest else "flat"), lambda k, l=level, r=rot, n=nest: known_keys(k, l, r, n))
        for kd in ("list", "container"):
            T("keys/%s/%d" % (kd, rot), lambda k, kd=kd, r=rot: known_members(k, kd, r))

    # sequences of use -------------------------------------------------------
    def twice(k):
        s, p = k.new("XesXmlSerializer"), k.new("XesXmlParser")
        g1 = shape(k, (2, 1))
        g2 = coll(k, "list", ["literal", "discrete"])
        r1 = trip(k, g1, p, s, "/tmp/1.xes")
        r2 = trip(k, g2, p, s, "/tmp/2.xes")
        r3 = trip(k, g1, p, s, "/tmp/3.xes")
        k.ok(r1 is not r2 and r1 is not r3, "reading twice returns one log")
        xes.judge(k, r1, xes.lview(k, g1))
        trip(k, r1, p, s, "/tmp/4.xes")
        trip(k, k.m(r2, "clone"), p, s, "/tmp/5.xes")
    k.scenario("twice", twice)

    def registry(k):
        s = k.m(k.new("XSerializerRegistry"), "current_default")
        trip(k, shape(k, (1, 2)), "XUniversalParser", s, "/tmp/x." + k.items(k.m(s, "get_suffices"))[0])
    k.scenario("default-serializer", registry)
    k.scenario("universal", lambda k: trip(k, shape(k, (1, 2)), "XUniversalParser"))

    def binary(k):
        g = shape(k, (2,))
        want = xes.lview(k, g)
        out = k.openfile("/tmp/b.xes", "wb")
        k.m(k.new("XesXmlSerializer"), "serialize", g, out, True)
        at = k.last
        k.I.call(k.I.getattr(out, "close"), [])
        xes.judge(k, k.load("/tmp/b.xes")[0], want, at)
    k.scenario("in-bytes", binary)

    def breaks(k, level, kd):
        if kd == "value":
            a = k.attr("literal", xes.key(k, "key"), name="v")
        else:
            a = k.attr("literal", k.key("key", excl=":"), name="v", excl=xes.BREAKS)
        return at_level(k, level, [a])
    T("line-breaks/value", lambda k: breaks(k, "event", "value"))
    T("line-breaks/key", lambda k: breaks(k, "event", "key"))

    # documents by other programs: any case of the tags, unknown elements ignored
    def foreign(k, up):
        e = lambda tag, at=(), *c: k.elem(up(tag), at, *c)
        doc = e("log", {"xes.version": "1.0"}, e("string", {"key": "concept:name", "value": k.text("n")}),
                e("trace", {}, e("string", {"key": "concept:name", "value": k.text("t")}),
                  e("event", {}, e("int", {"key": "i", "value": "42"}), e("float", {"key": "f", "value": "2.5"}),
                    e("boolean", {"key": "b", "value": "TRUE"}), e("boolean", {"key": "c", "value": "false"}),
                    e("list", {"key": "l"}, e("string", {"key": "m", "value": "x"}))),
                  e("event", {}, e("string", {"key": "s", "value": ""}))))
        k.place("/tmp/f.xes", doc)
        g = k.load("/tmp/f.xes")[0]
        at = k.last
        d = xes.lview(k, g, False)
        k.same(len(d[1]), 1, "number of traces read", at)
        ev = d[1][0][1]
        k.same(len(ev), 2, "number of events read", at)
        got = {n: (a[0], a[3]) for n, a in ev[0]}
        k.same(sorted(got), ["b", "c", "f", "i", "l"], "attributes read", at)
        for n, w in (("i", ("XAttributeDiscrete", 42)), ("f", ("XAttributeContinuous", 2.5)), ("b", ("XAttributeBoolean", True)),
                     ("c", ("XAttributeBoolean", False))):
            k.same(got[n], w, "attribute %s read" % n, at)
        k.same(got["l"][1][0][3], "x", "member read", at)
        k.same({n: a[3] for n, a in ev[1]}.get("s"), "", "empty text read", at)
        k.same([a[2] for n, a in xes.lview(k, g)[0]], [k.new("XConceptExtension")], "extension of a standard attribute read", at)
    for n, up in (("lower", str.lower), ("upper", str.upper), ("title", str.capitalize)):
        k.scenario("foreign/" + n, lambda k, up=up: foreign(k, up))


MIN_SCENARIOS = 200
