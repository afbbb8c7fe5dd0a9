"""Documents written, by abstract interpretation of the serializers: the tree of elements each writes, against the formats."""
from .. import libs
from ..terms import app, mk_str, run as digits, show
from .common import ALL, DEPTHS, LEAF, LENGTHS, SIZES, TEXTS, keyed, std_keys
from . import xes, c03
METHOD = ("Abstract interpretation of the four serializers on symbolic logs; the tree of elements each hands to the stream it is "
          "given is compared, element by element, with the tree the XES and MXML formats call for (written down in this check, "
          "not derived from the readers): names, XML attributes, texts in their lexical form, nesting and order.")
RULE = "tree(write(log)) == tree the format prescribes for log; exactly one document reaches the stream"
ASSUMES = ["texts hold no line breaks (C01 has the finding)", "years have four digits, UTC offsets whole minutes",
           "numbers are written as Python does (int, float finite)"]
TAG = {"literal": "string", "discrete": "int", "continuous": "float", "boolean-true": "boolean", "boolean-false": "boolean",
       "timestamp": "date", "id": "id", "list": "list", "container": "container"}
SERS = (("XesXmlSerializer", "/tmp/o.xes", False), ("XesXmlGZIPSerializer", "/tmp/o.xes.gz", True))
MSERS = (("XMxmlSerializer", "/tmp/o.mxml", False), ("XMxmlGZIPSerializer", "/tmp/o.mxml.gz", True))


def document(k, path, gz):
    """The tree of elements in the file."""
    k.ok(path in k.I.fs, "no document is written at %s" % path, k.last)
    if gz:
        f = k.I.call(k.client("import gzip\ndef o(p):\n    return gzip.open(p, 'rb')\n")["o"], [path])
    else:
        f = k.openfile(path, "r")
    return libs.sax_source(k.I, f)


def write(k, log, how, in_bytes=False):
    ser, path, gz = how
    s = k.new(ser)
    out = k.openfile(path, "wb" if in_bytes else "w")
    if in_bytes:
        k.m(s, "serialize", log, out, in_bytes=True)
    else:
        k.m(s, "serialize", log, out)
    at = k.last
    k.I.call(k.I.getattr(out, "close"), [])
    k.last = at
    return document(k, path, gz), at


def kids(e):
    return e.fields["children"].payload


def attribs(e):
    return {n: v for n, v in e.fields["attrib"].payload}


def tag(e):
    return e.fields["tag"]


def blank(t):
    return t is None or isinstance(t, str) and not t.strip()


def date_text(k, t):
    """The xs:dateTime texts that denote t to the millisecond."""
    P = [k.I.norm(libs.dt_part(t, p)) for p in libs.PARTS]
    ps = [digits(P[0], 4), "-", digits(P[1], 2), "-", digits(P[2], 2), "T", digits(P[3], 2), ":", digits(P[4], 2), ":",
          digits(P[5], 2), ".", digits(k.I.norm(libs.floordiv(P[6], 1000)), 3)]
    tz = libs.dt_tz(k.I, t)
    off = 0 if tz is None else k.I.norm(libs.tz_minutes(k.I, tz))
    if off == 0 and not hasattr(off, "args"):
        return [k.I.norm(mk_str(ps + [z])) for z in ("Z", "+00:00")]
    return [k.I.norm(mk_str(ps + libs.offset_text(k.I, off)))]


def value_text(k, kd, v):
    if kd == "timestamp":
        return date_text(k, v)
    if kd in ("boolean-true", "boolean-false"):
        return ["true" if kd == "boolean-true" else "false"]
    if kd == "id":
        t = k.I.to_str(k.get(v, "get_uuid"))
        return [k.I.norm(x) for x in (t, k.I.call(k.I.getattr(t, "upper"), []), k.I.call(k.I.getattr(t, "lower"), []))]
    if kd == "literal":
        return [k.I.norm(v)]
    return [k.I.norm(k.I.to_str(v))]


class A:
    """An attribute and the element the format calls for."""
    def __init__(self, k, kd, name, how="plain", tz="utc", value=None, subs=(), key=None):
        self.kd, self.subs = kd, subs
        self.k = xes.key(k, name + ".k", how) if key is None else key
        if value is None and kd not in ("list", "container"):
            kw = {"excl": xes.BREAKS} if kd == "literal" else {"tz": tz} if kd == "timestamp" else {}
            value = k.value(kd, name + ".v", **kw)
        self.v = value
        self.a = k.attr(kd, self.k, value, ext=xes.ext_of(k, how))
        for s in subs:
            if kd in ("list", "container"):
                k.m(self.a, "add_to_collection", s.a)
            else:
                k.put(self.a, s.a)

    def judge(self, k, e, at):
        k.same(tag(e), TAG[self.kd], "element written for an attribute of the kind %s" % self.kd, at)
        got = attribs(e)
        want = ["key"] + ([] if self.kd in ("list", "container") else ["value"])
        k.same(sorted(got), want, "XML attributes of <%s>" % tag(e), at)
        k.same(got["key"], self.k, "key written", at)
        if "value" in got:
            ws = value_text(k, self.kd, self.v)
            if len(ws) == 1:
                k.same(got["value"], ws[0], "text of the value in <%s>" % tag(e), at)
            else:
                k.ok(any(k.diff(got["value"], w) is None for w in ws),
                     "text of the value in <%s>: got %s, expected %s" % (tag(e), show(got["value"]), show(ws[0])), at)
        k.ok(blank(e.fields["text"]), "<%s> has a text" % tag(e), at)
        within(k, kids(e), self.subs, "<%s>" % tag(e), at)


def within(k, es, want, what, at):
    """The attribute elements es are those of want (in any order where they come from a map)."""
    k.same(len(es), len(want), "number of attribute elements in %s" % what, at)
    left = list(want)
    for e in es:
        key = attribs(e).get("key")
        m = [w for w in left if k.diff(key, w.k) is None]
        k.ok(bool(m), "an attribute of another key in %s: %s" % (what, show(key) if key is not None else "none"), at)
        left.remove(m[0])
        m[0].judge(k, e, at)


def put(k, o, *xs):
    for x in xs:
        k.put(o, x.a)
    return o


def run(k):
    def log_doc(k, root, at, head, attrs, traces):
        k.same(tag(root), "log", "root element", at)
        at_ = attribs(root)
        k.ok({"xes.version", "xes.features"} <= set(at_), "the log element lacks xes.version or xes.features", at)
        k.same(at_["xes.version"], "1.0", "xes.version", at)
        es = list(kids(root))
        k.ok(blank(root.fields["text"]), "the log element has a text", at)
        rank = {"extension": 0, "global": 1, "classifier": 2, "trace": 4}
        rs = [rank.get(tag(e), 3) for e in es]
        k.ok(rs == sorted(rs), "order of the parts of the log: %s" % ", ".join(str(tag(e)) for e in es), at)
        by = lambda r: [e for e, x in zip(es, rs) if x == r]
        exts, glob, cls = head
        got = sorted((tuple(sorted(attribs(e).items())) for e in by(0)), key=lambda x: str(x))
        k.same(len(got), len(exts), "number of <extension> elements", at)
        for g, w in zip(got, sorted((tuple(sorted(x.items())) for x in exts), key=lambda x: str(x))):
            k.same([n for n, _ in g], [n for n, _ in w], "XML attributes of <extension>", at)
            k.same([v for _, v in g], [v for _, v in w], "declaration of an extension", at)
        gs = by(1)
        k.same(sorted(str(attribs(e).get("scope")) for e in gs), sorted(glob), "scopes of the <global> elements", at)
        for e in gs:
            k.same(sorted(attribs(e)), ["scope"], "XML attributes of <global>", at)
            want = glob[attribs(e)["scope"]]
            k.same(len(kids(e)), len(want), "number of global attributes", at)
            for x, w in zip(kids(e), want):
                w.judge(k, x, at)
        k.same(len(by(2)), len(cls), "number of <classifier> elements", at)
        for e, (n, keys) in zip(by(2), cls):
            k.same(sorted(attribs(e)), ["keys", "name"], "XML attributes of <classifier>", at)
            k.same(attribs(e)["name"], n, "name of the classifier", at)
            k.same(attribs(e)["keys"], keys, "keys of the classifier", at)
            k.same(len(kids(e)), 0, "children of <classifier>", at)
        within(k, by(3), attrs, "<log>", at)
        ts = by(4)
        k.same(len(ts), len(traces), "number of <trace> elements", at)
        for e, (xs, evs) in zip(ts, traces):
            k.same(sorted(attribs(e)), [], "XML attributes of <trace>", at)
            own = [c for c in kids(e) if tag(c) != "event"]
            ev = [c for c in kids(e) if tag(c) == "event"]
            k.ok([tag(c) == "event" for c in kids(e)] == [False] * len(own) + [True] * len(ev),
                 "the attributes of a trace are not before its events", at)
            within(k, own, xs, "<trace>", at)
            k.same(len(ev), len(evs), "number of <event> elements", at)
            for c, w in zip(ev, evs):
                k.same(sorted(attribs(c)), [], "XML attributes of <event>", at)
                within(k, kids(c), w, "<event>", at)
                k.ok(blank(c.fields["text"]), "<event> has a text", at)

    LEAVES = [x for x in LEAF]

    def kind_(k, kd, level, how, ser, tz="utc", in_bytes=False, value=None):
        x = A(k, kd, "x", how, tz, value)
        if kd in ("list", "container"):
            x = A(k, kd, "x", how, subs=[A(k, "literal", "m1"), A(k, "discrete", "m2", subs=[A(k, "literal", "m3")]),
                                         A(k, "list", "m4", subs=[A(k, "boolean-true", "m5")]), A(k, "container", "m6")])
        y = A(k, "literal", "y")
        e = k.event()
        t = k.trace([e])
        g = k.log([t])
        put(k, {"log": g, "trace": t, "event": e}[level], x, y)
        own = lambda l: [x, y] if l == level else []
        root, at = write(k, g, ser, in_bytes)
        log_doc(k, root, at, ([], {}, []), own("log"), [(own("trace"), [own("event")])])
    for kd in ALL:
        for level in ("log", "trace", "event"):
            for ser in SERS:
                k.scenario("xes/attribute/%s/%s/%s" % (kd, level, ser[0]), lambda k, a=(kd, level, "plain", ser): kind_(k, *a))
            k.scenario("xes/bytes/%s/%s" % (kd, level), lambda k, a=(kd, level, "plain", SERS[0]): kind_(k, *a, in_bytes=True))
        for how in ("known", "two", "unknown"):
            k.scenario("xes/key/%s/%s" % (kd, how), lambda k, kd=kd, how=how: kind_(k, kd, "event", how, SERS[0]))
    from .c23 import ZONES

    def zone(k, z):
        return k.zone("z", 1 if z[0] == "+" else -1) if z in ("+sym", "-sym") else "naive" if z == "naive" else (
            k.named_zone("CEST", 120) if z == "named+" else k.named_zone("NST", -150) if z == "named-" else
            k.named_zone("GMT", 0) if z == "named0" else app("tz", (ZONES[z],), "tz"))
    for z in ["naive", "+sym", "-sym", "named+", "named-", "named0"] + sorted(ZONES):
        k.scenario("xes/date/" + z, lambda k, z=z: kind_(k, "timestamp", "event", "plain", SERS[0], zone(k, z)))
    ODD = {"literal": ("", " ", "  two  words ", "<a href=\"x\">&amp;</a>", "]]>", "true", "1", "2020-01-01T00:00:00.000Z", "NaN", "äöü",
                       "\U0001f600", "%s {0}", "a;b|c,d"),
           "discrete": (0, 1, -1, 10 ** 18, -(2 ** 63), 7), "continuous": (0.0, 1.0, -0.5, 1e300, 1e-07, 0.1, 123456789.25)}
    for kd, vs in ODD.items():
        for i, v in enumerate(vs):
            k.scenario("xes/value/%s/%d" % (kd, i), lambda k, kd=kd, v=v: kind_(k, kd, "event", "plain", SERS[0], value=v))

    def nested(k, level, ser):
        x = A(k, "literal", "x", subs=[A(k, "timestamp", "n1", subs=[A(k, "continuous", "n2", subs=[A(k, "id", "n3")]),
                                                                      A(k, "boolean-false", "n4")]), A(k, "discrete", "n5")])
        e = k.event()
        t = k.trace([e])
        g = k.log([t])
        put(k, {"log": g, "trace": t, "event": e}[level], x)
        own = lambda l: [x] if l == level else []
        root, at = write(k, g, ser)
        log_doc(k, root, at, ([], {}, []), own("log"), [(own("trace"), [own("event")])])
    for level in ("log", "trace", "event"):
        for ser in SERS:
            k.scenario("xes/nested/%s/%s" % (level, ser[0]), lambda k, a=(level, ser): nested(k, *a))

    def shape(k, counts, ser):
        A_ = lambda n: A(k, "literal", n)
        traces, want = [], []
        for i, c in enumerate(counts):
            evs, ws = [], []
            for j in range(c):
                xs = [A_("e%d.%d.%d" % (i, j, q)) for q in range(j % 3)]
                evs.append(put(k, k.event(), *xs))
                ws.append(xs)
            xs = [A_("t%d" % i)] if i % 2 else []
            traces.append(put(k, k.trace(evs), *xs))
            want.append((xs, ws))
        g = k.log(traces)
        root, at = write(k, g, ser)
        log_doc(k, root, at, ([], {}, []), [], want)
    for counts in ((), (0,), (1,), (0, 0), (3,), (2, 0, 1), (1, 4, 2)):
        for ser in SERS:
            k.scenario("xes/shape/%s/%s" % ("-".join(map(str, counts)) or "none", ser[0]), lambda k, a=(counts, ser): shape(k, *a))

    # many elements, deep ones, long texts
    class Given:
        """An attribute with a given key and value: <string key value>."""
        def __init__(self, k, key, v, *subs):
            self.a, self.k, self.subs, self.want = k.attr("literal", key, v), key, subs, (key, v)
            for s in subs:
                k.put(self.a, s.a)

        def judge(self, k, e, at):
            k.same(tag(e), "string", "element of an attribute", at)
            k.same(sorted(attribs(e)), ["key", "value"], "XML attributes of <string>", at)
            k.same((attribs(e)["key"], attribs(e)["value"]), self.want, "key and value of <string>", at)
            k.same(len(kids(e)), len(self.subs), "number of children of <string>", at)
            for c, s in zip(kids(e), self.subs):
                s.judge(k, c, at)

    def known_keys(k, ser, level):
        """keys that mean something somewhere, on every level"""
        xs = lambda j: [Given(k, x, "v%d" % i, *([Given(k, y, "w", *([Given(k, x, "u")] if i % 2 else []))
                                                 for y, _ in std_keys()[i % 7::7]] if i % 5 == j % 5 else []))
                        for i, (x, _) in enumerate(std_keys())]
        al, at, ae = [xs(j) if level == lv else [] for j, lv in enumerate(("log", "trace", "event"))]
        head = ([], {"trace": xs(3), "event": xs(4)}, []) if level == "globals" else ([], {}, [])
        g = k.log()
        put(k, g, *al)
        for sc, x in head[1].items():
            for y in x:
                k.append(k.get(g, "get_global_%s_attributes" % sc), y.a)
        k.append(g, put(k, k.trace([put(k, k.event(), *ae), k.event()]), *at))
        root, here = write(k, g, ser)
        log_doc(k, root, here, head, al, [(at, [ae, []])])
    for ser in SERS:
        for level in ("log", "trace", "event", "globals"):
            k.scenario("xes/keys/%s/%s" % (ser[0], level), lambda k, a=(ser, level): known_keys(k, *a))

    def sized(k, what, n, ser):
        G = lambda i, *subs: Given(k, "k%03d" % i, "v%d" % i, *subs)
        at_log, traces, head, g = [], [], ([], {}, []), k.log()
        row = lambda: [G(i) for i in range(n)]
        if what == "traces":
            traces = [([G(i)], [[G(i)]]) for i in range(n)]
        elif what == "events":
            traces = [([], [[G(i)] for i in range(n)])]
        elif what == "attributes":
            at_log, traces = row(), [(row(), [row()])]
        elif what == "nested":
            at_log, traces = [Given(k, "top", "v", *row())], [([], [[Given(k, "top", "v", *row())]])]
        elif what == "deep":
            def x():
                a = G(0)
                for i in range(n):
                    a = G(i, a)
                return a
            at_log, traces = [x()], [([x()], [[x()]])]
        elif what == "long":
            x = [Given(k, "k", "x" * n), Given(k, "l" * n, "a b" * (n // 3)), Given(k, "m", "y" * (n - 1) + ".")]
            at_log, traces = x, [(x, [x])]
        elif what == "texts":
            x = [Given(k, "k%03d" % i, v, Given(k, "n", v)) for i, v in enumerate(TEXTS)]
            at_log, traces = x, [(x, [x])]
        elif what == "globals":
            head = ([], {"trace": row(), "event": row()}, [])
        else:
            keys = ["k%d" % i for i in range(n)]
            head = ([], {}, [("c", " ".join(keys))] if what == "keys" else [("c%d" % i, " ".join(keys[i % 4:i + 1] or keys[:1])) for i in range(n)])
        put(k, g, *at_log)
        for xs, evs in traces:
            t = put(k, k.trace([put(k, k.event(), *e) for e in evs]), *xs)
            k.append(g, t)
        for sc, xs in head[1].items():
            for x in xs:
                k.append(k.get(g, "get_global_%s_attributes" % sc), x.a)
        for c, ks in head[2]:
            k.append(k.get(g, "get_classifiers"), k.new("XEventAttributeClassifier", c, k.lst(*ks.split(" "))))
        root, at = write(k, g, ser)
        log_doc(k, root, at, head, at_log, traces)
    for what, ns in (("traces", SIZES), ("events", SIZES), ("attributes", SIZES), ("nested", SIZES), ("globals", SIZES), ("classifiers", SIZES),
                     ("keys", SIZES), ("deep", DEPTHS), ("long", LENGTHS), ("texts", (1,))):
        for n in ns:
            k.scenario("xes/many-%s/%d" % (what, n), lambda k, a=(what, n, SERS[0]): sized(k, *a))

    def header(k, exts, gt, ge, cls, ser):
        g = k.log([k.trace([k.event()])])
        want = []
        for x in exts:
            e = k.new(x)
            k.m(k.get(g, "get_extensions"), "add", e)
            want.append({"name": k.m(e, "get_name"), "prefix": k.m(e, "get_prefix"), "uri": k.I.call(k.I.getattr(
                k.m(e, "get_uri"), "geturl"), [])})
        glob = {}
        for scope, kds in (("trace", gt), ("event", ge)):
            xs = [A(k, kd, "%s%d" % (scope, i), subs=[A(k, "literal", "%s%d.s" % (scope, i))]) for i, kd in enumerate(kds)]
            for x in xs:
                k.append(k.get(g, "get_global_%s_attributes" % scope), x.a)
            if xs:
                glob[scope] = xs
        cs = []
        for i, ws in enumerate(cls):
            n = k.phrase("cname%d" % i, excl=xes.BREAKS)
            c = k.new("XEventAttributeClassifier", n, k.lst(*ws))
            k.append(k.get(g, "get_classifiers"), c)
            cs.append((n, " ".join("'%s'" % w if " " in w else w for w in ws)))
        root, at = write(k, g, ser)
        log_doc(k, root, at, (want, glob, cs), [], [([], [[]])])
    HEADS = ((("XConceptExtension",), (), (), ()), (("XConceptExtension", "XTimeExtension", "XCostExtension"), (), (), ()),
             ((), ("literal",), (), ()), ((), (), ("timestamp", "discrete"), ()), ((), ("literal", "list"), ("boolean-true", "id"), ()),
             ((), (), (), (("concept:name",),)), ((), (), (), (("a", "b"), ("one key", "two"), ("x", "long key name"))),
             (("XTimeExtension",), ("container",), ("continuous", "literal", "boolean-false"), (("b", "a", "b c"),)))
    for i, h in enumerate(HEADS):
        for ser in SERS:
            k.scenario("xes/header/%d/%s" % (i, ser[0]), lambda k, h=h, ser=ser: header(k, *h, ser))

    # MXML --------------------------------------------------------------------
    def mdata(k, es, want, what, at):
        """Attribute elements under <Data>: name and text."""
        got = [x for d in es if tag(d) == "Data" for x in kids(d)]
        k.same(len([d for d in es if tag(d) == "Data"]) <= 1, True, "at most one <Data> in %s" % what, at)
        k.same(len(got), len(want), "number of <Attribute> elements in %s" % what, at)
        left = list(want)
        for e in got:
            k.same(tag(e), "Attribute", "element under <Data>", at)
            n = attribs(e).get("name")
            m = [w for w in left if k.diff(n, w[0]) is None]
            k.ok(bool(m), "an <Attribute> of another name in %s: %s" % (what, show(n)), at)
            left.remove(m[0])
            k.same(e.fields["text"], m[0][1], "text of <Attribute> %s" % show(n), at)
            k.same(sorted(a for a in attribs(e)), ["modelReference", "name"] if m[0][2] is not None else ["name"],
                   "XML attributes of <Attribute>", at)
            if m[0][2] is not None:
                k.same(attribs(e)["modelReference"], m[0][2], "model reference of <Attribute>", at)
            k.same(len(kids(e)), 0, "children of <Attribute>", at)

    def ref(k, e, want, what, at):
        if want is None:
            k.ok("modelReference" not in attribs(e), "<%s> has a model reference" % what, at)
        else:
            k.same(attribs(e).get("modelReference"), want, "model reference of <%s>" % what, at)

    def std(k, o):
        """What <Data> says of the attributes of o."""
        return [(n, k.I.norm(k.I.to_str(a)), c03.ref_of(k, a)) for n, a in k.attrs(o) if n != "semantic:modelReference"]

    def mxml(k, events, ser, lname=True, tname=True, data=(), refs=False):
        evs = [c03.event(k, "e%d" % i, **kw) for i, kw in enumerate(events)]
        t = k.trace([e for e, _ in evs])
        tn = c03.name(k, "tn") if tname else None
        ln = c03.name(k, "ln") if lname else None
        g = k.log([t])
        for o, n in ((t, tn), (g, ln)):
            if n is not None:
                c03.put(k, o, "literal", "concept:name", n)
            for i, kd in enumerate(data):
                c03.datum(k, o, kd, "%s.d%d" % ("t" if o is t else "g", i), None)
        r = {}
        if refs:
            for o in (g, t):
                r[o.oid] = k.word("ref%d" % len(r), excl=c03.X)
                c03.put(k, o, "literal", "semantic:modelReference", r[o.oid])
        root, at = write(k, g, ser)
        k.same(tag(root), "WorkflowLog", "root element", at)
        k.same([tag(e) for e in kids(root)], ["Source", "Process"], "children of <WorkflowLog>", at)
        k.ok("program" in attribs(kids(root)[0]), "<Source> names no program", at)
        p = kids(root)[1]
        k.ok("id" in attribs(p), "<Process> has no id", at)
        if lname:
            k.same(attribs(p)["id"], ln, "id of <Process>", at)
        ref(k, p, r.get(g.oid), "Process", at)
        k.same([tag(e) for e in kids(p) if tag(e) != "Data"], ["ProcessInstance"], "children of <Process>", at)
        mdata(k, kids(p), std(k, g), "<Process>", at)
        i = [e for e in kids(p) if tag(e) == "ProcessInstance"][0]
        k.ok("id" in attribs(i), "<ProcessInstance> has no id", at)
        if tname:
            k.same(attribs(i)["id"], tn, "id of <ProcessInstance>", at)
        ref(k, i, r.get(t.oid), "ProcessInstance", at)
        mdata(k, kids(i), std(k, t), "<ProcessInstance>", at)
        ates = [e for e in kids(i) if tag(e) != "Data"]
        k.same([tag(e) for e in ates], ["AuditTrailEntry"] * len(evs), "children of <ProcessInstance>", at)
        for (e, (nm, tr, who, tm, d, rf)), x in zip(evs, ates):
            mdata(k, kids(x), std(k, e), "<AuditTrailEntry>", at)
            by = {}
            for c in kids(x):
                by.setdefault(tag(c), []).append(c)
            by.pop("Data", None)
            k.same(sorted(by), sorted(["WorkflowModelElement", "EventType"] + ["Originator"] * (who is not None) +
                                      ["Timestamp"] * (tm is not None)), "children of <AuditTrailEntry>", at)
            order = [tag(c) for c in kids(x) if tag(c) in ("WorkflowModelElement", "EventType")]
            k.same(order, ["WorkflowModelElement", "EventType"], "order in <AuditTrailEntry>", at)
            k.ok(all(len(v) == 1 for v in by.values()), "an element occurs twice in <AuditTrailEntry>", at)
            k.same(by["WorkflowModelElement"][0].fields["text"], nm, "text of <WorkflowModelElement>", at)
            ref(k, by["WorkflowModelElement"][0], rf.get("event"), "WorkflowModelElement", at)
            y = by["EventType"][0]
            if isinstance(tr, str) and tr in c03.KNOWN:
                k.same(y.fields["text"], tr, "text of <EventType>", at)
                k.ok("unknowntype" not in attribs(y), "a known event type with an unknowntype", at)
            else:
                k.same(y.fields["text"], "unknown", "text of <EventType>", at)
                k.same(attribs(y).get("unknowntype"), tr, "unknowntype of <EventType>", at)
            ref(k, y, rf.get("transition"), "EventType", at)
            if who is not None:
                k.same(by["Originator"][0].fields["text"], who, "text of <Originator>", at)
                ref(k, by["Originator"][0], rf.get("originator"), "Originator", at)
            if tm is not None:
                ok = date_text(k, tm)
                got = by["Timestamp"][0].fields["text"]
                k.ok(any(k.diff(got, w) is None for w in ok), "text of <Timestamp>: got %s, expected %s" % (show(got), show(ok[0])), at)
    def mkeys(k, ser, level, rot):
        g, w = c03.log(k, [([], [{}])])
        t = k.items(g)[0]
        e = k.items(t)[0]
        keyed(k, {"log": g, "trace": t, "event": e}[level], rot, skip=c03.STD[:7])
        root, at = write(k, g, ser)
        p = kids(root)[1]
        i = [x for x in kids(p) if tag(x) == "ProcessInstance"][0]
        x = [x for x in kids(i) if tag(x) == "AuditTrailEntry"][0]
        for o, d in ((g, p), (t, i), (e, x)):
            mdata(k, kids(d), std(k, o), "<%s>" % tag(d), at)
    for ser in MSERS:
        for level in ("log", "trace", "event"):
            for rot in (0, 2):
                k.scenario("mxml/keys/%s/%s/%d" % (ser[0], level, rot), lambda k, a=(ser, level, rot): mkeys(k, *a))
    for ser in MSERS:
        for tr in c03.KNOWN + ("COMPLETE", "Start", "own type", None):
            k.scenario("mxml/type/%s/%s" % (tr or "none", ser[0]), lambda k, tr=tr, s=ser: mxml(k, [dict(trans=tr)], s))
        for who in ("org:resource", "org:role", "org:group", None):
            for tz in ("utc", None):
                k.scenario("mxml/parts/%s/%s/%s" % (who or "none", tz or "none", ser[0]),
                           lambda k, who=who, tz=tz, s=ser: mxml(k, [dict(who=who, tz=tz), dict(who=None, tz=None), dict()], s))
        for kd in ALL[:-2]:
            k.scenario("mxml/data/%s/%s" % (kd, ser[0]), lambda k, kd=kd, s=ser: mxml(k, [dict(data=(kd, "literal"))], s, data=(kd,)))
        k.scenario("mxml/refs/" + ser[0], lambda k, s=ser: mxml(k, [dict(refs=True), dict(), dict(refs=True, data=("literal",))], s, refs=True))
        for ln in (True, False):
            for tn in (True, False):
                k.scenario("mxml/names/%d%d/%s" % (ln, tn, ser[0]), lambda k, ln=ln, tn=tn, s=ser: mxml(k, [dict()], s, ln, tn))
    for z in ["naive", "+sym", "-sym", "named-", "named0"] + sorted(ZONES):
        k.scenario("mxml/date/" + z, lambda k, z=z: mxml(k, [dict(tz=zone(k, z))], MSERS[0]))


MIN_SCENARIOS = 100
