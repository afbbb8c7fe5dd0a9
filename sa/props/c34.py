"""Documents made by other programs, by abstract interpretation of the readers on variants of a document that mean the same."""
import itertools

from .common import ALL, DEPTHS, LENGTHS, SIZES
from . import xes, c03
METHOD = ("Abstract interpretation of the XES and MXML readers on abstract documents and on their variants that mean the same: "
          "elements the format does not know (leaves, with text, nested) at every position, other spellings of element names, "
          "other orders of attributes and children, XML attributes the format does not know, the <values> wrapper of lists; the log "
          "read is compared, term by term, with the one the plain document gives, and that one with what the document says.")
RULE = "read(variant of document) == read(document) == what the document says"
ASSUMES = ["XES: an element the format does not know holds no XES elements (other than <values> in a list)",
           "MXML: no text between elements other than white space"]


def run(k):
    T = lambda texts, k, n: texts.setdefault(n, k.text(n))

    def mk(k, tag, kids, spell, extra, at):
        """An element in the spelling and with the additions of the variant."""
        at = dict(at)
        if extra.get("attrs"):
            at = dict(reversed(list(at.items())))
            at.update({"comment": "n/a", "xml:lang": "en", "Key": "wrong", "VALUE": "wrong", "PREFIX": "cost", "Scope": "event"})
        return k.elem(spell(tag), at, *kids)

    def alien(k, form):
        e = k.elem
        return {"leaf": lambda: [e("alien", {"key": "k", "value": "v"})], "text": lambda: [e("alien", {}, text="some text")],
                "nested": lambda: [e("alien", {"key": "k"}, e("inner", {"value": "v"}, e("deep", {}), e("deep", {}, text="x")))],
                "similar": lambda: [e("strings", {"key": "k", "value": "v"}), e("dates", {"key": "k", "value": "v"}),
                                    e("traces", {}), e("events", {}), e("logs", {}), e("value", {"key": "k", "value": "v"})],
                "namespaced": lambda: [e("x:string", {"key": "k", "value": "v"}), e("x:event", {}), e("x:trace", {})]}[form]()

    PLACES = ("log-first", "log", "log-last", "trace-first", "trace-last", "event-first", "event-last", "nested", "list", "list-last",
              "container", "global", "between-events", "between-traces", "empty-event", "id")

    def build(k, texts, where=(), form=None, spell=lambda t: t, wrap=False, **extra):
        u = lambda w: alien(k, form) if w in where else []
        E = lambda tag, at=(), *kids: mk(k, tag, kids, spell, extra, dict(at))
        s = lambda key, *kids: E("string", {"key": key, "value": T(texts, k, key)}, *kids)
        members = [s("m1"), E("int", {"key": "m2", "value": "12"}), s("m1b")] + u("list-last")
        lst = E("list", {"key": "members"}, *(u("list") + ([E("values", {}, *members)] if wrap else members)))
        cont = E("container", {"key": "box"}, E("float", {"key": "f", "value": "1.5"}), *(u("container") + [
            E("list", {"key": "inner"}, *([E("values", {}, s("deep"))] if wrap else [s("deep")]))]))
        e1 = E("event", {}, *(u("event-first") + [
            s("concept:name", *(u("nested") + [s("n1"), E("boolean", {"key": "n2", "value": "true"}, s("n3"))])),
            E("date", {"key": "time:timestamp", "value": "2020-03-01T10:20:30.456+02:00"}), lst, cont,
            E("id", {"key": "identity:id", "value": "12345678-1234-1234-1234-123456789abc"}, *u("id"))] + u("event-last")))
        e2 = E("event", {}, *u("empty-event"))
        e3 = E("event", {}, s("third"), E("date", {"key": "time:timestamp", "value": "2019-03-01T10:20:30.456Z"}))
        t1 = E("trace", {}, *(u("trace-first") + [s("t.name"), e1] + u("between-events") + [e2, e3] + u("trace-last")))
        t2 = E("trace", {}, s("t2.name"), e3_(k, E, s))
        head = [E("extension", {"name": "Concept", "prefix": "concept", "uri": "http://www.xes-standard.org/concept.xesext"}),
                E("extension", {"name": "Time", "prefix": "time", "uri": "http://www.xes-standard.org/time.xesext"}),
                E("global", {"scope": "trace"}, *(u("global") + [s("gt")])),
                E("global", {"scope": "event"}, s("ge", s("gen")), E("int", {"key": "gi", "value": "3"})),
                E("classifier", {"name": "Activity", "keys": "concept:name lifecycle:transition"})]
        return E("log", {"xes.version": "1.0", "xes.features": "nested-attributes", "openxes.version": "1.0RC7"}, *(
            u("log-first") + head + u("log") + [s("l.name"), t1] + u("between-traces") + [t2] + u("log-last")))

    def e3_(k, E, s):
        return E("event", {}, s("fourth"))

    def whole(k, g):
        return (xes.lview(k, g), tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_trace_attributes"))),
                tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_event_attributes"))),
                tuple((k.get(c, "name"), tuple(k.items(k.get(c, "get_defining_attribute_keys")))) for c in k.items(k.get(g, "get_classifiers"))),
                tuple(sorted(k.m(x, "get_prefix") for x in k.items(k.get(g, "get_extensions")))),
                tuple(sorted((e[0], e[1]) for e in k.get(g, "get_features").payload)))

    WHAT = ("contents", "global trace attributes", "global event attributes", "classifiers", "extensions", "features")

    def compare(k, doc, ref):
        k.place("/tmp/ref.xes", ref)
        r = k.load("/tmp/ref.xes", "XesXmlParser")
        want = whole(k, r[0])
        k.place("/tmp/var.xes", doc)
        got = k.load("/tmp/var.xes", "XesXmlParser")
        at = k.last
        k.same(len(got), 1, "number of logs read", at)
        v = whole(k, got[0])
        xes.judge(k, got[0], want[0], at)
        for i in range(1, 6):
            k.same(v[i], want[i], WHAT[i], at)
        return got[0], at

    def plain(k):
        x = {}
        k.place("/tmp/p.xes", build(k, x))
        g = k.load("/tmp/p.xes", "XesXmlParser")[0]
        at = k.last
        d = lambda y, mo, dd, h, mi, s, ms, z: ("time", (y, mo, dd, h, mi, s), ms, z)
        cn, tm, ide = k.new("XConceptExtension"), k.new("XTimeExtension"), k.new("XIdentityExtension")
        lit = lambda key, ext=None, *n: (key, ("XAttributeLiteral", key, ext, x[key], tuple(n)))
        e1 = {"concept:name": lit("concept:name", cn, lit("n1"), ("n2", (k.CLASSES["boolean-true"], "n2", None, True, (lit("n3"),)))),
              "time:timestamp": ("time:timestamp", ("XAttributeTimestamp", "time:timestamp", tm, d(2020, 3, 1, 10, 20, 30, 456, 120), ())),
              "members": ("members", ("XAttributeList", "members", None, (
                  lit("m1")[1], ("XAttributeDiscrete", "m2", None, 12, ()), lit("m1b")[1]), ())),
              "box": ("box", ("XAttributeContainer", "box", None, (
                  ("XAttributeContinuous", "f", None, 1.5, ()), ("XAttributeList", "inner", None, (lit("deep")[1],), ())), ()))}
        ts = k.items(g)
        k.same(len(ts), 2, "number of traces", at)
        ev = k.items(ts[0])
        k.same(len(ev), 3, "number of events", at)
        k.same(len(k.items(ts[1])), 1, "number of events of the second trace", at)
        got = dict(xes.views(k, ev[0]))
        k.same(sorted(got), sorted(list(e1) + ["identity:id"]), "attributes of the event", at)
        for n in e1:
            k.same(got[n], e1[n][1], "attribute %s" % n, at)
        k.same(got["identity:id"][:3], ("XAttributeID", "identity:id", ide), "id attribute", at)
        k.ok(k.truth(k.eq(k.get(k.attr_of(ev[0], "identity:id"), "get_value"), k.m("XID", "parse", "12345678-1234-1234-1234-123456789abc"))),
             "the id is not the one of the document", at)
        k.same(xes.views(k, ev[1]), (), "attributes of the empty event", at)
        k.same(xes.views(k, ev[2]), (lit("third"), ("time:timestamp", ("XAttributeTimestamp", "time:timestamp", tm, d(
            2019, 3, 1, 10, 20, 30, 456, 0), ()))), "attributes of the third event", at)
        k.same(xes.views(k, ts[0]), (lit("t.name"),), "attributes of the trace", at)
        k.same(xes.views(k, g), (lit("l.name"),), "attributes of the log", at)
        w = whole(k, g)
        k.same(w[1], (lit("gt")[1],), "global trace attributes", at)
        k.same(w[2], (lit("ge", None, lit("gen"))[1], ("XAttributeDiscrete", "gi", None, 3, ())), "global event attributes", at)
        k.same(w[3], (("Activity", ("concept:name", "lifecycle:transition")),), "classifiers", at)
        k.same(w[4], ("concept", "time"), "extensions", at)
        k.same(w[5], (("openxes.version", "1.0RC7"), ("xes.features", "nested-attributes"), ("xes.version", "1.0")), "features", at)
    k.scenario("xes/plain", plain)

    def aliens(k, where, form):
        x = {}
        compare(k, build(k, x, where, form), build(k, x))
    for form in ("leaf", "text", "nested", "similar", "namespaced"):
        k.scenario("xes/unknown/all/%s" % form, lambda k, f=form: aliens(k, PLACES, f))
        for w in PLACES:
            k.scenario("xes/unknown/%s/%s" % (w, form), lambda k, w=w, f=form: aliens(k, (w,), f))
    SP = {"upper": str.upper, "title": str.capitalize, "swap": lambda t: t[0] + t[1:].upper()}

    def spelled(k, how):
        x = {}
        compare(k, build(k, x, spell=SP[how]), build(k, x))
    for how in SP:
        k.scenario("xes/spelling/%s" % how, lambda k, h=how: spelled(k, h))
        for tag in ("log", "trace", "event", "string", "date", "int", "float", "boolean", "id", "list", "container", "global", "extension",
                    "classifier"):
            k.scenario("xes/spelling/%s/%s" % (how, tag), lambda k, h=how, tag=tag: (lambda x: compare(k, build(
                k, x, spell=lambda t: SP[h](t) if t == tag else t), build(k, x)))({}))

    def attrs(k):
        x = {}
        compare(k, build(k, x, attrs=True), build(k, x))
    k.scenario("xes/other-attributes", attrs)

    def wrapped(k, spell):
        x = {}
        compare(k, build(k, x, wrap=True, spell=spell), build(k, x))
    k.scenario("xes/values", lambda k: wrapped(k, lambda t: t))
    k.scenario("xes/values/upper", lambda k: wrapped(k, str.upper))
    k.scenario("xes/values/unknown", lambda k: (lambda x: compare(k, build(k, x, PLACES, "nested", wrap=True), build(k, x)))({}))

    # orders of the children of an element
    def order(k, perm):
        e = k.elem
        s = lambda n: e("string", {"key": n, "value": n + "v"})
        ev = e("event", {}, s("e1"))
        t1 = [s("ta"), ev, s("tb"), e("event", {}, s("e2"))]
        lg = [s("la"), None, s("lb"), e("trace", {}, s("u"), e("event", {}))]
        pt = [t1[i] for i in perm]
        lg[1] = e("trace", {}, *pt)
        pl = [lg[i] for i in perm]
        k.place("/tmp/o.xes", e("log", {}, *pl))
        g = k.load("/tmp/o.xes", "XesXmlParser")[0]
        at = k.last
        lit = lambda n: (n, ("XAttributeLiteral", n, None, n + "v", ()))
        k.same(xes.views(k, g), (lit("la"), lit("lb")), "attributes of the log", at)
        tr = {1: ((lit("ta"), lit("tb")), tuple({1: (lit("e1"),), 3: (lit("e2"),)}[i] for i in perm if i in (1, 3))), 3: ((lit("u"),), ((),))}
        k.same(tuple(xes.tview(k, t) for t in k.items(g)), tuple(tr[i] for i in perm if i in (1, 3)), "traces", at)
        k.same(tuple(n for n, _ in k.attrs(g)), tuple({0: "la", 2: "lb"}[i] for i in perm if i in (0, 2)), "order of the log's attributes", at)
    for perm in itertools.permutations(range(4)):
        k.scenario("xes/order/%d%d%d%d" % perm, lambda k, p=perm: order(k, p))

    # incomplete elements
    def keyless(k, where, tag, value):
        e = k.elem
        x = e(tag, {"value": value} if value is not None else {})
        s = lambda n: e("string", {"key": n, "value": n})
        at_ = lambda w: [s(w), x] if w == where else [s(w)]
        k.place("/tmp/k.xes", e("log", {}, *(at_("log") + [e("trace", {}, *(at_("trace") + [e("event", {}, *at_("event"))]))])))
        g = k.load("/tmp/k.xes", "XesXmlParser")[0]
        at = k.last
        t = k.items(g)[0]
        o = {"log": g, "trace": t, "event": k.items(t)[0]}
        for w in o:
            k.same(tuple(n for n, _ in k.attrs(o[w])), (w, "UNKNOWN") if w == where else (w,), "attributes of the %s" % w, at)
        a = k.attr_of(o[where], "UNKNOWN")
        k.same(k.get(a, "get_key"), "UNKNOWN", "key of an attribute without key", at)
        k.same(k.kind_of(a), {"string": "XAttributeLiteral", "int": "XAttributeDiscrete", "list": "XAttributeList"}[tag], "kind", at)
        if tag != "list":
            k.same(k.get(a, "get_value"), {"string": value or "", "int": 5}[tag], "value of an attribute without key", at)
    for w in ("log", "trace", "event"):
        for tag, v in (("string", "text"), ("string", None), ("int", "5"), ("list", None)):
            k.scenario("xes/keyless/%s/%s-%s" % (w, tag, v), lambda k, a=(w, tag, v): keyless(k, *a))

    def booleans(k, v, want):
        k.place("/tmp/b.xes", k.elem("log", {}, k.elem("boolean", {"key": "b", "value": v})))
        a = k.attr_of(k.load("/tmp/b.xes", "XesXmlParser")[0], "b")
        k.same(k.get(a, "get_value"), want, "boolean of %r" % v, k.last)
    for v, w in (("true", True), ("false", False), ("True", True), ("FALSE", False), ("TRUE", True), ("tRuE", True), ("False", False)):
        k.scenario("xes/boolean/" + v, lambda k, v=v, w=w: booleans(k, v, w))

    def repeated(k):
        s = lambda v: k.elem("string", {"key": "same", "value": v})
        v, w = k.text("v"), k.text("w")
        k.place("/tmp/r.xes", k.elem("log", {}, s(v), k.elem("trace", {}, s(w), k.elem("event", {}, s(v), s(w))), s(w)))
        g = k.load("/tmp/r.xes", "XesXmlParser")[0]
        at = k.last
        lit = lambda y: (("same", ("XAttributeLiteral", "same", None, y, ())),)
        k.same(xes.lview(k, g), (lit(w), ((lit(w), (lit(w),)),)), "attributes whose key is repeated: the last one holds", at)
    k.scenario("xes/repeated", repeated)

    def empty(k, kids):
        k.place("/tmp/e.xes", k.elem("log", {}, *[k.elem("trace", {}, *[k.elem("event", {}) for _ in range(n)]) for n in kids]))
        r = k.load("/tmp/e.xes", "XesXmlParser")
        at = k.last
        k.same(len(r), 1, "number of logs", at)
        k.same(tuple(len(k.items(t)) for t in k.items(r[0])), tuple(kids), "events of each trace", at)
    for kids in ((), (0,), (0, 0), (0, 2, 0), (1, 0, 3)):
        k.scenario("xes/empty/" + "-".join(map(str, kids)), lambda k, n=kids: empty(k, n))

    # MXML --------------------------------------------------------------------
    PARTS = ("Data", "WorkflowModelElement", "EventType", "Timestamp", "Originator")

    def mdoc(k, x, where=(), form=None, perm=range(5), attrs=False):
        e = k.elem

        def E(tag, at=(), *kids, text=None):
            at = dict(at)
            if attrs:
                at = dict(reversed(list(at.items())))
                at.update({"note": "n/a", "xsi:type": "t", "ID": "wrong", "Name": "wrong", "unknownType": "wrong"})
            return e(tag, at, *kids, text=text)

        def u(w):
            if w not in where:
                return []
            return {"leaf": lambda: [e("Alien", {"id": "z", "name": "z"})], "text": lambda: [e("Alien", {}, text="junk")],
                    "nested": lambda: [e("Alien", {}, e("Inner", {"id": "y"}, e("Deep", {}, text="junk")))],
                    "similar": lambda: [e("Attributes", {"name": "z"}, text="junk"), e("process", {"id": "z"}), e("Timestamps", {}, text="j"),
                                        e("originator", {}, text="j"), e("EVENTTYPE", {}, text="j"), e("auditTrailEntry", {}),
                                        e("processInstance", {"id": "z"})]}[form]()
        t = lambda n: x.setdefault(n, k.phrase(n, excl=c03.X))

        def entry(n, who, ty, when, data=()):
            ps = {"Data": E("Data", {}, *([E("Attribute", {"name": d}, text=t(n + d)) for d in data] + u("data"))),
                  "WorkflowModelElement": E("WorkflowModelElement", {}, text=t(n)), "EventType": E("EventType", {}, text=ty),
                  "Timestamp": E("Timestamp", {}, text=when), "Originator": E("Originator", {}, text=t(who))}
            kids = []
            for i in perm:
                kids += u("before-" + PARTS[i]) + [ps[PARTS[i]]]
            return E("AuditTrailEntry", {}, *(kids + u("entry-last")))
        insts = [E("ProcessInstance", {"id": "i1", "description": "first"}, *([E("Data", {}, E("Attribute", {"name": "pd"}, text=t("pd")))] + u(
            "instance") + [entry("a", "w1", "start", "2020-03-01T10:20:30.456+02:00", ("d1", "d2"))] + u("between") + [
            entry("b", "w2", "complete", "2019-03-01T10:20:30.000Z", ("d1",))] + u("instance-last"))),
            E("ProcessInstance", {"id": "i2"}, entry("c", "w1", "schedule", "2020-03-01T10:20:30+00:00"))]
        P = lambda n, xs: E("Process", {"id": n, "description": "about " + n}, *(u("process") + xs + u("process-last")))
        return E("WorkflowLog", {}, *(u("top") + [E("Source", {"program": "prog"}, E("Data", {}, E("Attribute", {"name": "sd"}, text=t(
            "sd"))))] + u("after-source") + [P("p1", insts), P("p2", [insts[1]])] + u("bottom")))

    def mx(k, doc, ref):
        k.place("/tmp/ref.mxml", ref)
        want = k.load("/tmp/ref.mxml", "XMxmlParser")
        k.same(len(want), 2, "number of logs")
        k.same([len(k.items(g)) for g in want], [2, 1], "number of traces")
        k.same([[len(k.items(t)) for t in k.items(g)] for g in want], [[2, 1], [1]], "number of events")
        for i, g in enumerate(want):
            k.same(tuple(sorted(n for n, _ in k.attrs(g))), ("concept:name", "description", "lifecycle:model", "source"),
                   "attributes of log %d of a document" % i)
            for key, v in (("concept:name", "p%d" % (i + 1)), ("description", "about p%d" % (i + 1)), ("source", "prog")):
                k.same(k.get(k.attr_of(g, key), "get_value"), v, "%s of log %d of a document" % (key, i))
            k.same(tuple(n for n, _ in k.attrs(k.attr_of(g, "source"))), ("sd",), "attributes of the source of log %d" % i)
        ev = k.items(k.items(want[0])[0])[0]
        k.same(tuple(sorted(n for n, _ in k.attrs(ev))), ("concept:name", "d1", "d2", "lifecycle:transition", "org:resource", "time:timestamp"),
               "attributes of an event")
        k.place("/tmp/var.mxml", doc)
        got = k.load("/tmp/var.mxml", "XMxmlParser")
        at = k.last
        k.same(len(got), len(want), "number of logs read", at)
        for a, b in zip(got, want):
            va, vb = whole(k, a), whole(k, b)
            xes.judge(k, a, vb[0], at)
            for i in range(1, 6):
                k.same(va[i], vb[i], WHAT[i], at)
    MP = ["top", "after-source", "bottom", "process", "process-last", "instance", "between", "instance-last", "data", "entry-last"] + [
        "before-" + p for p in PARTS]
    for form in ("leaf", "text", "nested", "similar"):
        k.scenario("mxml/unknown/all/" + form, lambda k, f=form: (lambda x: mx(k, mdoc(k, x, MP, f), mdoc(k, x)))({}))
        for w in MP:
            k.scenario("mxml/unknown/%s/%s" % (w, form), lambda k, w=w, f=form: (lambda x: mx(k, mdoc(k, x, (w,), f), mdoc(k, x)))({}))
    k.scenario("mxml/other-attributes", lambda k: (lambda x: mx(k, mdoc(k, x, attrs=True), mdoc(k, x)))({}))
    for i in range(5):
        rot = [(i + j) % 5 for j in range(5)]
        for perm in (rot, rot[::-1]):
            k.scenario("mxml/order/" + "".join(map(str, perm)), lambda k, p=perm: (lambda x: mx(k, mdoc(k, x, perm=p), mdoc(k, x)))({}))

    def unnamed(k, which):
        """An id that is not there or empty names nothing (an instance without one is called None)."""
        e = k.elem
        ids = {"process": ({}, {"id": "i"}), "instance": ({"id": "p"}, {}), "empty-process": ({"id": ""}, {"id": "i"}),
               "empty-instance": ({"id": "p"}, {"id": ""})}[which]
        doc = e("WorkflowLog", {}, e("Process", ids[0], e("ProcessInstance", ids[1], e(
            "AuditTrailEntry", {}, e("WorkflowModelElement", {}, text="A"), e("EventType", {}, text="start")))))
        k.place("/tmp/u.mxml", doc)
        g = k.load("/tmp/u.mxml", "XMxmlParser")[0]
        at = k.last
        t = k.items(g)[0]
        name = lambda o: k.m(k.new("XConceptExtension"), "extract_name", o)
        k.same(name(g), ids[0].get("id") or None, "name of the log", at)
        k.same(name(t), "None" if "id" not in ids[1] else ids[1]["id"] or None, "name of the trace", at)
        k.same(len(k.items(t)), 1, "events", at)
    for which in ("process", "instance", "empty-process", "empty-instance"):
        k.scenario("mxml/unnamed/" + which, lambda k, w=which: unnamed(k, w))

    def idle(k, counts):
        """Processes and instances without content: an empty instance is no trace, an empty process is a log."""
        e = k.elem
        ate = lambda: e("AuditTrailEntry", {}, e("WorkflowModelElement", {}, text="A"), e("EventType", {}, text="start"))
        doc = e("WorkflowLog", {}, *[e("Process", {"id": "p%d" % i}, *[e("ProcessInstance", {"id": "i%d" % j}, *[ate() for _ in range(n)])
                                                                      for j, n in enumerate(c)]) for i, c in enumerate(counts)])
        k.place("/tmp/i.mxml", doc)
        got = k.load("/tmp/i.mxml", "XMxmlParser")
        at = k.last
        k.same(len(got), len(counts), "number of logs", at)
        for i, (g, c) in enumerate(zip(got, counts)):
            k.same(k.get(k.attr_of(g, "concept:name"), "get_value"), "p%d" % i, "name of the log", at)
            k.same([(k.get(k.attr_of(t, "concept:name"), "get_value"), len(k.items(t))) for t in k.items(g)],
                   [("i%d" % j, n) for j, n in enumerate(c) if n], "traces", at)
    for c in ((), ((),), ((0,),), ((0, 1, 0),), ((1,), (), (2, 0)), ((), (1,)), ((2, 1), (0, 0), (1,))):
        k.scenario("mxml/empty/" + "+".join("".join(map(str, x)) or "x" for x in c), lambda k, c=c: idle(k, c))


    # sizes: long texts, texts delivered in many pieces, many elements, deep elements ----------------
    def entries(k, ps):
        """AuditTrailEntry elements for (activity, originator, [(name, value)])."""
        e = k.elem
        return [e("AuditTrailEntry", {}, *([e("Data", {}, *[e("Attribute", {"name": n}, text=v) for n, v in data])] if data else []), e(
            "WorkflowModelElement", {}, text=w), e("EventType", {}, text="start"), e("Originator", {}, text=who)) for w, who, data in ps]

    def mread(k, procs, extra=()):
        """Read an MXML document of processes (name, [(instance, entries)]) and judge every part of it."""
        e = k.elem
        k.place("/tmp/m.mxml", e("WorkflowLog", {}, *(list(extra) + [e("Process", {"id": p}, *[
            e("ProcessInstance", {"id": i}, *entries(k, es)) for i, es in xs]) for p, xs in procs])))
        got = k.load("/tmp/m.mxml", "XMxmlParser")
        at = k.last
        k.same(len(got), len(procs), "number of logs read", at)
        val = lambda o, key: k.get(k.attr_of(o, key), "get_value")
        for g, (p, xs) in zip(got, procs):
            k.same(val(g, "concept:name"), p, "name of the log", at)
            ts = k.items(g)
            k.same(len(ts), len(xs), "number of traces", at)
            for t, (i, es) in zip(ts, xs):
                k.same(val(t, "concept:name"), i, "name of the trace", at)
                evs = k.items(t)
                k.same(len(evs), len(es), "number of events", at)
                for ev, (w, who, data) in zip(evs, es):
                    want = dict(data)
                    want.update({"concept:name": w, "org:resource": who, "lifecycle:transition": "start"})
                    k.same(tuple(sorted((n, k.get(a, "get_value")) for n, a in k.attrs(ev))), tuple(sorted(want.items())),
                           "attributes of the event", at)

    def pieced(k, n, length):
        k.I.faults["pieces"] = n
        word = "some words of a text that is delivered in pieces ; "
        t = lambda c: c + (word * (length // len(word) + 1))[:length - 2] + c
        mread(k, [("p", [("i", [(t("a"), t("b"), [("d%d" % j, t("xyz"[j])) for j in range(3)]), (t("c"), t("d"), ())])])])
    for n in (1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 100, 257):
        k.scenario("mxml/pieces/%d" % n, lambda k, n=n: pieced(k, n, 300))
    for length in LENGTHS:
        k.scenario("mxml/long/%d" % length, lambda k, x=length: pieced(k, 4, x))

    def mmany(k, what, n):
        one = lambda i: ("w%d" % i, "who%d" % (i % 7), [("d", "v%d" % i)])
        if what == "processes":
            mread(k, [("p%d" % i, [("i%d" % i, [one(i)])]) for i in range(n)])
        elif what == "instances":
            mread(k, [("p", [("i%d" % i, [one(i)]) for i in range(n)])])
        elif what == "entries":
            mread(k, [("p", [("i", [one(i) for i in range(n)])])])
        elif what == "data":
            mread(k, [("p", [("i", [("w", "who", [("d%d" % i, "v%d" % i) for i in range(n)])])])])
        else:
            deep = k.elem("Alien", {"id": "z"}, text="junk")
            for _ in range(n):
                deep = k.elem("Alien", {}, deep)
            mread(k, [("p", [("i", [one(1), one(2)])])], [deep])
    for n in SIZES:
        for what in ("processes", "instances", "entries", "data"):
            k.scenario("mxml/many-%s/%d" % (what, n), lambda k, w=what, n=n: mmany(k, w, n))
    for n in DEPTHS:
        k.scenario("mxml/deep-unknown/%d" % n, lambda k, n=n: mmany(k, "deep", n))

    def xread(k, head, traces, more=()):
        """Read a XES document; head: elements of the log, traces: [(attributes, [event attributes])] of literal (key, value)."""
        e = k.elem
        s = lambda n, v: e("string", {"key": n, "value": v})
        k.place("/tmp/x.xes", e("log", {}, *(list(head) + [e("trace", {}, *([s(*a) for a in at] + [e("event", {}, *[
            s(*a) for a in ev]) for ev in evs])) for at, evs in traces] + list(more))))
        got = k.load("/tmp/x.xes", "XesXmlParser")
        at = k.last
        k.same(len(got), 1, "number of logs", at)
        lit = lambda a: (a[0], ("XAttributeLiteral", a[0], None, a[1], ()))
        k.same(tuple(xes.tview(k, t) for t in k.items(got[0])), tuple((tuple(map(lit, sorted(ta))), tuple(tuple(map(lit, sorted(ev)))
               for ev in evs)) for ta, evs in traces), "traces", at)
        return got[0], at

    def xmany(k, what, n):
        e = k.elem
        kv = [("k%03d" % i, "v%d" % i) for i in range(n)]
        s = lambda a: e("string", {"key": a[0], "value": a[1]})
        lit = lambda a: ("XAttributeLiteral", a[0], None, a[1], ())
        if what == "traces":
            xread(k, (), [([kv[i]], [[kv[i]]]) for i in range(n)])
        elif what == "events":
            xread(k, (), [((), [[a] for a in kv])])
        elif what == "attributes":
            g, at = xread(k, [s(a) for a in kv], [(kv, [kv])])
            k.same(xes.views(k, g), tuple((a[0], lit(a)) for a in kv), "attributes of the log", at)
            k.same(tuple(x for x, _ in k.attrs(g)), tuple(a[0] for a in kv), "order of the log's attributes", at)
        elif what == "globals":
            g, at = xread(k, [e("global", {"scope": sc}, *[s(a) for a in kv]) for sc in ("trace", "event")], [([kv[0]], [[kv[1]]])])
            for m in ("get_global_trace_attributes", "get_global_event_attributes"):
                k.same(tuple(xes.view(k, a) for a in k.items(k.get(g, m))), tuple(map(lit, kv)), m, at)
        elif what == "classifiers":
            g, at = xread(k, [e("classifier", {"name": "c%d" % i, "keys": " ".join(a[0] for a in kv[i % 3:i + 2])}) for i in range(n)], ())
            k.same(tuple((k.get(c, "name"), tuple(k.items(k.get(c, "get_defining_attribute_keys")))) for c in k.items(k.get(g, "get_classifiers"))),
                   tuple(("c%d" % i, tuple(a[0] for a in kv[i % 3:i + 2])) for i in range(n)), "classifiers", at)
        elif what == "members":
            g, at = xread(k, [e("list", {"key": "l"}, e("values", {}, *[s(a) for a in kv])), e("container", {"key": "z"}, *[s(a) for a in kv])], ())
            k.same(xes.views(k, g), (("l", ("XAttributeList", "l", None, tuple(map(lit, kv)), ())), (
                "z", ("XAttributeContainer", "z", None, tuple(map(lit, kv)), ()))), "members in document order", at)
        else:
            alien = lambda: e("alien", {"key": "k", "value": "v"}, e("inner", {}, text="t"))
            out = []
            for a in kv:
                out += [alien(), s(a), alien()]
            g, at = xread(k, out, [([kv[0]], [[kv[1]]])], [alien() for _ in range(n)])
            k.same(xes.views(k, g), tuple((a[0], lit(a)) for a in kv), "attributes of the log between unknown elements", at)
    for n in SIZES:
        for what in ("traces", "events", "attributes", "globals", "classifiers", "members", "unknown"):
            k.scenario("xes/many-%s/%d" % (what, n), lambda k, w=what, n=n: xmany(k, w, n))

    def xdeep(k, n, form):
        e = k.elem
        if form == "unknown":
            x = e("alien", {"key": "k"}, text="junk")
            for _ in range(n):
                x = e("alien", {"key": "k"}, x)
            xread(k, [x], [([("a", "b")], [[("c", "d")]])], [x])
            return
        x, want = e("string", {"key": "d", "value": "v"}), ("XAttributeLiteral", "d", None, "v", ())
        for i in range(n):
            if form == "nested":
                x, want = (e("string", {"key": "k%d" % i, "value": "v"}, x), ("XAttributeLiteral", "k%d" % i, None, "v", ((want[1], want),)))
            else:
                tag = "list" if i % 2 else "container"
                x, want = (e(tag, {"key": "k%d" % i}, x), ("XAttribute" + tag.capitalize(), "k%d" % i, None, (want,), ()))
        g, at = xread(k, [x], [((), [[("c", "d")]])])
        k.same(xes.views(k, g), ((want[1], want),), "attributes %d levels deep" % n, at)
    for n in DEPTHS:
        for form in ("unknown", "nested", "members"):
            k.scenario("xes/deep-%s/%d" % (form, n), lambda k, n=n, f=form: xdeep(k, n, f))

    def xlong(k, n):
        kv = [("k" * (n // 2), "v" * n), ("k" * n, " w" * (n // 2)), ("a", "x" * n + ".")]
        g, at = xread(k, [k.elem("string", {"key": a, "value": b}) for a, b in kv], [(kv, [kv])])
        k.same(tuple((a, k.get(x, "get_value")) for a, x in k.attrs(g)), tuple(kv), "long texts", at)
    for n in LENGTHS:
        k.scenario("xes/long/%d" % n, lambda k, n=n: xlong(k, n))


MIN_SCENARIOS = 150
