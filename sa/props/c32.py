"""A malformed timestamp costs only its own attribute, by abstract interpretation of the readers on documents that hold one."""
from .common import ALL
from . import xes
METHOD = ("Abstract interpretation of the XES and MXML readers on abstract documents with a malformed date at every position "
          "(log, trace, event, global, nested, list member, nested inside the malformed one), compared with what the same "
          "document without that element gives.")
RULE = "read(document with a malformed date) == read(document without that element)"
BAD = {"empty": "", "no-digits": None, "words": "yesterday", "month": "2020-13-01T00:00:00.000Z", "day": "2020-02-30T00:00:00Z",
       "hour": "2020-01-01T24:00:00.000+01:00", "date-only": "2020-01-01", "blank-for-T": "2020-01-01 10:00:00.000+00:00",
       "zone": "2020-01-01T10:00:00+0100", "zone-words": "2020-01-01T10:00:00.000+aa:bb", "zone-range": "2020-01-01T10:00:00+99:00",
       "zone-huge": "2020-01-01T10:00:00+99999999999999:00", "no-seconds": "2020-01-01T10:00Z", "trailing": "2020-01-01T10:00:00.000Zx",
       "slashes": "01/02/2020 10:00", "millis": "1577872800000", "dot": "2020-01-01T10:00:00.Z", "minus": "-", "colon": "+:"}


def bad(k, name):
    v = BAD[name]
    return k.text("bad", excl="0123456789:") if v is None else v


def read(k, doc, path, parser):
    k.place(path, doc)
    return k.load(path, parser)


def run(k):
    def S(key, v="v"):
        return lambda k: k.elem("string", {"key": key, "value": v})

    def build(k, where, date, texts):
        """The document, with (date given) or without the malformed element."""
        e = k.elem
        d = [] if date is None else [date]
        s = lambda n: e("string", {"key": n, "value": texts.setdefault(n, k.text(n))})
        at = lambda w, *c: ([s(w + ".before")] + (d if where == w else []) + [s(w + ".after")] + list(c))
        nest = e("int", {"key": "num", "value": "5"}, *at("nested"))
        nest2 = e("string", {"key": "n0", "value": "x"}, s("n1"), e("date", {"key": "n2", "value": "2020-01-02T03:04:05.006Z"},
                                                                   *at("nested2")))
        col = e("list", {"key": "list"}, *at("member"))
        con = e("container", {"key": "cont"}, s("c1"), e("list", {"key": "inner"}, *at("member2")))
        return e("log", {}, e("global", {"scope": "trace"}, *at("global-trace")), e("global", {"scope": "event"}, *at(
            "global-event", e("int", {"key": "gi", "value": "1"}, *at("global-nested")))), *at("log", e(
                "trace", {}, *at("trace", e("event", {}, *at("event", nest, nest2, col, con)), e("event", {}, s("second"))))) + [
            e("trace", {}, s("t2"), e("event", {}, s("t2e")))])

    PLACES = ("log", "trace", "event", "nested", "nested2", "member", "member2", "global-trace", "global-event", "global-nested")

    def whole(k, g):
        return (xes.lview(k, g), tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_trace_attributes"))),
                tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_event_attributes"))))

    def go(k, where, name, inside):
        e = k.elem
        kids = {"empty": [], "literal": [e("string", {"key": "in", "value": "x"})],
                "deep": [e("string", {"key": "in", "value": "x"}, e("int", {"key": "in2", "value": "1"})),
                         e("list", {"key": "in3"}, e("string", {"key": "in4", "value": "y"}), e("date", {"key": "in5", "value": "z"}))]}
        d = e("date", {"key": "when", "value": bad(k, name)}, *kids[inside])
        texts = {}
        ref = read(k, build(k, where, None, texts), "/tmp/ref.xes", "XesXmlParser")
        want = whole(k, ref[0])
        got = read(k, build(k, where, d, texts), "/tmp/bad.xes", "XesXmlParser")
        at = k.last
        k.same(len(got), 1, "number of logs read", at)
        v = whole(k, got[0])
        xes.judge(k, got[0], want[0], at)
        for i, s in ((1, "trace"), (2, "event")):
            k.same(len(v[i]), len(want[i]), "number of global %s attributes" % s, at)
            k.same(v[i], want[i], "global %s attributes" % s, at)
    for w in PLACES:
        for inside in ("empty", "literal", "deep"):
            k.scenario("xes/%s/words/%s" % (w, inside), lambda k, w=w, i=inside: go(k, w, "words", i))
    for n in BAD:
        for w in ("event", "nested"):
            k.scenario("xes/%s/%s" % (w, n), lambda k, w=w, n=n: go(k, w, n, "empty"))

    def only(k, level):
        e = k.elem
        d = lambda: e("date", {"key": "when", "value": "never"})
        lv = lambda x: [d()] if level in (x, "all") else []
        doc = e("log", {}, *(lv("log") + [e("trace", {}, *(lv("trace") + [e("event", {}, *lv("event")), e("event", {}, *lv("event"))]))]))
        g = read(k, doc, "/tmp/o.xes", "XesXmlParser")[0]
        v = xes.lview(k, g)
        k.same(v, ((), (((), ((), ())),)), "what is left of a log whose only attributes are malformed dates", k.last)
    for lv in ("log", "trace", "event", "all"):
        k.scenario("xes/only/%s" % lv, lambda k, lv=lv: only(k, lv))

    def two(k):
        e = k.elem
        mk = lambda v: e("date", {"key": "when" + v[:1], "value": v})
        doc = e("log", {}, e("trace", {}, e("event", {}, mk("a"), mk("b"), e("date", {"key": "ok", "value": "2020-01-02T03:04:05.006Z"}),
                                            mk("c"), e("string", {"key": "s", "value": "t"}))))
        g = read(k, doc, "/tmp/o.xes", "XesXmlParser")[0]
        ev = k.items(k.items(g)[0])[0]
        k.same(tuple(sorted(n for n, _ in k.attrs(ev))), ("ok", "s"), "attributes of the event", k.last)
    k.scenario("xes/several", two)

    # MXML ------------------------------------------------------------------
    def mx(k, stamps):
        e = k.elem
        ates = []
        for i, s in enumerate(stamps):
            kids = [e("Data", {}, e("Attribute", {"name": "d%d" % i}, text="v%d" % i)),
                    e("WorkflowModelElement", {}, text="A%d" % i), e("EventType", {}, text="start")]
            if s is not None:
                kids.append(e("Timestamp", {}, text=s))
            kids.append(e("Originator", {}, text="me"))
            ates.append(e("AuditTrailEntry", {}, *kids))
        return e("WorkflowLog", {}, e("Process", {"id": "P"}, e("ProcessInstance", {"id": "I"}, *ates[:3]),
                                      e("ProcessInstance", {"id": "J"}, *ates[3:])))

    def mgo(k, pos, name):
        ok = ["2020-01-02T03:04:0%d.000+00:00" % i for i in range(4)]
        st = list(ok)
        st[pos] = bad(k, name)
        ref = list(ok)
        ref[pos] = None
        want = xes.lview(k, read(k, mx(k, ref), "/tmp/ref.mxml", "XMxmlParser")[0])
        got = read(k, mx(k, st), "/tmp/bad.mxml", "XMxmlParser")
        at = k.last
        k.same(len(got), 1, "number of logs read", at)
        xes.judge(k, got[0], want, at)
    for n in BAD:
        for pos in (range(4) if n in ("words", "empty") else (1,)):
            k.scenario("mxml/%d/%s" % (pos, n), lambda k, pos=pos, n=n: mgo(k, pos, n))

    # parse_date_time itself
    def direct(k, n):
        k.isnone(k.I.call(k.func("opyenxes.utils.XsDateTimeConversion", "parse_date_time"), [bad(k, n)]),
                 "parse_date_time of a malformed text")
    for n in BAD:
        k.scenario("parse_date_time/" + n, lambda k, n=n: direct(k, n))


    # many malformed dates, and deep and wide attributes below one
    def many(k, n, every, deep):
        e = k.elem
        s = lambda i: e("string", {"key": "k%d" % i, "value": "v%d" % i})
        names = [x for x in BAD if BAD[x] is not None]

        def d(i):
            kids = [s(j) for j in range(i % 3)]
            for j in range(deep):
                kids = [e(("string", "int", "list")[j % 3], {"key": "n", "value": "5"} if j % 3 < 2 else {"key": "n"}, *kids)]
            return e("date", {"key": "when%d" % i, "value": BAD[names[i % len(names)]]}, *kids)

        def row(w):
            out = []
            for i in range(n):
                if w and i % every == 0:
                    out.append(d(i))
                out.append(s(i))
            return out + ([d(n)] if w else [])

        def doc(w):
            return e("log", {}, *([e("global", {"scope": sc}, *row(w)) for sc in ("trace", "event")] + row(w) + [
                e("trace", {}, *(row(w) + [e("event", {}, *row(w)), e("event", {}, e("list", {"key": "l"}, *row(w)), e(
                    "string", {"key": "x", "value": "y"}, *row(w)))])), e("trace", {}, e("event", {}, *row(w)))]))
        want = whole(k, read(k, doc(False), "/tmp/ref.xes", "XesXmlParser")[0])
        got = read(k, doc(True), "/tmp/bad.xes", "XesXmlParser")
        at = k.last
        k.same(len(got), 1, "number of logs read", at)
        v = whole(k, got[0])
        xes.judge(k, got[0], want[0], at)
        k.same(v[1:], want[1:], "global attributes", at)
    for n in (9, 33, 64):
        for every in (1, 2, 7):
            k.scenario("xes/many/%d/every-%d" % (n, every), lambda k, n=n, ev=every: many(k, n, ev, 0))
    for deep in (6, 9, 17, 40):
        k.scenario("xes/deep/%d" % deep, lambda k, d=deep: many(k, 3, 1, d))

    def mmany(k, n):
        names = [x for x in BAD if BAD[x] is not None]
        ok = ["2020-01-02T03:04:%02d.000+00:00" % (i % 60) for i in range(n)]
        want = xes.lview(k, read(k, mx(k, [None if i % 2 else t for i, t in enumerate(ok)]), "/tmp/ref.mxml", "XMxmlParser")[0])
        got = read(k, mx(k, [BAD[names[i % len(names)]] if i % 2 else t for i, t in enumerate(ok)]), "/tmp/bad.mxml", "XMxmlParser")
        xes.judge(k, got[0], want, k.last)
    for n in (9, 33, 64):
        k.scenario("mxml/many/%d" % n, lambda k, n=n: mmany(k, n))

    def sequence(k):
        """Malformed texts, asked among good ones, many times over."""
        f = k.func("opyenxes.utils.XsDateTimeConversion", "parse_date_time")
        good = ["20%02d-01-02T03:04:05.006Z" % i for i in range(20)]
        first = [k.I.call(f, [t]) for t in good]
        for r in range(2):
            for i, t in enumerate(good):
                for n in list(BAD)[r::2]:
                    if BAD[n] is not None:
                        k.isnone(k.I.call(f, [BAD[n]]), "parse_date_time of a malformed text, asked among others")
                k.same(k.I.call(f, [t]), first[i], "parse_date_time of a good text, asked among malformed ones")
    k.scenario("parse_date_time/many", sequence)


MIN_SCENARIOS = 80
