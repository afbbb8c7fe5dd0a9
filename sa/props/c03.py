"""MXML write/read, by abstract interpretation of the serializer and the parser composed."""
from .common import ALL, BIG, DEPTHS, LEAF, LENGTHS, SIZES, TEXTS, keyed, moments
from . import xes
METHOD = ("Abstract interpretation of XMxmlSerializer.serialize followed by XMxmlParser.parse on symbolic logs, and of the parser "
          "alone on abstract MXML documents: names, transitions, originators, timestamps, data attributes and model references "
          "of the log read are compared, term by term, with what the log (or the document) says.")
RULE = ("read(write(log)): same named traces with the same events in order; name, transition, originator, timestamp, data of each "
        "element are the ones written, and belong to that element only")
ASSUMES = ["texts are trimmed, not empty and without line breaks; events are named and traces hold events, as MXML requires",
           "an attribute value of a kind MXML does not know is kept as its text", "transition names other than 'unknown'"]
KNOWN = ("schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip",
         "manualskip")
X = xes.BREAKS + "\x0b\x0c"


def name(k, n):
    return k.plus(k.plus(k.word(n + ".a", group="name", excl=X), " "), k.word(n + ".b", excl=X))


def put(k, o, kd, key, v, ref=None, **kw):
    a = k.attr(kd, key, v, **kw)
    if ref is not None:
        k.put(a, k.attr("literal", "semantic:modelReference", ref))
    k.put(o, a)
    return a


def event(k, n, trans="start", who="org:resource", tz="utc", data=(), refs=False, when=None):
    """An event and what reading it back should give: (name, transition, originator, time, data, references)."""
    e = k.event()
    nm = name(k, n + ".name")
    put(k, e, "literal", "concept:name", nm)
    ref = {}
    r = lambda what: ref.setdefault(what, k.word("%s.ref.%s" % (n, what), excl=X)) if refs else None
    if refs:
        put(k, e, "literal", "semantic:modelReference", r("event"))
    if trans is not None:
        put(k, e, "literal", "lifecycle:transition", trans, r("transition"))
    o = None
    if who is not None:
        o = name(k, n + ".who")
        put(k, e, "literal", who, o, r("originator"))
    t = None
    if tz is not None:
        t = k.dt(n + ".t", tz=tz) if when is None else k.I.call(moments(k), [when])
        put(k, e, "timestamp", "time:timestamp", t)
    d = []
    for i, kd in enumerate(data):
        d.append(datum(k, e, kd, "%s.d%d" % (n, i), r("data%d" % i)))
    low = trans.lower() if isinstance(trans, str) and trans.lower() in KNOWN else trans
    return e, (nm, "complete" if trans is None else low, o, t, d, ref)


def datum(k, o, kd, n, ref=None):
    if kd == "literal":
        a = put(k, o, kd, k.plus("d.", k.key(n + ".k", excl=":" + X)), name(k, n + ".v"), ref)
    else:
        a = k.attr(kd, k.plus("d.", k.key(n + ".k", excl=":" + X)), name=n + ".v")
        if ref is not None:
            k.put(a, k.attr("literal", "semantic:modelReference", ref))
        k.put(o, a)
    return k.get(a, "get_key"), k.I.norm(k.I.to_str(a)) if hasattr(k.I, "to_str") else k.str(a), ref


def text(k, o, key):
    a = k.attr_of(o, key)
    return None if a is None else k.get(a, "get_value")


def ref_of(k, a):
    return None if a is None else text(k, a, "semantic:modelReference")


STD = ("concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp", "semantic:modelReference",
       "description", "lifecycle:model", "source")


def extra(k, o, data, what, at):
    """The data attributes of o are exactly those given."""
    got = {n: a for n, a in k.attrs(o) if n not in STD}
    k.same(len(got), len(data), "number of data attributes of " + what, at)
    for key, v, ref in data:
        a = k.attr_of(o, key)
        k.ok(a is not None, "a data attribute of %s is missing" % what, at)
        k.same(k.kind_of(a), "XAttributeLiteral", "kind of a data attribute of " + what, at)
        k.same(k.get(a, "get_value"), v, "value of a data attribute of " + what, at)
        k.same(k.get(a, "get_key"), key, "key of a data attribute of " + what, at)
        if ref is None:
            k.isnone(ref_of(k, a), "model reference of a data attribute")
        else:
            k.same(ref_of(k, a), ref, "model reference of a data attribute", at)


def judge_event(k, e, w, at):
    nm, tr, who, t, data, ref = w
    k.ok(k.isinst(e, "XEvent"), "no event", at)
    k.same(text(k, e, "concept:name"), nm, "name of the event", at)
    k.same(text(k, e, "lifecycle:transition"), tr, "transition of the event", at)
    if who is None:
        k.isnone(k.attr_of(e, "org:resource"), "originator of an event without one")
    else:
        k.same(text(k, e, "org:resource"), who, "originator of the event", at)
        k.same(k.get(k.attr_of(e, "org:resource"), "get_extension"), k.new("XOrganizationalExtension"), "extension of the originator", at)
    a = k.attr_of(e, "time:timestamp")
    if t is None:
        k.isnone(a, "timestamp of an event without one")
    else:
        k.ok(a is not None and k.isinst(a, "XAttributeTimestamp"), "the event has no timestamp", at)
        k.same(xes.val(k, k.get(a, "get_value")), xes.val(k, t), "timestamp of the event", at)
        k.same(k.get(a, "get_extension"), k.new("XTimeExtension"), "extension of the timestamp", at)
    k.same(k.get(k.attr_of(e, "concept:name"), "get_extension"), k.new("XConceptExtension"), "extension of the name", at)
    k.same(k.get(k.attr_of(e, "lifecycle:transition"), "get_extension"), k.new("XLifecycleExtension"), "extension of the transition", at)
    extra(k, e, data, "the event", at)
    for what, o in (("event", e), ("transition", k.attr_of(e, "lifecycle:transition")), ("originator", k.attr_of(e, "org:resource"))):
        if what in ref:
            k.same(ref_of(k, o), ref[what], "model reference of the %s" % what, at)
        elif o is not None:
            k.isnone(ref_of(k, o), "model reference of the %s" % what)


def log(k, traces, data=(), refs=False):
    """traces: [(number of data attributes kinds, [event kwargs])] -> log, expectation"""
    g = k.log()
    nm = name(k, "log")
    put(k, g, "literal", "concept:name", nm)
    lr = k.word("log.ref", excl=X) if refs else None
    if refs:
        put(k, g, "literal", "semantic:modelReference", lr)
    gd = [datum(k, g, kd, "g%d" % i) for i, kd in enumerate(data)]
    want = []
    for i, (td, evs) in enumerate(traces):
        t = k.trace()
        tn = name(k, "t%d" % i)
        put(k, t, "literal", "concept:name", tn)
        tr = k.word("t%d.ref" % i, excl=X) if refs else None
        if refs:
            put(k, t, "literal", "semantic:modelReference", tr)
        d = [datum(k, t, kd, "t%d.d%d" % (i, j)) for j, kd in enumerate(td)]
        ws = []
        for j, kw in enumerate(evs):
            e, w = event(k, "e%d.%d" % (i, j), refs=refs, **kw)
            k.append(t, e)
            ws.append(w)
        k.append(g, t)
        want.append((tn, d, ws, tr))
    return g, (nm, gd, want, lr)


def judge(k, got, w, at):
    nm, gd, want, lr = w
    k.ok(k.isinst(got, "XLog"), "reading gives no log", at)
    k.same(text(k, got, "concept:name"), nm, "name of the log", at)
    if lr is None:
        k.isnone(ref_of(k, got), "model reference of the log")
    else:
        k.same(ref_of(k, got), lr, "model reference of the log", at)
    extra(k, got, gd, "the log", at)
    ts = k.items(got)
    k.same(len(ts), len(want), "number of traces", at)
    for t, (tn, d, ws, tr) in zip(ts, want):
        k.same(text(k, t, "concept:name"), tn, "name of the trace", at)
        if tr is None:
            k.isnone(ref_of(k, t), "model reference of the trace")
        else:
            k.same(ref_of(k, t), tr, "model reference of the trace", at)
        extra(k, t, d, "the trace", at)
        es = k.items(t)
        k.same(len(es), len(ws), "number of events", at)
        for e, v in zip(es, ws):
            judge_event(k, e, v, at)


def trip(k, spec, path="/tmp/l.mxml", ser="XMxmlSerializer", parser="XMxmlParser", **kw):
    g, w = log(k, spec, **kw)
    before = k.view_log(g)
    k.save(g, path, ser)
    k.same(k.view_log(g), before, "the log that was written, afterwards", k.last)
    got = k.load(path, parser)
    at = k.last
    k.same(len(got), 1, "number of logs read", at)
    judge(k, got[0], w, at)
    return got[0]


def run(k):
    T = lambda label, f, **kw: k.scenario(label, lambda k: trip(k, f(k), **kw))
    for w in (True, False):
        k.scenario("one/%s" % ("warm" if w else "cold"), lambda k: trip(k, [([], [{}])]), warm=w)
    for tr in KNOWN:
        for how in (str.lower, str.upper, str.capitalize):
            T("transition/" + how(tr), lambda k, t=how(tr): [([], [{"trans": t}])])
    T("transition/none", lambda k: [([], [{"trans": None}])])
    T("transition/unknown", lambda k: [([], [{"trans": k.phrase("trans", excl="aAeEU" + X)}])])
    T("transition/unknown-literal", lambda k: [([], [{"trans": "Half done"}, {"trans": "start2"}, {"trans": "un-complete"}])])
    for who in ("org:resource", "org:role", "org:group", None):
        T("originator/%s" % who, lambda k, w=who: [([], [{"who": w}])])
    for z in ("utc", "naive", "+", "-", "named", None):
        T("zone/%s" % z, lambda k, z=z: [([], [{"tz": {"+": lambda: k.zone("z", 1), "-": lambda: k.zone("z", -1),
                                                       "named": lambda: k.named_zone("CEST", 120)}.get(z, lambda: z)()}])])
    for lv in ("log", "trace", "event"):
        for kd in ALL:
            spec = lambda k, lv=lv, kd=kd: [([kd] if lv == "trace" else [], [{"data": [kd] if lv == "event" else []}])]
            T("data/%s/%s" % (lv, kd), spec, data=[kd] if lv == "log" else [])
        many = LEAF
        T("data/%s/several" % lv, lambda k, lv=lv: [(many if lv == "trace" else [], [{"data": many if lv == "event" else []}])],
          data=many if lv == "log" else [])
    T("data/everywhere", lambda k: [(["literal", "discrete"], [{"data": ["literal"]}, {"data": []}, {"data": ["timestamp", "literal"]}]),
                                    ([], [{"data": ["boolean-true"]}]), (["literal"], [{}])], data=["literal", "id"])
    for n in ((1,), (2,), (3,), (1, 1), (2, 3), (1, 2, 1)):
        T("shape/" + "-".join(map(str, n)), lambda k, n=n: [([], [{"trans": KNOWN[(i + j) % 12]} for j in range(m)])
                                                            for i, m in enumerate(n)])
    T("refs", lambda k: [(["literal"], [{"data": ["literal", "discrete"]}, {"trans": None}, {"who": "org:role"}]), ([], [{}])],
      refs=True, data=["literal"])
    T("mixed", lambda k: [([], [{"who": None}, {"tz": None}, {"trans": None}, {"who": None, "tz": None, "trans": None}]),
                          ([], [{"tz": "naive"}, {"trans": "Odd"}])])

    # an attribute nested in another is kept under its path
    def nested(k):
        g, w = log(k, [([], [{}])])
        e = k.items(k.items(g)[0])[0]
        a, b, c = (k.plus("d.", k.key(x, excl=":" + X)) for x in "abc")
        va, vb, vc = (name(k, "v" + x) for x in "abc")
        A = put(k, e, "literal", a, va)
        B = k.attr("literal", b, vb)
        k.put(A, B)
        k.put(B, k.attr("literal", c, vc))
        k.save(g, "/tmp/n.mxml", "XMxmlSerializer")
        got = k.load("/tmp/n.mxml", "XMxmlParser")[0]
        at = k.last
        ab = k.plus(k.plus(a, ":"), b)
        ev = list(w[2][0][2][0])
        ev[4] = [(a, va, None), (ab, vb, None), (k.plus(k.plus(ab, ":"), c), vc, None)]
        judge_event(k, k.items(k.items(got)[0])[0], tuple(ev), at)
    k.scenario("nested", nested)

    # many of everything ----
    def many(k, what, n):
        one = lambda i, **kw: dict({"trans": KNOWN[i % 12], "who": ("org:resource", "org:role", "org:group", None)[i % 4],
                                    "tz": "utc" if i % 3 else None, "when": i}, **kw)
        if what == "events":
            return [([], [one(i) for i in range(n)]), ([], [one(1)])]
        if what == "traces":
            return [(["literal"] if i % 2 else [], [one(i)]) for i in range(n)]
        data = [LEAF[i % len(LEAF)] for i in range(n)]
        return [(data if what == "trace" else [], [one(1, data=data if what == "event" else []), one(2)])]
    for what in ("events", "traces"):
        for n in SIZES + BIG[:1]:
            T("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n))
    for what in ("log", "trace", "event"):
        for n in SIZES[:2]:
            T("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n),
              data=[LEAF[i % len(LEAF)] for i in range(n)] if what == "log" else [])

    def deep(k, n, level):
        g, w = log(k, [([], [{}])])
        t = k.items(g)[0]
        e = k.items(t)[0]
        cur, path, rows = {"log": g, "trace": t, "event": e}[level], [], []
        for i in range(n):
            cur = put(k, cur, "literal", "n%d" % i, "v%d" % i)
            path.append("n%d" % i)
            rows.append((":".join(path), "v%d" % i, None))
        k.save(g, "/tmp/n.mxml", "XMxmlSerializer")
        got = k.load("/tmp/n.mxml", "XMxmlParser")[0]
        at = k.last
        nm, gd, [(tn, td, [ev], tr)], lr = w
        ev = list(ev)
        if level == "event":
            ev[4] = rows
        judge(k, got, (nm, rows if level == "log" else gd, [(tn, rows if level == "trace" else td, [tuple(ev)], tr)], lr), at)
    for level in ("log", "trace", "event"):
        for n in (3, 4, 5) + DEPTHS:
            k.scenario("many/depth/%s/%d" % (level, n), lambda k, n=n, l=level: deep(k, n, l))

    def wide(k, n, level):
        g, w = log(k, [([], [{}])])
        t = k.items(g)[0]
        o = {"log": g, "trace": t, "event": k.items(t)[0]}[level]
        top = put(k, o, "literal", "top", "v")
        rows = [("top", "v", None)]
        for i in range(n):
            put(k, o, "discrete", "o%d" % i, i)
            put(k, top, "literal", "n%d" % i, "v%d" % i)
            rows += [("o%d" % i, str(i), None), ("top:n%d" % i, "v%d" % i, None)]
        k.save(g, "/tmp/n.mxml", "XMxmlSerializer")
        got = k.load("/tmp/n.mxml", "XMxmlParser")[0]
        at = k.last
        nm, gd, [(tn, td, [ev], tr)], lr = w
        ev = list(ev)
        if level == "event":
            ev[4] = rows
        judge(k, got, (nm, rows if level == "log" else gd, [(tn, rows if level == "trace" else td, [tuple(ev)], tr)], lr), at)
    for level in ("log", "trace", "event"):
        for n in SIZES[1:]:
            k.scenario("many/wide/%s/%d" % (level, n), lambda k, n=n, l=level: wide(k, n, l))

    # keys that mean something somewhere are data like any other, except where MXML has an element for them ----
    def known_keys(k, level, rot, nest):
        g, w = log(k, [([], [{}])])
        t = k.items(g)[0]
        e = k.items(t)[0]
        own = {"log": (), "trace": (), "event": ("lifecycle:transition", "time:timestamp", "org:resource")}[level]
        o = {"log": g, "trace": t, "event": e}[level]
        rows = []
        done = keyed(k, o, rot, skip=("concept:name", "semantic:modelReference") + own)
        for i, a in enumerate(done):
            rows.append((k.get(a, "get_key"), k.str(a)))
        if nest:
            for i, a in enumerate(done):
                for b in keyed(k, a, rot + i, skip=("semantic:modelReference",), only=lambda x, i=i: len(x) % 9 == i % 9):
                    rows.append((k.plus(k.get(a, "get_key"), k.plus(":", k.get(b, "get_key"))), k.str(b)))
        k.save(g, "/tmp/k.mxml", "XMxmlSerializer")
        got = k.load("/tmp/k.mxml", "XMxmlParser")[0]
        at = k.last
        t = k.items(got)[0]
        r = {"log": got, "trace": t, "event": k.items(t)[0]}[level]
        last = dict(rows)
        for key, v in last.items():
            a = k.attr_of(r, key)
            k.ok(a is not None, "the data attribute %s of the %s is missing" % (key, level), at)
            k.same(k.get(a, "get_value"), v, "value of the data attribute %s of the %s" % (key, level), at)
        extra_ = {"log": STD[:1] + ("source", "lifecycle:model"), "trace": ("concept:name", "description"),
                  "event": STD[:3] + ("time:timestamp",)}[level]
        k.same(sorted(n for n, _ in k.attrs(r) if n not in last and n not in extra_), [], "attributes of the %s besides" % level, at)
    for level in ("log", "trace", "event"):
        for rot in range(len(LEAF)):
            k.scenario("keys/%s/%d" % (level, rot), lambda k, l=level, r=rot: known_keys(k, l, r, False))
        for rot in (0, 3):
            k.scenario("keys/%s/nested/%d" % (level, rot), lambda k, l=level, r=rot: known_keys(k, l, r, True))

    def long(k, n):
        s = lambda c: c * n + "z"
        e = k.event()
        for key, v in (("concept:name", s("a")), ("lifecycle:transition", s("b")), ("org:resource", s("c")), (s("k"), s("d"))):
            put(k, e, "literal", key, v)
        t = k.trace([e])
        put(k, t, "literal", "concept:name", s("t"))
        g = k.log([t])
        put(k, g, "literal", "concept:name", s("g"))
        k.save(g, "/tmp/n.mxml", "XMxmlSerializer")
        r = k.load("/tmp/n.mxml", "XMxmlParser")[0]
        at = k.last
        k.same((text(k, r, "concept:name"), text(k, k.items(r)[0], "concept:name")), (s("g"), s("t")), "names of log and trace", at)
        f = k.items(k.items(r)[0])[0]
        for key in ("concept:name", "lifecycle:transition", "org:resource", s("k")):
            k.same(text(k, f, key), text(k, e, key), "%s of %d characters" % (key[:40], n), at)
    for n in LENGTHS:
        k.scenario("many/long/%d" % n, lambda k, n=n: long(k, n))

    # values that look like something else; MXML does not keep blanks around a value
    def odd(k, level):
        e = k.event()
        put(k, e, "literal", "concept:name", "e")
        t = k.trace([e])
        put(k, t, "literal", "concept:name", "t")
        g = k.log([t])
        put(k, g, "literal", "concept:name", "g")
        o = {"log": g, "trace": t, "event": e}[level]
        want = {}
        for i, v in enumerate(TEXTS):
            if v.strip() == v:
                put(k, o, "literal", "k%d" % i, v)
                want["k%d" % i] = v
        k.save(g, "/tmp/n.mxml", "XMxmlSerializer")
        r = k.load("/tmp/n.mxml", "XMxmlParser")[0]
        at = k.last
        f = {"log": r, "trace": k.items(r)[0], "event": k.items(k.items(r)[0])[0]}[level]
        for n, v in want.items():
            k.same(text(k, f, n), v, "value of a data attribute of the " + level, at)

    def odd_names(k):
        evs, ts = [], []
        vs = [v for v in TEXTS if v.strip() == v]
        for v in vs:
            e = k.event()
            put(k, e, "literal", "concept:name", v)
            put(k, e, "literal", "org:resource", v)
            evs.append(e)
            t = k.trace([k.event(k.attr("literal", "concept:name", "x"))])
            put(k, t, "literal", "concept:name", v)
            ts.append(t)
        g = k.log([k.trace(evs, [k.attr("literal", "concept:name", "t")])] + ts)
        put(k, g, "literal", "concept:name", "a  b")
        k.save(g, "/tmp/n.mxml", "XMxmlSerializer")
        r = k.load("/tmp/n.mxml", "XMxmlParser")[0]
        at = k.last
        k.same(text(k, r, "concept:name"), "a  b", "name of the log", at)
        rs = k.items(r)
        k.same([text(k, x, "concept:name") for x in rs[1:]], vs, "names of the traces", at)
        for key in ("concept:name", "org:resource"):
            k.same([text(k, x, key) for x in k.items(rs[0])], vs, key + " of the events", at)
    for level in ("log", "trace", "event"):
        k.scenario("texts/" + level, lambda k, l=level: odd(k, l))
    k.scenario("texts/names", odd_names)

    # serializer and parser used again; what was read can be written again
    def again(k):
        s, p = k.new("XMxmlSerializer"), k.new("XMxmlParser")
        r1 = trip(k, [(["literal"], [{}, {"trans": "Odd", "who": None}])], "/tmp/1.mxml", s, p, data=["literal"])
        trip(k, [([], [{"tz": None, "trans": None}])], "/tmp/2.mxml", s, p)
        e = k.items(k.items(r1)[0])
        keep = [(text(k, x, "concept:name"), text(k, x, "lifecycle:transition"), text(k, x, "org:resource")) for x in e]
        k.save(r1, "/tmp/3.mxml", s)
        r3 = k.load("/tmp/3.mxml", p)[0]
        f = k.items(k.items(r3)[0])
        k.same(len(f), len(e), "number of events after a second round")
        k.same(tuple((text(k, x, "concept:name"), text(k, x, "lifecycle:transition"), text(k, x, "org:resource")) for x in f),
               tuple(keep), "events after a second round", k.last)
        k.same(text(k, r3, "concept:name"), text(k, r1, "concept:name"), "name after a second round")
    k.scenario("again", again)
    k.scenario("universal", lambda k: trip(k, [(["literal"], [{}, {}])], parser="XUniversalParser"))

    def in_bytes(k):
        g, w = log(k, [([], [{}, {"trans": "Odd"}])])
        out = k.openfile("/tmp/b.mxml", "wb")
        k.m(k.new("XMxmlSerializer"), "serialize", g, out, True)
        k.I.call(k.I.getattr(out, "close"), [])
        judge(k, k.load("/tmp/b.mxml", "XMxmlParser")[0], w, k.last)
    k.scenario("in-bytes", in_bytes)

    # an unnamed log or trace, an unnamed event
    def unnamed(k):
        e = k.event(k.attr("literal", "lifecycle:transition", "start"))
        f = k.event(k.attr("literal", "concept:name", "x"))
        g = k.log([k.trace([e, f])])
        k.save(g, "/tmp/u.mxml", "XMxmlSerializer")
        r = k.load("/tmp/u.mxml", "XMxmlParser")[0]
        at = k.last
        t = k.items(k.items(r)[0])
        k.same(len(t), 2, "number of events", at)
        k.same(text(k, t[0], "lifecycle:transition"), "start", "transition of the unnamed event", at)
        k.same(text(k, t[1], "concept:name"), "x", "name of the event", at)
    k.scenario("unnamed", unnamed)

    # documents of other programs ---------------------------------------------
    e_ = lambda k, tag, at=(), *c, **kw: k.elem(tag, at, *c, **kw)

    def doc(k, procs, source=None):
        """procs: [(id, desc, data, [(id, desc, data, [(data, name, type, unknown, time, who)])])]"""
        def data(d):
            return [k.elem("Data", {}, *[k.elem("Attribute", {"name": n}, text=v) for n, v in d])] if d else []
        ps = []
        for pid, desc, d, insts in procs:
            xs = []
            for iid, idesc, idd, evs in insts:
                es = []
                for ed, n, ty, unk, tm, who in evs:
                    kids = data(ed) + [k.elem("WorkflowModelElement", {}, text=n),
                                       k.elem("EventType", {"unknowntype": unk} if unk is not None else {}, text=ty)]
                    if tm:
                        kids.append(k.elem("Timestamp", {}, text=tm))
                    if who is not None:
                        kids.append(k.elem("Originator", {}, text=who))
                    es.append(k.elem("AuditTrailEntry", {}, *kids))
                at = {"id": iid}
                if idesc:
                    at["description"] = idesc
                xs.append(k.elem("ProcessInstance", at, *(data(idd) + es)))
            at = {"id": pid}
            if desc:
                at["description"] = desc
            ps.append(k.elem("Process", at, *(data(d) + xs)))
        src = [k.elem("Source", {"program": source[0]}, *data(source[1]))] if source else []
        return k.elem("WorkflowLog", {}, *(src + ps))

    def foreign(k, variant):
        pad = lambda x: k.plus(k.plus("\n\t ", x), " \n")
        n1, n2, w1, d1, d2, d3 = (k.phrase(x, excl=X) for x in ("n1", "n2", "w1", "d1", "d2", "d3"))
        evs = [([("ek", d3)], pad(n1), "start", None, "2020-01-02T03:04:05.678+01:00", w1), ([], n2, "unknown", "Odd one", None, None),
               ([], n1, " Complete ", None, "2020-01-02T03:04:05Z", "")]
        P1 = ("p1", "about p1", [("gk", d1)], [("i1", "", [("tk", d2)], evs), ("i2", "about i2", [], []), ("i3", "", [], evs[:1])])
        P2 = ("p2", "", [], [("j1", "", [], evs[1:])])
        procs = {"one": [P1], "two": [P1, P2], "source": [P1, P2]}[variant]
        src = ("prog", [("sk", d1)]) if variant == "source" else None
        k.place("/tmp/f.mxml", doc(k, procs, src))
        got = k.load("/tmp/f.mxml", "XMxmlParser")
        at = k.last
        k.same(len(got), len(procs), "number of logs read", at)
        W = [(n1, "start", w1, ("2020-01-02T03:04:05.678", 60), {"ek": d3}), (n2, "Odd one", None, None, {}),
             (n1, "Complete", None, ("2020-01-02T03:04:05.000", 0), {})]
        tw = {"p1": [("i1", {"tk": d2}, W), ("i3", {}, W[:1])], "p2": [("j1", {}, W[1:])]}
        for g, p in zip(got, procs):
            k.same(text(k, g, "concept:name"), p[0], "name of the log", at)
            gd = {n: k.get(a, "get_value") for n, a in k.attrs(g) if n not in STD}
            k.same(gd, dict(p[2]), "data of the log", at) if False else cmpd(k, gd, dict(p[2]), "the log", at)
            if p[1]:
                k.same(text(k, g, "description"), p[1], "description of the log", at)
            if src:
                s = k.attr_of(g, "source")
                k.ok(s is not None, "the source is lost", at)
                k.same(k.get(s, "get_value"), "prog", "source of the log", at)
                cmpd(k, {n: k.get(a, "get_value") for n, a in k.attrs(s)}, {"sk": d1}, "the source", at)
            else:
                k.isnone(k.attr_of(g, "source"), "source of a log without one")
            ts = k.items(g)
            k.same(len(ts), len(tw[p[0]]), "number of traces", at)
            for t, (tn, td, evw) in zip(ts, tw[p[0]]):
                k.same(text(k, t, "concept:name"), tn, "name of the trace", at)
                cmpd(k, {n: k.get(a, "get_value") for n, a in k.attrs(t) if n not in STD}, td, "the trace", at)
                es = k.items(t)
                k.same(len(es), len(evw), "number of events", at)
                for e, (n, ty, who, tm, d) in zip(es, evw):
                    k.same(text(k, e, "concept:name"), n, "name of the event", at)
                    k.same(text(k, e, "lifecycle:transition"), ty, "transition of the event", at)
                    if who is None:
                        k.isnone(k.attr_of(e, "org:resource"), "originator")
                    else:
                        k.same(text(k, e, "org:resource"), who, "originator of the event", at)
                    a = k.attr_of(e, "time:timestamp")
                    if tm is None:
                        k.isnone(a, "timestamp")
                    else:
                        k.ok(a is not None, "the timestamp is lost", at)
                        v = xes.val(k, k.get(a, "get_value"))
                        import datetime as D
                        x = D.datetime.fromisoformat(tm[0])
                        k.same((v[1], v[2], v[3]), ((x.year, x.month, x.day, x.hour, x.minute, x.second), x.microsecond // 1000, tm[1]),
                               "timestamp of the event", at)
                    cmpd(k, {n_: k.get(a_, "get_value") for n_, a_ in k.attrs(e) if n_ not in STD}, d, "the event", at)
    for v in ("one", "two", "source"):
        k.scenario("foreign/" + v, lambda k, v=v: foreign(k, v))

    def what_mxml_has(k):
        g = trip(k, [([], [{}])])
        k.same(len({id(x) for x in k.items(k.get(g, "get_extensions"))}), 5, "extensions of a log read from MXML")
        for n in ("XConceptExtension", "XOrganizationalExtension", "XLifecycleExtension", "XSemanticExtension", "XTimeExtension"):
            k.ok(k.truth(k.has(k.get(g, "get_extensions"), k.new(n))), n + " is not declared")
        k.same(tuple(k.get(a, "get_key") for a in k.items(k.get(g, "get_global_trace_attributes"))), ("concept:name",),
               "global trace attributes")
        k.same(tuple(k.get(a, "get_key") for a in k.items(k.get(g, "get_global_event_attributes"))),
               ("concept:name", "lifecycle:transition"), "global event attributes")
        k.same(tuple(tuple(k.items(k.get(c, "get_defining_attribute_keys"))) for c in k.items(k.get(g, "get_classifiers"))),
               (("concept:name", "lifecycle:transition"), ("concept:name",), ("org:resource",)), "classifiers")
    k.scenario("declarations", what_mxml_has)


def cmpd(k, got, want, what, at):
    k.same(sorted(got), sorted(want), "data attributes of " + what, at)
    for n in want:
        k.same(got[n], want[n], "data attribute %s of %s" % (n, what), at)


MIN_SCENARIOS = 80
