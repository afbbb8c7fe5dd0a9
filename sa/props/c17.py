"""Log summaries (XLogInfo), by abstract interpretation of XLogInfoFactory.create_log_info on symbolic logs."""

from .common import DEPTHS, SIZES, keyed, moments, shuffled

METHOD = ("Abstract interpretation of the construction of log summaries over symbolic logs (attribute kinds, nested "
          "attributes, empty traces, missing timestamps, several classifiers); every figure reported is compared with the "
          "figure the log's structure defines.")
RULE = "event/trace counts, time bounds, attribute statistics and event classes of the summary == those of the log"

TS, NAME, LT, RES = "time:timestamp", "concept:name", "lifecycle:transition", "org:resource"

X = " \t\n\r'\"&"


def keys(k, xs):
    return tuple(sorted(k.items(xs), key=str))


def run(k):
    def build(k, shape, ts=True):
        """shape: events per trace."""
        self = {"dates": [], "events": [], "traces": []}
        traces = []
        res, ls = k.word("r", excl=X), [k.word("l%d" % i, excl=X, rank=("l", i)) for i in range(2)]
        for i, n in enumerate(shape):
            evs = []
            ds = []
            for j in range(n):
                e = k.event(k.attr("literal", NAME, k.word("n%d%d" % (i, j), excl=X, rank=("n", (7 * i + 3 * j) % 10))),
                            k.attr("literal", RES, res), k.attr("literal", LT, ls[j % 2]))
                if ts and not (j == 1):
                    d = k.dt("d%d%d" % (i, j))
                    ds.append(d)
                    k.put(e, k.attr("timestamp", TS, d))
                k.put(k.attr_of(e, NAME), k.attr("literal", "meta", k.word("m")))
                evs.append(e)
            t = k.trace(evs, [k.attr("literal", NAME, k.word("t%d" % i)), k.attr("discrete", "size")])
            traces.append(t)
            self["traces"].append((t, evs, ds))
            self["dates"] += ds
            self["events"] += evs
        g = k.log(traces, [k.attr("literal", NAME, k.word("log"))])
        k.put(k.attr_of(g, NAME), k.attr("literal", "meta", k.word("m")))
        k.put(k.attr_of(g, NAME), k.attr("boolean-true", "meta2"))
        self["log"] = g
        return self

    def bounds(k, b, ds, what):
        at = k.last
        if not ds:
            k.isnone(k.m(b, "get_start_date"), "start of " + what)
            k.isnone(k.m(b, "get_end_date"), "end of " + what)
            return
        s, e = k.m(b, "get_start_date"), k.m(b, "get_end_date")
        for d in ds:
            k.same(k.truth(k.cmp("<=", s, d)), True, "a date of an event lies before the start of " + what, at)
            k.same(k.truth(k.cmp("<=", d, e)), True, "a date of an event lies after the end of " + what, at)
        k.ok(any(k.truth(k.eq(s, d)) for d in ds) and any(k.truth(k.eq(e, d)) for d in ds),
             "an end of %s is the date of no event" % what, at)

    def judge(k, info, L, shape):
        at = k.last
        k.same(k.m(info, "get_log"), L["log"], "log of the summary", at)
        k.same(k.m(info, "get_number_of_event"), sum(shape), "number of events", at)
        k.same(k.m(info, "get_number_of_traces"), len(shape), "number of traces", at)
        bounds(k, k.m(info, "get_log_time_boundaries"), L["dates"], "the log's time boundaries")
        for t, evs, ds in L["traces"]:
            b = k.m(info, "get_trace_time_boundaries", t)
            k.ok(b is not None, "a trace has no time boundaries", at)
            bounds(k, b, ds, "a trace's time boundaries")
        li, ti, ei, mi = [k.m(info, "get_%s_attribute_info" % x) for x in ("log", "trace", "event", "meta")]
        k.same(keys(k, k.m(li, "get_attribute_keys")), (NAME,), "log attribute keys", at)
        k.same(k.m(li, "get_frequency", NAME), 1, "frequency of a log attribute", at)
        n = len(shape)
        k.same(keys(k, k.m(ti, "get_attribute_keys")), ("concept:name", "size") if n else (), "trace attribute keys", at)
        if n:
            k.same(k.m(ti, "get_frequency", NAME), n, "frequency of a trace attribute", at)
            k.same(k.m(ti, "get_relative_frequency", NAME), n / (2 * n), "relative frequency of a trace attribute", at)
        m = sum(shape)
        if m:
            want = {NAME, RES, LT} | ({TS} if L["dates"] else set())
            k.same(keys(k, k.m(ei, "get_attribute_keys")), tuple(sorted(want)), "event attribute keys", at)
            k.same(k.m(ei, "get_frequency", NAME), m, "frequency of an event attribute", at)
            if L["dates"]:
                k.same(k.m(ei, "get_frequency", TS), len(L["dates"]), "frequency of the timestamp", at)
        k.same(keys(k, k.m(mi, "get_attribute_keys")), ("meta", "meta2"), "meta attribute keys", at)
        k.same(k.m(mi, "get_frequency", "meta"), m + 1, "frequency of a meta attribute", at)
        k.same(k.m(mi, "get_frequency", "meta2"), 1, "frequency of a meta attribute", at)

    def classes(k, cs, c, L, keylist):
        from .c19 import joined
        k.ok(cs is not None, "no event classes for a classifier of the summary", k.last)
        want = {}
        for e in L["events"]:
            t = joined(k, [k.str(k.attr_of(e, x)) if k.attr_of(e, x) is not None else "" for x in keylist])
            for w in want:
                if k.truth(k.eq(w, t)):
                    want[w] += 1
                    break
            else:
                want[t] = 1
        k.same(k.len(cs), len(want), "number of event classes under %s" % keylist)
        for w, n in want.items():
            k.same(k.m(k.m(cs, "get_by_identity", w), "size"), n, "size of an event class under %s" % keylist)
        for e in L["events"]:
            k.ok(k.m(cs, "get_class_of", e) is not None, "an event has no class")
        if want:
            k.same(k.m(k.m(cs, "get_by_index", 0), "get_index"), 0, "class at index 0")

    def full(k, shape, which, ts=True):
        L = build(k, shape, ts)
        snap = k.view_log(L["log"])
        if which == "default":
            info = k.static("XLogInfoFactory", "create_log_info", L["log"])
            dk = [NAME, LT]
        elif which == "given":
            c = k.new("XEventAttributeClassifier", k.word("cn"), k.lst(RES, NAME))
            info = k.static("XLogInfoFactory", "create_log_info", L["log"], c)
            dk = [RES, NAME]
        else:
            c = k.new("XEventAttributeClassifier", "Mine 1", k.lst(RES, NAME))
            c2 = k.new("XEventAttributeClassifier", "Mine 2", k.lst(LT, NAME))
            info = k.static("XLogInfo", "create", L["log"], c, k.lst(c2))
            dk = [RES, NAME]
        k.same(k.view_log(L["log"]), snap, "summarising a log changed it")
        judge(k, info, L, shape)
        classes(k, k.m(info, "get_event_classes"), None, L, dk)
        classes(k, k.m(info, "get_name_classes"), None, L, [NAME])
        classes(k, k.m(info, "get_resource_classes"), None, L, [RES])
        classes(k, k.m(info, "get_transition_classes"), None, L, [LT])
        if which == "given":
            classes(k, k.m(info, "get_event_classes", c), None, L, [RES, NAME])
        if which == "several":
            classes(k, k.m(info, "get_event_classes", c2), None, L, [LT, NAME])
            cl = k.items(k.m(info, "get_event_classifiers"))
            for x in (c, c2):
                k.ok(any(k.truth(k.eq(x, y)) for y in cl), "a given classifier is missing from the summary")
        for c in k.items(k.m(info, "get_event_classifiers")):
            classes(k, k.m(info, "get_event_classes", c), None, L, k.items(k.m(c, "get_defining_attribute_keys")))
        k.isnone(k.m(info, "get_event_classes", k.new("XEventAttributeClassifier", "Other",
                                                    k.lst(k.key("zz")))), "classes of a classifier not in the summary")
    shapes = [(), (0,), (1,), (2,), (1, 1), (0, 2), (2, 0, 1)] + ([(3,), (2, 2)] if k.thorough else [])
    for sh in shapes:
        for which in ("default", "given", "several"):
            k.scenario("summary/%s/%s" % ("+".join(map(str, sh)) or "empty", which),
                       lambda k, sh=sh, w=which: full(k, sh, w))
        k.scenario("summary/%s/no-timestamps" % ("+".join(map(str, sh)) or "empty"),
                   lambda k, sh=sh: full(k, sh, "default", False))

    def cache(k):
        L = build(k, (1, 1))
        g = L["log"]
        a = k.static("XLogInfoFactory", "create_log_info", g)
        k.same(k.static("XLogInfoFactory", "create_log_info", g), a, "asking twice recomputes the summary")
        c = k.new("XEventAttributeClassifier", "Mine", k.lst(RES))
        b = k.static("XLogInfoFactory", "create_log_info", g, c)
        k.ok(b is not a, "the summary for one classifier is returned for another", k.last)
        k.same(k.m(k.m(k.m(b, "get_event_classes"), "get_classifier"), "name"), k.m(c, "name"),
               "default classifier of the second summary")
        k.same(k.m(g, "get_info", c), b, "summary remembered by the log")
        g2 = build(k, (2,))["log"]
        d = k.static("XLogInfoFactory", "create_log_info", g2)
        k.same(k.m(d, "get_log"), g2, "log of the summary of another log")
        k.same(k.m(d, "get_number_of_event"), 2, "number of events of another log")
        e = k.static("XLogInfoFactory", "create_log_info", g)
        k.same(k.m(e, "get_log"), g, "log of the summary")
        k.same(k.m(k.m(k.m(e, "get_event_classes"), "get_classifier"), "name"),
               k.m(k.const("XLogInfo", "STANDARD_CLASSIFIER"), "name"), "default classifier")
        k.isnone(k.m(k.log(), "get_info", c), "summary of a log never summarised")
    k.scenario("remembered", cache)

    def nested(k, depth):
        g = k.log([k.trace([k.event(k.attr("literal", "a"))], [k.attr("literal", "b")])], [k.attr("list", "c")])
        a = k.attr_of(k.index(k.index(g, 0), 0), "a")
        for i in range(depth):
            a = k.put(a, k.attr("literal", "n%d" % i))
        k.put(k.attr_of(k.index(g, 0), "b"), k.attr("discrete", "n0"))
        k.put(k.attr_of(g, "c"), k.attr("discrete", "n0"))
        info = k.static("XLogInfoFactory", "create_log_info", g)
        mi = k.m(info, "get_meta_attribute_info")
        k.same(keys(k, k.m(mi, "get_attribute_keys")), tuple(sorted("n%d" % i for i in range(max(depth, 1)))), "meta attribute keys")
        k.same(k.m(mi, "get_frequency", "n0"), 3 if depth else 2, "frequency of a meta attribute")
        for i in range(1, depth):
            k.same(k.m(mi, "get_frequency", "n%d" % i), 1, "frequency of a deeply nested attribute")
        for w, want in (("log", "c"), ("trace", "b"), ("event", "a")):
            k.same(keys(k, k.m(k.m(info, "get_%s_attribute_info" % w), "get_attribute_keys")), (want,), w + " attribute keys")
    for d in (0, 1, 2, 3):
        k.scenario("meta-attributes/depth%d" % d, lambda k, d=d: nested(k, d))

    def kinds(k, kd):
        g = k.log([k.trace([k.event(k.attr(kd, "a"))], [k.attr(kd, "b")])], [k.attr(kd, "c")])
        info = k.static("XLogInfoFactory", "create_log_info", g)
        for w, want in (("log", "c"), ("trace", "b"), ("event", "a")):
            i = k.m(info, "get_%s_attribute_info" % w)
            k.same(keys(k, k.m(i, "get_attribute_keys")), (want,), w + " attribute keys")
            k.same(keys(k, k.m(i, "get_keys_for_type", k.cls(k.CLASSES[kd]))), (want,), w + " attribute keys by type")
    for kd in k.KINDS:
        k.scenario("kind/%s" % kd, lambda k, kd=kd: kinds(k, kd))

    def many(k, n, order, traces):
        """One event per time, in the given order, spread over the traces; every fifth event has no timestamp of its own."""
        at = moments(k)
        ts, rows = [], []
        for x in range(traces):
            evs, ds = [], []
            for j, i in enumerate(order[x::traces]):
                e = k.event(k.attr("literal", NAME, "n%d" % (i % 7)), k.attr("literal", RES, "r%d" % (i % 2)))
                if i % 5 != 1:
                    k.put(e, k.attr("timestamp", TS, k.I.call(at, [i])))
                    ds.append(i)
                k.put(k.attr_of(e, NAME), k.attr("discrete", "m%d" % (i % 3)))
                evs.append((e, i))
            t = k.trace([e for e, _ in evs], [k.attr("literal", NAME, "t%d" % x)])
            ts.append(t)
            rows.append((t, ds))
        g = k.log(ts, [k.attr("discrete", "g%d" % i) for i in range(min(n, 70))])
        info = k.static("XLogInfoFactory", "create_log_info", g)
        here = k.last
        k.same((k.m(info, "get_number_of_event"), k.m(info, "get_number_of_traces")), (n, traces), "numbers of events and traces", here)

        def span(b, ds, what):
            if not ds:
                k.isnone(k.m(b, "get_start_date"), "start of " + what)
                return
            k.ok(k.truth(k.eq(k.m(b, "get_start_date"), k.I.call(at, [min(ds)]))), "the start of %s is not its earliest time" % what, here)
            k.ok(k.truth(k.eq(k.m(b, "get_end_date"), k.I.call(at, [max(ds)]))), "the end of %s is not its latest time" % what, here)
        span(k.m(info, "get_log_time_boundaries"), [d for _, ds in rows for d in ds], "a log of %d events" % n)
        if traces < 40:
            for t, ds in rows:
                span(k.m(info, "get_trace_time_boundaries", t), ds, "a trace of a log of %d events" % n)
        li, ti, ei, mi = [k.m(info, "get_%s_attribute_info" % x) for x in ("log", "trace", "event", "meta")]
        k.same(len(k.items(k.m(li, "get_attribute_keys"))), min(n, 70), "number of log attribute keys", here)
        k.same(k.m(ti, "get_frequency", NAME), traces, "frequency of a trace attribute", here)
        k.same(k.m(ei, "get_frequency", NAME), n, "frequency of an event attribute", here)
        k.same(k.m(ei, "get_frequency", TS), sum(len(ds) for _, ds in rows), "frequency of the timestamp", here)
        for r in range(3):
            k.same(k.m(mi, "get_frequency", "m%d" % r), len([i for i in order if i % 3 == r]), "frequency of a meta attribute", here)
        for cs, sep, m, p in ((k.m(info, "get_name_classes"), "", 7, "n"), (k.m(info, "get_resource_classes"), "", 2, "r"),
                              (k.m(info, "get_event_classes"), "&&", 7, "n"), (k.m(info, "get_transition_classes"), None, 1, "")):
            if sep is None:
                k.same(k.m(k.m(cs, "get_by_identity", ""), "size"), n, "size of the class of events without transition", here)
                continue
            for r in range(min(m, n)):
                k.same(k.m(k.m(cs, "get_by_identity", "%s%d%s" % (p, r, sep)), "size"), len([i for i in order if i % m == r]),
                       "size of an event class of %d events" % n, here)
    for n in (5,) + SIZES + (257,):
        for nm, order in (("rising", list(range(n))), ("falling", list(range(n))[::-1]), ("shuffled", shuffled(n)))[2 * (n > 50):]:
            for traces in (1, 3, n) if n < 257 else (1,):
                k.scenario("many/%d/%s/%d" % (n, nm, traces), lambda k, n=n, o=order, t=traces: many(k, n, o, t))
    for d in (4, 5) + DEPTHS:
        k.scenario("meta-attributes/depth%d" % d, lambda k, d=d: nested(k, d))

    # attributes nested broadly at every depth ----
    def broad(k, where, width, depth):
        g = k.log([k.trace([k.event()])])
        o = {"log": g, "trace": k.index(g, 0), "event": k.index(k.index(g, 0), 0)}[where]
        cur = k.put(o, k.attr("literal", "top", "v"))
        for d in range(depth):
            last = [k.put(cur, k.attr("discrete", "d%d.%d" % (d, i))) for i in range(width)]
            cur = last[d % width]
        mi = k.m(k.static("XLogInfoFactory", "create_log_info", g), "get_meta_attribute_info")
        at = k.last
        k.same(keys(k, k.m(mi, "get_attribute_keys")), tuple(sorted("d%d.%d" % (d, i) for d in range(depth) for i in range(width))),
               "meta attribute keys", at)
        for d in range(depth):
            for i in range(width):
                k.same(k.m(mi, "get_frequency", "d%d.%d" % (d, i)), 1, "frequency of a meta attribute", at)
    for where in ("log", "trace", "event"):
        for width, depth in ((2, 6), (4, 4), (9, 3), (40, 2)):
            k.scenario("meta-attributes/broad/%s/%d/%d" % (where, width, depth), lambda k, w=where, n=width, d=depth: broad(k, w, n, d))

    # events, traces and logs with nothing on them ----
    def bare(k, shape, filled):
        """shape: attributes per event; filled: the other elements carry attributes."""
        own = lambda n: [k.attr("discrete", n)] if filled else []
        evs = [[k.event(*([k.attr("literal", NAME, "n")] * min(n, 1) + [k.attr("literal", RES, "r")] * (n > 1))) for n in row] for row in shape]
        g = k.log([k.trace(row, own("t")) for row in evs], own("g"))
        info = k.static("XLogInfoFactory", "create_log_info", g)
        at = k.last
        flat = [n for row in shape for n in row]
        k.same((k.m(info, "get_number_of_event"), k.m(info, "get_number_of_traces")), (len(flat), len(shape)), "numbers of events and traces", at)
        for cs, ids in ((k.m(info, "get_name_classes"), {"": 0, "n": 1}), (k.m(info, "get_resource_classes"), {"": (0, 1), "r": 2}),
                        (k.m(info, "get_transition_classes"), {"": (0, 1, 2)}), (k.m(info, "get_event_classes"), {"&&": 0, "n&&": (1, 2)})):
            names = k.m(k.m(cs, "get_classifier"), "get_defining_attribute_keys")
            want = {}
            for n in flat:
                has = {NAME: "n" if n else "", RES: "r" if n > 1 else ""}
                t = "&&".join(has.get(x, "") for x in k.items(names))
                want[t] = want.get(t, 0) + 1
            k.same(k.len(cs), len(want), "number of event classes", at)
            for t, n in want.items():
                k.same(k.m(k.m(cs, "get_by_identity", t), "size"), n, "size of the event class %r" % t, at)
            for row in evs:
                for e in row:
                    k.ok(k.m(cs, "get_class_of", e) is not None, "an event without attributes has no class", at)
        for w, n in (("log", 1), ("trace", len(shape))):
            i = k.m(info, "get_%s_attribute_info" % w)
            k.same(len(k.items(k.m(i, "get_attribute_keys"))), 1 if filled and n else 0, w + " attribute keys", at)
    for nm, shape in (("one", [[0]]), ("two", [[0, 0]]), ("first", [[0, 2]]), ("last", [[2, 0]]), ("mixed", [[1, 0, 2], [0], [], [2, 1]]),
                      ("none", [[], []]), ("spread", [[0], [0], [0]])):
        for filled in (True, False):
            k.scenario("bare/%s/%s" % (nm, "filled" if filled else "empty"), lambda k, s=shape, f=filled: bare(k, s, f))

    # keys that mean something somewhere ----
    def known_keys(k, level, rot):
        e, f = k.event(), k.event()
        t = k.trace([e, f])
        g = k.log([t])
        no = () if level != "event" else (TS,)
        o = {"log": g, "trace": t, "event": e}[level]
        al = keyed(k, o, rot, skip=no)
        deep = [b for i, a in enumerate(al) for b in keyed(k, a, i, only=lambda x, i=i: len(x) % 9 == i % 9)]
        info = k.static("XLogInfoFactory", "create_log_info", g)
        at = k.last
        count = {}
        for b in deep:
            count[k.get(b, "get_key")] = count.get(k.get(b, "get_key"), 0) + 1
        ks = sorted(k.get(a, "get_key") for a in al)
        for w in ("log", "trace", "event", "meta"):
            i = k.m(info, "get_%s_attribute_info" % w)
            want = sorted(count) if w == "meta" else ks if w == level else []
            k.same(tuple(sorted(k.items(k.m(i, "get_attribute_keys")))), tuple(want), w + " attribute keys", at)
            for x in want:
                k.same(k.m(i, "get_frequency", x), count[x] if w == "meta" else 1, "frequency of the %s attribute %s" % (w, x), at)
    for level in ("log", "trace", "event"):
        for rot in (0, 1, 3):
            k.scenario("keys/%s/%d" % (level, rot), lambda k, l=level, r=rot: known_keys(k, l, r))


MIN_SCENARIOS = 40
