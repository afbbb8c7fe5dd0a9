"""Extended events, by abstract interpretation of the wrapper's accessors against the wrapped event."""
METHOD = ("Abstract interpretation of every getter and setter of the event wrapper over symbolic values; the term written "
          "through the wrapper must be the one the matching standard extension reads from the wrapped event, and vice versa.")
RULE = "wrapper.get_x() == extension.extract_x(event); wrapper.set_x(v) => extract_x(event) == v; other attributes unchanged"

# getter, setter, extension, member, key, kind
TABLE = [("get_name", "set_name", "XConceptExtension", "name", "concept:name"),
         ("get_instance", "set_instance", "XConceptExtension", "instance", "concept:instance"),
         ("get_time_stamp", "set_time_stamp", "XTimeExtension", "timestamp", "time:timestamp"),
         ("get_resourse", "set_resource", "XOrganizationalExtension", "resource", "org:resource"),
         ("get_role", "set_role", "XOrganizationalExtension", "role", "org:role"),
         ("get_group", "set_group", "XOrganizationalExtension", "group", "org:group"),
         ("get_transition", "set_transition", "XLifecycleExtension", "transition", "lifecycle:transition")]


def run(k):
    def value(k, m, n):
        return k.dt(n, k.zone(n + ".z", -1)) if m == "timestamp" else k.phrase(n)

    def base(k, skip=None, full=True):
        e = k.event(k.attr("literal", k.key("plain"), name="plain.v"))
        if full:
            for _, _, _, m, key in TABLE:
                if key != skip:
                    k.put(e, k.attr("timestamp" if m == "timestamp" else "literal", key, value(k, m, key)))
        return e

    def wrap(k, e, how):
        return k.new("XExtendedEvent", e) if how else k.static("XExtendedEvent", "wrap", e)

    def access(k, row, full, how):
        g, s, cn, m, key = row
        e, f = base(k, key, full), base(k, key, full)
        w = wrap(k, e, how)
        before, bf = k.views(e), k.views(f)
        k.isnone(k.m(w, g), "%s of an event without it" % m)
        v, u = value(k, m, "v"), value(k, m, "u")
        k.m(w, s, v)
        at = k.last
        k.same(k.m(w, g), v, "%s read after setting it" % m, at)
        k.same(k.m(k.new(cn), "extract_" + m, e), v, "%s of the wrapped event" % m, at)
        k.same(tuple(x for x in k.views(e) if x[0] != key), before, "the other attributes after setting %s" % m, at)
        for g2, _, _, m2, key2 in TABLE:
            if key2 != key and full:
                k.same(k.m(w, g2), k.get(k.attr_of(e, key2), "get_value"), "%s after setting %s" % (m2, m), at)
            elif key2 != key:
                k.isnone(k.m(w, g2), "%s after setting %s" % (m2, m))
        w2 = wrap(k, f, not how)
        k.m(w2, s, u)
        k.same(k.m(w, g), v, "%s after setting it on another wrapper" % m, at)
        k.same(tuple(x for x in k.views(f) if x[0] != key), bf, "the other event", at)
        k.m(k.new(cn), "assign_" + m, e, u)
        k.same(k.m(w, g), u, "%s after assigning it to the wrapped event" % m, at)
        k.same(k.m(wrap(k, e, how), g), u, "%s read through a second wrapper" % m, at)
    for row in TABLE:
        for full in (True, False):
            for how in (True, False):
                k.scenario("access/%s/%s/%s" % (row[3], "full" if full else "bare", "new" if how else "wrap"),
                           lambda k, r=row, f=full, h=how: access(k, r, f, h))

    def transitions(k, s):
        e = base(k)
        w = wrap(k, e, True)
        k.m(w, "set_standard_transition", s)
        k.same(k.m(w, "get_standard_transition"), s, "standard transition")
        k.same(k.m(w, "get_transition"), s, "transition")
        k.m(w, "set_transition", s.upper())
        k.same(k.m(w, "get_standard_transition"), s, "standard transition of %r" % s.upper())
        k.m(w, "set_transition", "no such state")
        k.same(k.m(w, "get_standard_transition"), "unknown", "standard transition of an unknown state")
        k.isnone(k.m(wrap(k, base(k, full=False), True), "get_standard_transition"), "standard transition of an event without")
    for s in ("schedule", "start", "complete", "pi_abort", "unknown"):
        k.scenario("transition/%s" % s, lambda k, s=s: transitions(k, s))

    def refs(k, n):
        e = base(k)
        before = k.views(e)
        w = wrap(k, e, True)
        rs = [k.word("r%d" % i) for i in range(n)]
        k.m(w, "set_model_references", k.lst(*rs))
        at = k.last
        k.same(tuple(k.items(k.m(w, "get_model_references"))), tuple(rs), "model references read after setting them", at)
        k.same(tuple(k.items(k.m(k.new("XSemanticExtension"), "extract_model_references", e))), tuple(rs),
               "model references of the wrapped event", at)
        k.same(tuple(x for x in k.views(e) if x[0] != "semantic:modelReference"), before, "the other attributes", at)
        us = ["http://example.org/Onto#A%d" % i for i in range(n)]
        k.m(w, "set_model_references", k.lst(*us))
        ps = k.items(k.m(w, "get_model_references_uris"))
        if n:
            k.same(tuple(k.m(p, "geturl") for p in ps), tuple(us), "model reference URIs", k.last)
            f = base(k, full=False)
            w2 = wrap(k, f, False)
            k.m(w2, "set_model_references_uris", k.lst(*ps))
            k.same(tuple(k.items(k.m(w2, "get_model_references"))), tuple(us), "references set as URIs", k.last)
    for n in (0, 1, 2):
        k.scenario("model-references/%d" % n, lambda k, n=n: refs(k, n))

    def attributes(k):
        e = base(k)
        w = wrap(k, e, True)
        k.same(k.m(w, "get_attributes"), k.get(e, "get_attributes"), "attributes of the wrapper")
        k.same(k.truth(k.m(w, "has_attributes")), True, "wrapper of an event with attributes")
        mp = k.amap(k.attr("literal", k.key("new"), name="new.v"))
        k.m(w, "set_attributes", mp)
        k.same(k.get(e, "get_attributes"), mp, "attributes of the event after setting those of the wrapper")
        k.m(w, "set_attributes", k.amap())
        k.same(k.truth(k.m(w, "has_attributes")), False, "wrapper of an event without attributes")
        x = k.new("XExtension", "n", "p", "urn:p")
        f = k.event(k.attr("literal", "k", ext=x))
        w = wrap(k, f, False)
        k.same(tuple(k.items(k.m(w, "get_extensions"))), (x,), "extensions of the wrapper")
        y = k.new("XExtension", "m", "q", "urn:q")
        deep = k.attr("literal", "deep", ext=y)
        mid = k.attr("literal", "mid")
        k.put(mid, deep)
        k.put(f, mid)
        k.same(sorted(k.m(z, "get_name") for z in k.items(k.m(w, "get_extensions"))), ["m", "n"], "extensions of a wrapper of nested attributes")
        k.same(sorted(k.m(z, "get_name") for z in k.items(k.get(f, "get_extensions"))), ["m", "n"], "extensions of the wrapped event")
    k.scenario("attributes", attributes)

    def clone(k, e):
        w = wrap(k, e, True)
        c = k.m(w, "clone")
        at = k.last
        k.ok(k.isinst(c, "XExtendedEvent"), "the clone of a wrapper is no wrapper", at)
        before = k.views(e)
        k.same(k.views(c), before, "attributes of the clone", at)
        k.same(k.truth(k.eq(w, c)), False, "the clone has the identifier of the original", at)
        k.m(c, "set_name", k.phrase("other"))
        k.same(k.views(e), before, "changing the clone changed the wrapped event", at)
        snap = k.views(c)
        k.m(w, "set_role", k.phrase("role"))
        k.same(k.views(c), snap, "changing the wrapper changed its clone", at)
    k.scenario("clone", lambda k: clone(k, base(k)))
    k.scenario("clone/bare", lambda k: clone(k, base(k, full=False)))
    k.scenario("clone/empty", lambda k: clone(k, k.event()))
    k.scenario("clone/nested", lambda k: clone(k, k.event(k.attr("list", "l", members=[k.attr("literal", "m")]))))

    def identity(k):
        e, f = base(k), base(k)
        a, b = wrap(k, e, True), wrap(k, f, True)
        k.same(k.truth(k.eq(a, a)), True, "a wrapper equals itself")
        k.same(k.truth(k.ne(a, a)), False, "a wrapper differs from itself")
        k.same(k.truth(k.eq(a, b)), False, "wrappers of two events are equal")
        k.same(k.truth(k.ne(a, b)), True, "wrappers of two events")
        k.same(k.truth(k.eq(a, e)), False, "a wrapper equals an event")
        k.same(k.hash(a), k.hash(a), "hash of a wrapper")
        u = k.m(a, "get_id")
        k.m(a, "set_name", k.phrase("n"))
        k.same(k.truth(k.eq(k.m(a, "get_id"), u)), True, "identifier after a change")
        k.same(k.truth(k.eq(k.m(b, "get_id"), u)), False, "identifiers of two wrappers")
    k.scenario("identity", identity)


    # long texts, many other attributes, many wrappers, many changes
    def text(k, row, n):
        g, s, cn, m, key = row
        for v in ("x" * n, "a b" * (n // 3), "y" * (n - 1) + "."):
            e = k.event(k.attr("literal", "plain", "p"))
            w = wrap(k, e, True)
            k.m(w, s, v)
            at = k.last
            k.same(k.m(w, g), v, "long %s read after setting it" % m, at)
            k.same(k.m(k.new(cn), "extract_" + m, e), v, "long %s of the wrapped event" % m, at)
            k.same(k.m(wrap(k, k.event(k.attr("literal", key, v)), False), g), v, "long %s of an event that carries it" % m)
    for row in TABLE:
        if row[3] != "timestamp":
            for n in (33, 100, 257, 1100, 5000):
                k.scenario("long/%s/%d" % (row[3], n), lambda k, r=row, n=n: text(k, r, n))

    def history(k, row, n):
        g, s, cn, m, key = row
        ds = [k.dt("v%d" % i, "utc") for i in range(3 if m == "timestamp" else 0)]
        v = lambda i: ds[i % 3] if ds else "v%d" % i
        e = k.event(*[k.attr("literal", "k%d" % i, "o") for i in range(n)])
        others = k.views(e)
        w = wrap(k, e, True)
        es = [k.event() for _ in range(n)]
        ws = [wrap(k, x, i % 2) for i, x in enumerate(es)]
        for i in range(n):
            k.m(w, s, v(i))
            at = k.last
            k.same(k.m(w, g), v(i), "%s set again and again" % m, at)
            k.m(ws[i], s, v(i))
        k.same(tuple(x for x in k.views(e) if x[0] != key), others, "the other attributes after setting %s again and again" % m, at)
        for i in range(n):
            k.same(k.m(ws[i], g), v(i), "%s of one wrapper among many" % m, at)
            k.same(k.m(k.new(cn), "extract_" + m, es[i]), v(i), "%s of one wrapped event among many" % m, at)
    for row in TABLE:
        for n in (9, 33, 100):
            k.scenario("many/%s/%d" % (row[3], n), lambda k, r=row, n=n: history(k, r, n))

    def references(k, n):
        e = k.event()
        w = wrap(k, e, True)
        us = ["http://example.org/Onto#A%d" % i for i in range(n)]
        k.m(w, "set_model_references", k.lst(*us))
        at = k.last
        k.same(tuple(k.items(k.m(w, "get_model_references"))), tuple(us), "%d model references" % n, at)
        ps = k.items(k.m(w, "get_model_references_uris"))
        k.same(tuple(k.m(p, "geturl") for p in ps), tuple(us), "%d model reference URIs" % n, k.last)
        w2 = wrap(k, k.event(), False)
        k.m(w2, "set_model_references_uris", k.lst(*ps))
        k.same(tuple(k.items(k.m(w2, "get_model_references"))), tuple(us), "%d references set as URIs" % n, k.last)
    for n in (9, 33, 100):
        k.scenario("many-references/%d" % n, lambda k, n=n: references(k, n))


MIN_SCENARIOS = 35
