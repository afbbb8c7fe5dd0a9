"""Clone faithfulness and independence, by interprocedural heap/value-flow analysis of the clone operations."""
from .common import ALL, BIG, DEPTHS, LEAF, SIZES, mutate, mutate_element, nested, keyed

METHOD = ("Abstract interpretation of clone() of every model class: the clone's observable value must be the same "
          "provenance terms as the original's, and after every mutator has been applied to one copy the abstract heap "
          "reachable from the other must denote the unchanged value (no shared mutable object).")
RULE = "view(clone) == view(original); view(original) invariant under mutation of the clone and vice versa"


def pair(k, o, view, change, label):
    before = view(o)
    c = k.m(o, "clone")
    k.ok(c is not o, "clone() of %s returns the object itself" % label)
    k.same(view(o), before, "cloning changed the %s" % label)
    k.same(view(c), before, "the clone of the %s differs" % label)
    at = k.last
    change(c, "cl")
    k.same(view(o), before, "changing the clone of the %s changed the original" % label, at)
    snap = view(c)
    change(o, "or")
    k.same(view(c), snap, "changing the original %s changed its clone" % label, at)
    return c


def run(k):
    for kd in ALL:
        for depth in (0, 1, 2) if not k.thorough else (0, 1, 2, 3):
            for withext in (False, True):
                def f(k, kd=kd, depth=depth, withext=withext):
                    ext = k.new("XConceptExtension") if withext else None
                    a = nested(k, kd, "a", ext=ext, depth=depth)
                    c = k.m(a, "clone")
                    k.same(k.truth(k.eq(a, c)), True, "an attribute and its clone compare unequal")
                    pair(k, a, lambda x: k.view(x), lambda x, p: mutate(k, x, p), kd + " attribute")
                k.scenario("clone/%s/depth%d%s" % (kd, depth, "/ext" if withext else ""), f)

    def deep(k, outer, inner):
        a = nested(k, outer, "a", depth=1)
        b = nested(k, inner, "b", depth=1)
        k.get(a, "add_to_collection", b)
        k.put(a, nested(k, inner, "c", depth=2))
        pair(k, a, lambda x: k.view(x), lambda x, p: mutate(k, x, p), outer + " holding " + inner)
    for outer in ("list", "container"):
        for inner in ALL:
            k.scenario("clone/%s-in-%s" % (inner, outer), lambda k, o=outer, i=inner: deep(k, o, i))

    def kids(k):
        return [nested(k, kd, kd, depth=1) for kd in ALL if kd != "boolean-false"]

    def fmap(k):
        mp = k.amap(*kids(k))
        v = lambda m: tuple(sorted(((kk, k.view(a)) for kk, a in [(e[0], e[1]) for e in m.payload]),
                                   key=lambda kv: str(kv[0].name)))

        def change(m, p):
            for e in list(m.payload):
                mutate(k, e[1], p)
            k.setindex(m, k.key(p + ".extra"), k.attr("literal", k.key(p + ".extra")))
        pair(k, mp, v, change, "attribute map")
    k.scenario("clone/attribute-map", fmap)

    def fevent(k, n):
        e = k.event(*(kids(k) if n else []))
        eid = k.get(e, "get_id")
        u = k.get(eid, "get_uuid")

        def change(o, p):
            mutate_element(k, o, p)
        c = k.m(e, "clone")
        at = k.last
        cu = k.get(k.get(c, "get_id"), "get_uuid")
        k.ok(k.get(c, "get_id") is not eid, "the clone of an event shares the identity of the original", at)
        k.same(k.truth(k.eq(cu, u)), False, "the clone of an event carries the original's identity", at)
        c2 = k.m(e, "clone")
        k.same(k.truth(k.eq(k.get(k.get(c2, "get_id"), "get_uuid"), cu)), False,
               "two clones of an event carry the same identity", at)
        k.same(k.truth(k.eq(e, c)), False, "an event equals its clone", at)
        pair(k, e, lambda x: k.view_event(x), change, "event")
        k.get(k.get(c2, "get_id"), "set_uuid", k.uuid("changed"))
        k.same(k.get(eid, "get_uuid"), u, "changing the identity of a cloned event changed the original's", at)
    k.scenario("clone/event", lambda k: fevent(k, 1))
    k.scenario("clone/event-empty", lambda k: fevent(k, 0))

    def ftrace(k, n, opened=False):
        evs = [k.event(nested(k, "literal", "e%d" % i, depth=1), nested(k, "timestamp", "t%d" % i, depth=0))
               for i in range(n)]
        t = k.trace(evs, kids(k) if n != 1 else ())
        if opened:
            k.opened(t)
        ids = [k.get(k.get(e, "get_id"), "get_uuid") for e in evs]

        def change(o, p):
            mutate_element(k, o, p)
            for e in k.items(o):
                mutate_element(k, e, p + ".ev")
            if not opened:
                k.get(o, "append", k.event())
        c = pair(k, t, lambda x: k.view_trace(x), change, "trace")
        cids = [k.get(k.get(e, "get_id"), "get_uuid") for e in k.items(c)][:n]
        for i, a in enumerate(cids):
            for b in ids:
                k.same(k.truth(k.eq(a, b)), False, "a cloned trace holds an event with an original's identity")
            for b in cids[i + 1:]:
                k.same(k.truth(k.eq(a, b)), False, "a cloned trace holds two events with one identity")
    for n in (0, 1, 2, 3):
        k.scenario("clone/trace-of-%d" % n, lambda k, n=n: ftrace(k, n))
    k.scenario("clone/trace-of-any-length", lambda k: ftrace(k, 1, True))

    def flog(k, n):
        g = k.log([k.trace([k.event(nested(k, "literal", "e%d.%d" % (i, j), depth=1)) for j in range(i)],
                           [nested(k, "literal", "t%d" % i, depth=1)]) for i in range(n)], kids(k) if n else ())
        ext = k.new("XConceptExtension")
        ext2 = k.new("XTimeExtension")
        cl = k.new("XEventAttributeClassifier", k.phrase("cn"), k.lst(k.key("ck")))
        k.get(k.get(g, "get_extensions"), "add", ext)
        k.get(k.get(g, "get_classifiers"), "append", cl)
        k.get(k.get(g, "get_global_trace_attributes"), "append", nested(k, "literal", "gt", depth=1))
        k.get(k.get(g, "get_global_event_attributes"), "append", nested(k, "discrete", "ge", depth=1))
        k.get(g, "set_features", k.phrase("fk", group="feature"), k.text("fv"))

        def v(x):
            return (k.view_log(x), tuple(sorted((e.oid for e in k.items(k.get(x, "get_extensions"))))),
                    tuple(k.items(k.get(x, "get_classifiers"))),
                    tuple(k.view(a) for a in k.items(k.get(x, "get_global_trace_attributes"))),
                    tuple(k.view(a) for a in k.items(k.get(x, "get_global_event_attributes"))),
                    tuple((e[0], e[1]) for e in k.get(x, "get_features").payload))

        def change(o, p):
            mutate_element(k, o, p)
            for t in k.items(o):
                mutate_element(k, t, p + ".tr")
                for e in k.items(t):
                    mutate_element(k, e, p + ".ev")
                k.get(t, "append", k.event())
            k.get(o, "append", k.trace())
            k.get(k.get(o, "get_extensions"), "add", ext2)
            k.get(k.get(o, "get_classifiers"), "append", k.new("XEventNameClassifier"))
            for w in ("get_global_trace_attributes", "get_global_event_attributes"):
                for a in k.items(k.get(o, w)):
                    mutate(k, a, p + w)
                k.get(k.get(o, w), "append", k.attr("literal", k.key(p + w)))
            k.get(o, "set_features", k.phrase(p + ".feature", group="feature"), k.text(p + ".fv"))
        pair(k, g, v, change, "log")
    for n in (0, 1, 3):
        k.scenario("clone/log-of-%d" % n, lambda k, n=n: flog(k, n))

    # many of everything: a copy is complete and independent for every number and depth ----
    def many(k, what, n):
        lit = lambda i: k.attr(LEAF[i % len(LEAF)], "k%d" % i, name="v%d" % i)
        if what == "event":
            o = k.event(*[lit(i) for i in range(n)])
            view, parts = k.view_event, lambda o: [(o, k.attr_of(o, "k%d" % (n - 1)))]
        elif what == "trace":
            o = k.trace([k.event(lit(i)) for i in range(n)], [lit(n)])
            view, parts = k.view_trace, lambda o: [(k.items(o)[-1], k.attr_of(k.items(o)[-1], "k%d" % (n - 1)))]
        elif what == "log":
            o = k.log([k.trace([k.event(lit(i))] if i % 2 else [], [lit(i)]) for i in range(n)], [lit(n)])
            view, parts = k.view_log, lambda o: [(k.items(o)[-1], k.attr_of(k.items(o)[-1], "k%d" % (n - 1)))]
        elif what in ("list", "container"):
            o = k.attr(what, "c")
            for i in range(n):
                k.get(o, "add_to_collection", lit(i))
            view, parts = k.view, lambda o: [(None, k.items(k.get(o, "get_collection"))[-1])]
        else:
            o = k.event() if what == "depth" else k.attr("list", "c")
            cur = o
            for i in range(n):
                if what == "depth":
                    cur = k.put(cur, lit(i))
                else:
                    d = k.attr("list", "k%d" % i)
                    k.get(cur, "add_to_collection", lit(i))
                    k.get(cur, "add_to_collection", d)
                    cur = d
            if what == "collections":
                k.get(cur, "add_to_collection", k.attr("literal", "last", name="last"))
            view = k.view_event if what == "depth" else k.view

            def parts(o):
                for i in range(n):
                    o = k.attr_of(o, "k%d" % i) if what == "depth" else k.items(k.get(o, "get_collection"))[1]
                return [(None, o if what == "depth" else k.items(k.get(o, "get_collection"))[0])]

        def change(o, p):
            for owner, a in parts(o):
                mutate(k, a, p)
                if owner is not None:
                    k.put(owner, k.attr("literal", p + ".new", name=p + ".new"))
        pair(k, o, view, change, "%s of %d" % (what, n))
    for what in ("event", "trace", "log", "list", "container"):
        for n in SIZES + (BIG[:1] if what in ("trace", "log") else ()):
            k.scenario("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n))
    for what in ("depth", "collections"):
        for n in DEPTHS:
            k.scenario("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n))

    # the same thing several times, and attributes kept under another key than their own ----
    def repeated(k):
        ev = k.event(k.attr("literal", "a", "v"))
        t = k.trace([ev, k.event(), ev, ev], [k.attr("discrete", "a")])
        c = k.m(t, "clone")
        k.same(k.len(c), 4, "number of events of the clone of a trace that holds one event three times", k.last)
        for i in (0, 2, 3):
            k.same(k.view_event(k.index(c, i)), k.view_event(ev), "event %d of the clone" % i)
        g = k.log([t, k.trace([]), t, k.trace([]), t])
        cl = [k.new("XEventAttributeClassifier", n, k.lst("x", "y")) for n in ("one", "two", "one", "one")]
        gl = [k.attr("literal", "same", "v") for _ in range(3)]
        for x in cl + [cl[0]]:
            k.get(k.get(g, "get_classifiers"), "append", x)
        for w in ("get_global_trace_attributes", "get_global_event_attributes"):
            for x in gl:
                k.get(k.get(g, w), "append", x)
        c = k.m(g, "clone")
        at = k.last
        k.same([k.len(x) for x in k.items(c)], [4, 0, 4, 0, 4], "traces of the clone of a log that holds one trace three times", at)
        k.same([k.view_trace(x) for x in k.items(c)], [k.view_trace(x) for x in k.items(g)], "traces of the clone", at)
        k.same([k.get(x, "name") for x in k.items(k.get(c, "get_classifiers"))], ["one", "two", "one", "one", "one"],
               "classifiers of the clone of a log with the same classifier several times", at)
        for w in ("get_global_trace_attributes", "get_global_event_attributes"):
            k.same(len(k.items(k.get(c, w))), 3, "global attributes of the clone of a log with equal ones", at)
        for what in ("list", "container"):
            a = k.attr(what, "l")
            for _ in range(3):
                k.get(a, "add_to_collection", gl[0])
            k.same(k.view(k.m(a, "clone")), k.view(a), "clone of a %s that holds one member three times" % what)
    k.scenario("repeated", repeated)

    def other_key(k, what):
        a, b = k.attr("literal", "own", "v"), k.attr("discrete", "own")
        o = {"event": k.event, "trace": k.trace, "log": k.log, "attribute": lambda: k.attr("literal", "top", "v")}[what]()
        m = k.get(o, "get_attributes")
        k.setindex(m, "one", a)
        k.setindex(m, "two", b)
        c = k.get(k.m(o, "clone"), "get_attributes")
        at = k.last
        k.same(sorted(e[0] for e in c.payload), ["one", "two"], "keys of the attributes of the clone", at)
        for n, x in (("one", a), ("two", b)):
            k.same(k.view(k.index(c, n)), k.view(x), "attribute of the clone", at)
    for what in ("event", "trace", "log", "attribute"):
        k.scenario("other-key/" + what, lambda k, w=what: other_key(k, w))

    # keys that mean something somewhere ----
    def known_keys(k, what, rot, nest):
        o = {"event": lambda: k.event(), "trace": lambda: k.trace([k.event()]), "log": lambda: k.log([k.trace([k.event()])]),
             "attribute": lambda: k.attr("literal", "own", "v")}[what]()
        keyed(k, o, rot, nest=nest)

        def change(o, p):
            for n, a in k.attrs(o):
                change(a, p)
                kd = k.kind_of(a)
                if kd == "XAttributeLiteral":
                    k.m(a, "set_value", p)
                elif kd in ("XAttributeDiscrete", "XAttributeContinuous"):
                    k.m(a, "set_value", 77 if p == "cl" else 78)
                elif kd == "XAttributeID":
                    k.m(k.get(a, "get_value"), "set_uuid", k.uuid(p))
                elif kd == "XAttributeBoolean":
                    k.m(a, "set_value", k.get(a, "get_value") is not True)
            k.put(o, k.attr("literal", p + ".new", p))
        pair(k, o, {"event": k.view_event, "trace": k.view_trace, "log": k.view_log, "attribute": k.view}[what], change, what + " with known keys")
    for what in ("event", "trace", "log", "attribute"):
        for rot in range(len(LEAF)):
            k.scenario("keys/%s/%d" % (what, rot), lambda k, w=what, r=rot: known_keys(k, w, r, r % 2 == 0))


MIN_SCENARIOS = 60
