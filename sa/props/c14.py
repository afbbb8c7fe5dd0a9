"""Factory results, by abstract interpretation of every create operation."""
from .common import ALL, LENGTHS, SIZES, nested

METHOD = ("Abstract interpretation of every create_* operation (static factory, registered default factory) with symbolic "
          "keys, values, extensions and identities: the argument terms must flow unchanged into the created object.")
RULE = "kind, key, value, extension, identity of the result == the arguments; no two results share mutable state"

MAKERS = {"boolean-true": "create_attribute_boolean", "boolean-false": "create_attribute_boolean",
          "continuous": "create_attribute_continuous", "discrete": "create_attribute_discrete",
          "literal": "create_attribute_literal", "timestamp": "create_attribute_timestamp", "id": "create_attribute_id",
          "list": "create_attribute_list", "container": "create_attribute_container"}


def factories(k):
    return [("class", k.cls("XFactory")), ("instance", k.new("XFactory")),
            ("registered", k.m(k.new("XFactoryRegistry"), "current_default"))]


def run(k):
    def attr(k, kd, how):
        F = dict(factories(k))[how]
        key = k.text("key")
        args = [key]
        v = k.value(kd, "v")
        if kd not in ("list", "container"):
            args.append(v)
        for ext in (None, k.new("XConceptExtension")):
            for form in ("pos", "default", "kw") if ext is None else ("pos", "kw"):
                a = k.m(F, MAKERS[kd], *(args + ([ext] if form == "pos" else [])),
                        **({"extension": ext} if form == "kw" else {}))
                at = k.last
                k.same(k.kind_of(a), k.CLASSES[kd], "kind of the created attribute", at)
                k.same(k.get(a, "get_key"), key, "key of the created attribute", at)
                k.same(k.get(a, "get_extension"), ext, "extension of the created attribute", at)
                if kd in ("list", "container"):
                    k.same(len(k.items(k.get(a, "get_collection"))), 0, "members of a fresh collection", at)
                else:
                    k.same(k.get(a, "get_value"), v, "value of the created attribute", at)
                k.same(len(k.attrs(a)), 0, "attributes of a fresh attribute", at)
                k.same(k.truth(k.m(a, "has_attributes")), False, "has_attributes() of a fresh attribute", at)
                b = k.m(F, MAKERS[kd], *args)
                k.ok(b is not a, "two calls return one attribute", at)
                k.put(a, k.attr("literal", k.key("n")))
                if kd in ("list", "container"):
                    k.get(a, "add_to_collection", k.attr("literal", k.key("n2")))
                    k.same(len(k.items(k.get(b, "get_collection"))), 0, "two created collections share members", at)
                k.same(len(k.attrs(b)), 0, "two created attributes share nested attributes", at)
                k.same(k.truth(k.m(a, "has_attributes")), True, "has_attributes() after adding one", at)
    for kd in ALL:
        for how in ("class", "instance", "registered"):
            k.scenario("attribute/%s/%s" % (kd, how), lambda k, kd=kd, h=how: attr(k, kd, h))

    def millis(k):
        F = k.cls("XFactory")
        n = k.int("n", lo=0)
        a = k.m(F, "create_attribute_timestamp", k.text("key"), n)
        b = k.m(F, "create_attribute_timestamp", k.text("key"), n)
        k.same(k.get(a, "get_value"), k.get(b, "get_value"), "two timestamps made from one number")
    k.scenario("attribute/timestamp/number", millis)

    def element(k, mk, cname, how, n):
        F = dict(factories(k))[how]
        attrs = [nested(k, kd, kd, depth=1) for kd in ALL[:n]]
        mp = k.amap(*attrs)
        for form in ("none", "given") if n else ("none", "explicit-none"):
            args = {"none": [], "given": [mp], "explicit-none": [None]}[form]
            o = k.m(F, mk, *args)
            at = k.last
            k.ok(k.isinst(o, cname), "%s does not create a %s" % (mk, cname), at)
            want = [(k.get(a, "get_key"), a) for a in attrs] if form == "given" else []
            k.same(tuple(sorted(k.attrs(o), key=lambda p: p[1].oid)), tuple(sorted(want, key=lambda p: p[1].oid)),
                   "attributes of the created element", at)
            if cname != "XEvent":
                k.same(k.len(o), 0, "length of a created %s" % cname, at)
            p = k.m(F, mk, *([] if form != "given" else [k.amap()]))
            k.ok(p is not o, "two calls return one element", at)
            k.put(o, k.attr("literal", k.key("new")))
            if cname == "XTrace":
                k.m(o, "append", k.event())
            elif cname == "XLog":
                k.m(o, "append", k.trace())
                k.m(k.m(o, "get_extensions"), "add", k.new("XConceptExtension"))
                k.m(k.m(o, "get_classifiers"), "append", k.new("XEventNameClassifier"))
                k.m(k.m(o, "get_global_trace_attributes"), "append", k.attr("literal", k.key("g")))
                k.m(k.m(o, "get_global_event_attributes"), "append", k.attr("literal", k.key("h")))
                k.m(o, "set_features", k.text("f"), k.text("g"))
                for q in ("get_extensions", "get_classifiers", "get_global_trace_attributes",
                          "get_global_event_attributes", "get_features"):
                    k.same(k.len(k.m(p, q)), 0, "two created logs share what %s returns" % q, at)
            k.same(len(k.attrs(p)), 0, "two created elements share attributes", at)
            k.same(k.truth(k.m(p, "has_attributes")), False, "has_attributes() of a created element", at)
            if cname != "XEvent":
                k.same(k.len(p), 0, "two created elements share members", at)
    for mk, cn in (("create_log", "XLog"), ("create_trace", "XTrace"), ("create_event", "XEvent")):
        for how in ("class", "instance", "registered"):
            for n in (0, 3, len(ALL)):
                k.scenario("element/%s/%s/%d" % (mk, how, n),
                           lambda k, mk=mk, cn=cn, h=how, n=n: element(k, mk, cn, h, n))

    def event_id(k, n, how):
        F = dict(factories(k))[how]
        i = k.xid("u")
        mp = k.amap(*[k.attr("literal", k.key("k%d" % j)) for j in range(n)])
        for args in ([mp, i], [None, i] if not n else [mp, i]):
            e = k.m(F, "create_event", *args)
            k.same(k.truth(k.eq(k.m(e, "get_id"), i)), True, "identity of an event created with one (%d attributes)" % n)
            k.same(k.get(k.get(e, "get_id"), "get_uuid"), k.get(i, "get_uuid"), "identity of an event created with one")
            k.same(len(k.attrs(e)), n, "attributes of an event created with an identity")
            k.ok(k.m(e, "get_id") is i, "the identity of an event created with one is not the very one given", k.last)
        a, b = k.m(F, "create_event"), k.m(F, "create_event")
        k.same(k.truth(k.eq(k.get(a, "get_id"), k.get(b, "get_id"))), False, "two events created without identity")
        k.same(k.truth(k.eq(a, b)), False, "two events created without identity are equal")
        e = k.m(F, "create_event", identity=i)
        k.same(k.truth(k.eq(k.m(e, "get_id"), i)), True, "identity of an event created by keyword")
    for n in (0, 1, 3):
        for how in ("class", "instance", "registered"):
            k.scenario("event-identity/%d/%s" % (n, how), lambda k, n=n, h=how: event_id(k, n, h))

    def amap(k, how):
        F = dict(factories(k))[how]
        a, b = k.m(F, "create_attribute_map"), k.m(F, "create_attribute_map")
        k.ok(k.isinst(a, "XAttributeMap"), "create_attribute_map does not create an attribute map")
        k.ok(a is not b, "two calls return one attribute map")
        k.same(k.truth(k.m(a, "is_empty")), True, "is_empty() of a fresh map")
        x = k.attr("literal", k.key("x"))
        k.setindex(a, k.get(x, "get_key"), x)
        k.same(k.truth(k.m(a, "is_empty")), False, "is_empty() of a map with an attribute")
        k.same(k.truth(k.m(b, "is_empty")), True, "two fresh maps share entries")
        c = k.new("XAttributeMap", a)
        k.same(k.index(c, k.get(x, "get_key")), x, "a map made from another one")
        k.m(a, "clear")
        k.same(k.len(c), 1, "a map made from another one shares its entries")
    for how in ("class", "instance", "registered"):
        k.scenario("map/%s" % how, lambda k, h=how: amap(k, h))


    def series(k, how, n):
        """One factory asked for many things, alternately: each is what was asked for, and none is given twice."""
        F = dict(factories(k))[how]
        made = []
        v = lambda kd, i: {"literal": "v%d" % i, "discrete": i, "continuous": i + 0.5, "boolean-true": True, "boolean-false": False}[kd]
        kds = ("literal", "discrete", "continuous", "boolean-true", "boolean-false", "list", "container")
        for i in range(n):
            kd = kds[i % len(kds)]
            args = ["k%d" % (i % 5)] + ([] if kd in ("list", "container") else [v(kd, i)])
            a = k.m(F, MAKERS[kd], *args)
            at = k.last
            k.same(k.kind_of(a), k.CLASSES[kd], "kind of attribute %d" % i, at)
            k.same(len(k.attrs(a)), 0, "attributes of attribute %d, just created" % i, at)
            k.put(a, k.attr("literal", "n", "v"))
            if len(args) < 2:
                k.same(len(k.items(k.get(a, "get_collection"))), 0, "members of collection %d, just created" % i, at)
                k.get(a, "add_to_collection", k.attr("literal", "m", "v"))
            made.append((a, kd, args))
            for mk in ("create_log", "create_trace", "create_event", "create_attribute_map"):
                o = k.m(F, mk)
                k.same(k.len(o) if mk != "create_event" else 0, 0, "size of what %s gives, asked %d times" % (mk, i + 1), k.last)
                if mk != "create_attribute_map":
                    k.same(len(k.attrs(o)), 0, "attributes of what %s gives, asked %d times" % (mk, i + 1), k.last)
                    k.put(o, k.attr("literal", "n", "v"))
                else:
                    k.setindex(o, "n", k.attr("literal", "n", "v"))
                if mk in ("create_log", "create_trace"):
                    k.append(o, k.event())
                made.append((o, None, None))
        for i, (a, kd, args) in enumerate(made):
            k.ok(all(a is not b for b, _, _ in made[:i]), "a factory gives one object twice")
            if kd:
                k.same(k.get(a, "get_key"), args[0], "key of attribute %d after creating others" % i)
                if len(args) > 1:
                    k.same(k.get(a, "get_value"), args[1], "value of attribute %d after creating others" % i)
    for how in ("class", "instance", "registered"):
        for n in (9, 33):
            k.scenario("many/%s/%d" % (how, n), lambda k, h=how, n=n: series(k, h, n))

    def long(k, n, how):
        F = dict(factories(k))[how]
        for t in ("x" * n, "a b" * (n // 3), " " + "y" * n + " "):
            a = k.m(F, "create_attribute_literal", t, t)
            k.same((k.get(a, "get_key"), k.get(a, "get_value")), (t, t), "key and value of a literal", k.last)
            k.same(k.get(k.m(F, "create_attribute_list", t), "get_key"), t, "key of a list", k.last)
        for v in (10 ** (n % 40), -2 ** (n % 70), 2 ** 63, 2 ** 31):
            k.same(k.get(k.m(F, "create_attribute_discrete", "k", v), "get_value"), v, "value of a discrete attribute", k.last)
        for v in (1e-12 * n, 1e17 + n, -0.1 * n):
            k.same(k.get(k.m(F, "create_attribute_continuous", "k", v), "get_value"), v, "value of a continuous attribute", k.last)
    for how in ("class", "registered"):
        for n in LENGTHS:
            k.scenario("long/%s/%d" % (how, n), lambda k, n=n, h=how: long(k, n, h))

    def wide(k, mk, how, n):
        F = dict(factories(k))[how]
        xs = [k.attr("literal", "k%d" % i, "v%d" % i) for i in range(n)]
        o = k.m(F, mk, k.amap(*xs))
        at = k.last
        got = k.attrs(o)
        k.same([x for x, _ in got], ["k%d" % i for i in range(n)], "keys of the created element", at)
        for (_, a), b in zip(got, xs):
            k.ok(a is b, "an attribute of the created element is not the one given", at)
    for mk in ("create_log", "create_trace", "create_event"):
        for how in ("class", "registered"):
            for n in SIZES:
                k.scenario("wide/%s/%s/%d" % (mk, how, n), lambda k, a=(mk, how, n): wide(k, *a))


MIN_SCENARIOS = 60
