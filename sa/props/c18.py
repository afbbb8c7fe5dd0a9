"""Event class collections, by abstract interpretation of register / harmonize_indices / lookups."""

from .common import SIZES, shuffled

METHOD = ("Abstract interpretation of XEventClasses over sequences of symbolic events whose class values may or may not "
          "coincide (the abstract state is partitioned on every comparison): sizes, lookups and indices are compared "
          "with the multiset of identities registered.")
RULE = "size(class) == number of registered events with that identity; lookups agree; indices are 0..n-1, sorted when harmonised"

KEY = "concept:name"


def groups(k, vals):
    """[(value, multiplicity)] in first-seen order."""
    out = []
    for v in vals:
        for g in out:
            if k.truth(k.eq(g[0], v)):
                g[1] += 1
                break
        else:
            out.append([v, 1])
    return out


def judge(k, cs, gs, classifier, events=(), harmonised=True):
    at = k.last
    k.same(k.len(cs), len(gs), "number of classes", at)
    cl = k.items(k.m(cs, "get_classes"))
    k.same(len(cl), len(gs), "number of classes returned by get_classes", at)
    k.same(tuple(sorted((k.I.norm(k.m(c, "get_index")) for c in cl))), tuple(range(len(gs))), "indices in use", at)
    for v, n in gs:
        c = k.m(cs, "get_by_identity", v)
        k.ok(c is not None, "no class for a registered identity", at)
        k.same(k.m(c, "get_id"), v, "identity of the class found by identity", at)
        k.same(k.str(c), v, "text of the class", at)
        k.same(k.m(c, "size"), n, "size of a class", at)
        k.same(k.m(cs, "get_by_index", k.m(c, "get_index")), c, "class found by its index", at)
        k.ok(any(c is d for d in cl), "a class found by identity is not among the classes", at)
    for e, v in events:
        k.same(k.m(cs, "get_class_of", e), k.m(cs, "get_by_identity", v), "class of an event", at)
    if harmonised:
        by = [k.m(cs, "get_by_index", i) for i in range(len(gs))]
        for a, b in zip(by, by[1:]):
            k.same(k.truth(k.cmp("<", k.m(a, "get_id"), k.m(b, "get_id"))), True,
                   "harmonised indices do not follow the identities", at)
        k.same(tuple(k.items(k.m(cs, "get_classes"))), tuple(by), "classes after harmonising", at)
    k.isnone(k.m(cs, "get_by_index", len(gs)), "class at an index past the end")
    k.isnone(k.m(cs, "get_by_index", -1), "class at index -1")
    k.same(k.m(cs, "get_classifier"), classifier, "classifier of the classes")


def run(k):
    def ev(k, v):
        return k.event(k.attr("literal", KEY, v), k.attr("discrete", k.key("noise")))

    def seq(k, n, how):
        c = k.new("XEventNameClassifier")
        vals = [k.text("v%d" % i) for i in range(n)]
        es = [ev(k, v) for v in vals]
        if how == "derive":
            half = (n + 1) // 2
            g = k.log([k.trace(es[:half]), k.trace(), k.trace(es[half:])])
            cs = k.static("XEventClasses", "derive_event_classes", c, g)
            judge(k, cs, groups(k, vals), c, list(zip(es, vals)))
            return
        cs = k.new("XEventClasses", c)
        if how == "events":
            for e in es:
                k.m(cs, "register", e)
        elif how == "trace":
            k.m(cs, "register", k.trace(es))
        elif how == "identity":
            for v in vals:
                k.m(cs, "register", v)
        elif how == "log":
            k.m(cs, "register", k.log([k.trace(es[:1]), k.trace(es[1:])]))
        judge(k, cs, groups(k, vals), c, list(zip(es, vals)), harmonised=False)
        k.m(cs, "harmonize_indices")
        judge(k, cs, groups(k, vals), c, list(zip(es, vals)))
        k.m(cs, "harmonize_indices")
        judge(k, cs, groups(k, vals), c, list(zip(es, vals)))
    top = 3 if not k.thorough else 4
    for how in ("events", "trace", "identity", "log", "derive"):
        for n in range(0, top + 1):
            k.scenario("sequence/%s/%d" % (how, n), lambda k, n=n, h=how: seq(k, n, h))

    def after(k, n, m):
        c = k.new("XEventNameClassifier")
        vals = [k.text("v%d" % i) for i in range(n + m)]
        cs = k.new("XEventClasses", c)
        for v in vals[:n]:
            k.m(cs, "register", ev(k, v))
        k.m(cs, "harmonize_indices")
        for v in vals[n:]:
            k.m(cs, "register", ev(k, v))
        judge(k, cs, groups(k, vals), c, (), harmonised=False)
        k.m(cs, "harmonize_indices")
        judge(k, cs, groups(k, vals), c)
    for n, m in ((1, 1), (1, 2), (2, 1), (0, 2)):
        k.scenario("register-after-harmonize/%d+%d" % (n, m), lambda k, n=n, m=m: after(k, n, m))

    def missing(k):
        c = k.new("XEventNameClassifier")
        cs = k.new("XEventClasses", c)
        a, b = k.event(), ev(k, k.word("w"))
        k.m(cs, "register", k.trace([a, b, a]))
        k.same(k.m(k.m(cs, "get_class_of", a), "size"), 2, "size of the class of events without the attribute")
        k.same(k.m(k.m(cs, "get_class_of", b), "size"), 1, "size of the other class")
        k.m(cs, "harmonize_indices")
        k.same(k.m(k.m(cs, "get_class_of", a), "size"), 2, "size of the class of events without the attribute")
        k.same(k.m(k.m(cs, "get_class_of", a), "get_index"), 0, "index of the empty identity")
    k.scenario("missing-attribute", missing)

    def unknown(k):
        c = k.new("XEventNameClassifier")
        cs = k.new("XEventClasses", c)
        x, y = k.word("x", group="w"), k.word("y", group="w")
        k.m(cs, "register", x)
        k.isnone(k.m(cs, "get_by_identity", y), "class of an identity never registered")
        k.isnone(k.m(cs, "get_class_of", ev(k, y)), "class of an event never registered")
        k.same(k.len(cs), 1, "asking for an unknown class changed the number of classes")
    k.scenario("unknown", unknown)

    def bad(k):
        cs = k.new("XEventClasses", k.new("XEventNameClassifier"))
        for b in (k.int("n"), None):
            r, e = k.raises(lambda: k.m(cs, "register", b))
            k.ok(r and e.value.cls.name == "TypeError", "register accepts something that is no element")
        k.same(k.len(cs), 0, "a refused registration left a class")
    k.scenario("refused", bad)

    def multi(k):
        a, b = "concept:name", "lifecycle:transition"
        c = k.new("XEventAttributeClassifier", k.text("n"), k.lst(a, b))
        x, y, t = k.word("x", group="w"), k.word("y", group="w"), k.word("t")
        mk = lambda p, q: k.event(k.attr("literal", a, p), k.attr("literal", b, q))
        e1, e2, e3 = mk(x, t), mk(y, t), mk(x, t)
        cs = k.static("XEventClasses", "derive_event_classes", c, k.log([k.trace([e1, e2]), k.trace([e3])]))
        k.same(k.len(cs), 2, "number of classes under two keys")
        k.same(k.m(k.m(cs, "get_class_of", e1), "size"), 2, "size under two keys")
        k.same(k.m(k.m(cs, "get_class_of", e2), "size"), 1, "size under two keys")
        k.same(k.m(cs, "get_class_of", e1), k.m(cs, "get_class_of", e3), "class of agreeing events")
    k.scenario("two-keys", multi)

    def apart(k):
        c = k.new("XEventNameClassifier")
        p, q = k.new("XEventClasses", c), k.new("XEventClasses", c)
        k.m(p, "register", k.word("x"))
        k.same(k.len(q), 0, "two collections share classes")
        k.same(k.truth(k.eq(p, q)), True, "collections of one classifier are equal")
        k.same(k.truth(k.ne(p, k.new("XEventClasses", k.new("XEventResourceClassifier")))), True,
               "collections of different classifiers are equal")
    k.scenario("apart", apart)

    def cls(k):
        x, i, n = k.text("x"), k.int("i", lo=0), k.int("n", lo=0)
        c = k.new("XEventClass", x, i)
        k.same((k.m(c, "get_id"), k.m(c, "get_index"), k.m(c, "size")), (x, i, 0), "a fresh event class")
        k.m(c, "set_size", n)
        k.same(k.m(c, "size"), n, "size after set_size")
        k.m(c, "increment_size")
        k.same(k.m(c, "size"), k.plus(n, 1), "size after increment_size")
        k.same((k.m(c, "get_id"), k.m(c, "get_index")), (x, i), "identity and index after counting")
    k.scenario("event-class", cls)

    def many(k, n, order, how, pad):
        """n classes; class i is registered 1, 2 or 3 times."""
        c = k.new("XEventNameClassifier")
        vals = [(("c%04d" if pad else "c%d") % i) for i in order for _ in range(i % 3 + 1)]
        es = [ev(k, v) for v in vals]
        if how == "derive":
            cs = k.static("XEventClasses", "derive_event_classes", c, k.log([k.trace(es[:7]), k.trace(es[7:])]))
        else:
            cs = k.new("XEventClasses", c)
            for e, v in zip(es, vals):
                k.m(cs, "register", e if how == "events" else v)
            judge(k, cs, [(("c%04d" if pad else "c%d") % i, i % 3 + 1) for i in order], c, list(zip(es, vals)), harmonised=False)
        for _ in range(3):
            k.m(cs, "harmonize_indices")
            judge(k, cs, [(("c%04d" if pad else "c%d") % i, i % 3 + 1) for i in order], c, list(zip(es, vals)))
    for n in SIZES[:4]:
        for nm, order in (("rising", list(range(n))), ("falling", list(range(n))[::-1]), ("shuffled", shuffled(n))):
            for how in ("events", "identity", "derive") if n < 20 else ("identity",):
                for pad in (True, False):
                    k.scenario("many/%d/%s/%s/%s" % (n, nm, how, "padded" if pad else "plain"),
                               lambda k, n=n, o=order, h=how, p=pad: many(k, n, o, h, p))

    def often(k, n):
        c = k.new("XEventNameClassifier")
        cs = k.new("XEventClasses", c)
        e = ev(k, "a")
        for _ in range(n):
            k.m(cs, "register", e)
        k.m(cs, "register", ev(k, "b"))
        judge(k, cs, [("a", n), ("b", 1)], c, harmonised=False)
        k.m(cs, "harmonize_indices")
        judge(k, cs, [("a", n), ("b", 1)], c)
    for n in SIZES + (257, 1024):
        k.scenario("often/%d" % n, lambda k, n=n: often(k, n))


MIN_SCENARIOS = 28
