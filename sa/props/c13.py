"""Registry semantics, by abstract interpretation of register / set_current_default / queries."""
METHOD = ("Abstract interpretation of the registry operations over sequences of registrations of distinct and of equal "
          "instances, on the plain registry and on the factory, parser and serializer registries.")
RULE = "available == set of instances registered; default == last explicitly set, else the first registered"


def run(k):
    REG = ("XRegistry", "XFactoryRegistry", "XParserRegistry", "XSerializerRegistry")

    def avail(k, r):
        return k.items(k.m(r, "get_available"))

    def ops(k, cn, rev=False):
        r = k.new(cn)
        a0 = avail(k, r)
        d0 = k.m(r, "current_default")
        if cn == "XRegistry":
            k.same(len(a0), 0, "instances of a fresh registry")
            k.isnone(d0, "default of a fresh registry")
        else:
            k.ok(d0 is not None, "%s has no default" % cn)
            k.ok(any(x is d0 for x in a0), "the default of %s is not available" % cn)
        x, y, z = k.new("XFactory"), k.new("XFactory"), k.new("XFactory")
        k.same(k.truth(k.has(r, x)), False, "an instance never registered is contained")
        k.m(r, "register", x)
        at = k.last
        k.same(k.truth(k.has(r, x)), True, "a registered instance is not contained", at)
        k.same(k.m(r, "current_default"), x if d0 is None else d0, "default after registering", at)
        k.m(r, "register", y)
        k.same(k.m(r, "current_default"), x if d0 is None else d0, "default after registering a second instance", at)
        k.same(len(avail(k, r)), len(a0) + 2, "number of instances", at)
        k.m(r, "register", x)
        k.same(len(avail(k, r)), len(a0) + 2, "number of instances after registering one twice", at)
        k.m(r, "set_current_default", y)
        at = k.last
        k.same(k.m(r, "current_default"), y, "default after set_current_default", at)
        k.same(len(avail(k, r)), len(a0) + 2, "number of instances after set_current_default", at)
        k.m(r, "set_current_default", z)
        k.same(k.m(r, "current_default"), z, "default after set_current_default with a new instance", at)
        k.same(k.truth(k.has(r, z)), True, "the default is not registered", at)
        av = avail(k, r)
        k.same(len(av), len(a0) + 3, "number of instances", at)
        for w in a0 + [x, y, z]:
            k.ok(any(v is w for v in av), "a registered instance is not available", at)
        k.m(r, "register", k.new("XFactory"))
        k.same(k.m(r, "current_default"), z, "registering replaced an explicit default")
        k.m(r, "set_current_default", x)
        k.same(k.m(r, "current_default"), x, "default set back")
        k.ok(k.m(r, "current_default") is x, "the default is not the very instance set")
    for cn in REG:
        for warm in (True, False):
            k.scenario("operations/%s/%s" % (cn, "warm" if warm else "cold"), lambda k, c=cn: ops(k, c), warm=warm)
        k.scenario("operations/%s/rev" % cn, lambda k, c=cn: ops(k, c), setrev=True)

    # instances of any kind, also ones that count as false or are texts and numbers
    def odd(k, cn, order):
        E = k.client("class Empty:\n    def __len__(self):\n        return 0\nclass No:\n    def __bool__(self):\n        return False\n")
        xs = [k.I.call(E["Empty"], []), k.I.call(E["No"], []), k.I.call(E["Empty"], []), "", 0, "text", k.new("XFactory")]
        xs = xs[order:] + xs[:order]
        r = k.new(cn)
        n, d = len(avail(k, r)), k.m(r, "current_default")
        for i, x in enumerate(xs):
            k.m(r, "register", x)
            at = k.last
            k.same(k.m(r, "current_default"), xs[0] if d is None else d, "default after registering %d instances" % (i + 1), at)
            k.same(len(avail(k, r)), n + i + 1, "number of instances", at)
            k.same(k.truth(k.has(r, x)), True, "a registered instance is not contained", at)
        for x in xs:
            k.m(r, "set_current_default", x)
            k.same(k.m(r, "current_default"), x, "default after set_current_default", k.last)
            k.ok(k.m(r, "current_default") is x, "the default is not the very instance set", k.last)
            k.m(r, "register", k.new("XFactory"))
            k.same(k.m(r, "current_default"), x, "registering replaced an explicit default", k.last)
    for cn in REG:
        for order in range(7):
            k.scenario("odd/%s/%d" % (cn, order), lambda k, c=cn, o=order: odd(k, c, o))

    def equals(k, cn):
        """Instances that equal one another are one member; the default is the very instance set."""
        r = k.new(cn)
        C = k.client("class Same:\n    def __eq__(self, other):\n        return isinstance(other, Same)\n    def __hash__(self):\n        return 7\n")["Same"]
        n, d = len(avail(k, r)), k.m(r, "current_default")
        x, y = k.I.call(C, []), k.I.call(C, [])
        k.m(r, "register", x)
        k.m(r, "register", y)
        k.same(len(avail(k, r)), n + 1, "number of instances after registering two equal ones", k.last)
        k.ok(k.m(r, "current_default") is (x if d is None else d), "registering an equal instance changed the default", k.last)
        k.ok(k.truth(k.has(r, y)), "an instance equal to a registered one is not contained")
        for z in (y, x, y):
            k.m(r, "set_current_default", z)
            k.ok(k.m(r, "current_default") is z, "the default is not the very instance set", k.last)
            k.same(len(avail(k, r)), n + 1, "number of instances after setting an equal one as default", k.last)
    for cn in REG:
        k.scenario("equal/%s" % cn, lambda k, c=cn: equals(k, c))

    def apart(k):
        a, b = k.new("XRegistry"), k.new("XRegistry")
        k.m(a, "register", k.new("XFactory"))
        k.same(len(avail(k, b)), 0, "two registries share instances")
        k.isnone(k.m(b, "current_default"), "two registries share a default")
        for p, q in (("XFactoryRegistry", "XParserRegistry"), ("XParserRegistry", "XSerializerRegistry"),
                     ("XSerializerRegistry", "XFactoryRegistry")):
            s, t = k.new(p), k.new(q)
            k.ok(s is not t, "%s and %s are one object" % (p, q))
            x = k.new("XFactory")
            before = k.m(t, "current_default")
            k.m(s, "set_current_default", x)
            k.same(k.m(t, "current_default"), before, "setting the default of %s changed that of %s" % (p, q))
            k.same(k.truth(k.has(t, x)), False, "registering with %s registered with %s" % (p, q))
    k.scenario("apart", apart)

    def standard(k, cn, want, default):
        r = k.new(cn)
        av = avail(k, r)
        names = sorted(x.cls.name for x in av)
        for w in want:
            k.ok(any(k.isinst(x, w) for x in av), "%s offers no %s" % (cn, w))
        d = k.m(r, "current_default")
        k.ok(any(k.isinst(d, x) for x in default), "default of %s is a %s" % (cn, d.cls.name))
    for warm in (True, False):
        w = "warm" if warm else "cold"
        k.scenario("standard/factory/" + w, lambda k: standard(k, "XFactoryRegistry", ["XFactory"], ["XFactory"]), warm=warm)
        k.scenario("standard/parsers/" + w, lambda k: standard(
            k, "XParserRegistry", ["XMxmlParser", "XMxmlGZIPParser", "XesXmlParser", "XesXmlGZIPParser"],
            ["XesXmlParser", "XesXmlGZIPParser"]), warm=warm)
        k.scenario("standard/serializers/" + w, lambda k: standard(
            k, "XSerializerRegistry", ["XMxmlSerializer", "XMxmlGZIPSerializer", "XesXmlSerializer", "XesXmlGZIPSerializer"],
            ["XesXmlSerializer", "XesXmlGZIPSerializer"]), warm=warm)

    def effect(k):
        """a default factory set later is what parsers made afterwards use by default"""
        r = k.new("XFactoryRegistry")
        f = k.new("XFactory")
        k.m(r, "set_current_default", f)
        k.same(k.m(k.new("XFactoryRegistry"), "current_default"), f, "default factory seen by others")
    k.scenario("effect", effect)


    def crowd(k, cn, n, jump):
        r = k.new(cn)
        a0, d0 = len(avail(k, r)), k.m(r, "current_default")
        xs = [k.new("XFactory") for _ in range(n)]
        for i, x in enumerate(xs):
            k.m(r, "register", x)
            at = k.last
            k.same(len(avail(k, r)), a0 + i + 1, "instances after registering %d" % (i + 1), at)
            k.same(k.m(r, "current_default"), xs[0] if d0 is None else d0, "default after registering %d instances" % (i + 1), at)
        for i in range(0, n, jump):
            k.m(r, "set_current_default", xs[i])
            k.same(k.m(r, "current_default"), xs[i], "default set for the %d. time" % (i // jump + 1), k.last)
        k.m(r, "set_current_default", xs[0])
        at = k.last
        k.same(k.m(r, "current_default"), xs[0], "default set back after many others", at)
        for x in xs:
            k.m(r, "register", x)
            k.same(k.truth(k.has(r, x)), True, "one of many registered instances is not contained", at)
        av = avail(k, r)
        k.same(len(av), a0 + n, "instances after registering all of them again", at)
        for x in xs:
            k.ok(any(y is x for y in av), "one of many registered instances is not available", at)
    for cn in REG:
        for n in (9, 16, 33, 64):
            k.scenario("many/%s/%d" % (cn, n), lambda k, c=cn, n=n: crowd(k, c, n, 1 if n < 20 else 5))


MIN_SCENARIOS = 18
