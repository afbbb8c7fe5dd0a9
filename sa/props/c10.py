"""Extension manager, by abstract interpretation of register and the lookups."""
METHOD = ("Abstract interpretation of the extension manager over sequences of registrations of the standard and of symbolic "
          "extensions (new, repeated, same URI again); every lookup is compared with the sequence of registrations.")
RULE = "by URI, name, prefix and index all give the extension registered (last) for that URI; index is stable; unknown -> None/-1"

STD = ["XConceptExtension", "XCostExtension", "XIdentityExtension", "XLifecycleExtension", "XMicroExtension",
       "XOrganizationalExtension", "XSemanticExtension", "XTimeExtension"]


def run(k):
    def man(k):
        return k.new("XExtensionManager")

    def agree(k, m, x):
        i = k.m(m, "get_index", x)
        at = k.last
        k.ok(isinstance(i, int) and i >= 0, "a registered extension has no index", at)
        k.same(k.m(m, "get_by_index", i), x, "extension at its own index", at)
        k.same(k.m(m, "get_by_uri", k.m(x, "get_uri")), x, "extension found by its URI")
        k.same(k.m(m, "get_by_name", k.m(x, "get_name")), x, "extension found by its name")
        k.same(k.m(m, "get_by_prefix", k.m(x, "get_prefix")), x, "extension found by its prefix")
        return i

    def std(k):
        m = man(k)
        idx = [agree(k, m, k.new(cn)) for cn in STD]
        k.same(tuple(sorted(idx)), tuple(range(len(STD))), "indices of the standard extensions")
        for p, cn in (("concept", 0), ("cost", 1), ("identity", 2), ("lifecycle", 3), ("micro", 4), ("org", 5), ("semantic", 6),
                      ("time", 7)):
            k.same(k.m(m, "get_by_prefix", p), k.new(STD[cn]), "the extension with prefix %s" % p)
    for warm in (True, False):
        k.scenario("standard/%s" % ("warm" if warm else "cold"), std, warm=warm)

    def exts(k, n, uri):
        out = []
        for i in range(n):
            u = "urn:x%d" % i
            if uri:
                u = k.I.call(k.func("opyenxes.extension.std.XConceptExtension", "urlparse"), ["http://x.org/e%d.xesext" % i])
            out.append(k.new("XExtension", k.word("name%d" % i, group="name", excl="oei"),
                             k.word("prefix%d" % i, group="prefix", excl="oei"), u))
        return out

    def new(k, n, uri):
        m = man(k)
        before = [k.m(m, "get_by_index", i) for i in range(8)]
        k.isnone(k.m(m, "get_by_index", 8), "extension at an index never given")
        xs = exts(k, n, uri)
        for x in xs:
            k.same(k.m(m, "get_index", x), -1, "index of an extension not registered")
            k.isnone(k.m(m, "get_by_uri", k.m(x, "get_uri")), "extension of an unknown URI")
        for i, x in enumerate(xs):
            k.m(m, "register", x)
            at = k.last
            k.same(agree(k, m, x), 8 + i, "index of a new extension", at)
            k.isnone(k.m(m, "get_by_index", 9 + i), "extension at the next index")
        for i, x in enumerate(xs):
            k.same(agree(k, m, x), 8 + i, "index of an extension after others were registered")
        k.same(tuple(k.m(m, "get_by_index", i) for i in range(8)), tuple(before), "the other extensions")
        for x in xs:
            k.m(m, "register", x)
        for i, x in enumerate(xs):
            k.same(agree(k, m, x), 8 + i, "index of an extension registered twice")
        k.isnone(k.m(m, "get_by_index", 8 + n), "extension registered twice takes two places")
        for cn in STD:
            agree(k, m, k.new(cn))
    for n in (1, 2, 3):
        for uri in (False, True):
            k.scenario("new/%d%s" % (n, "/parsed-uri" if uri else ""), lambda k, n=n, u=uri: new(k, n, u))

    def replaced(k, n, which):
        m = man(k)
        xs = exts(k, n, False)
        for x in xs:
            k.m(m, "register", x)
        old = xs[which]
        y = k.new("XExtension", k.word("newname", group="name", excl="oei"), k.word("newprefix", group="prefix", excl="oei"), k.m(old, "get_uri"))
        k.m(m, "register", y)
        at = k.last
        xs[which] = y
        for i, x in enumerate(xs):
            k.same(agree(k, m, x), 8 + i, "index after an extension was registered again", at)
        k.isnone(k.m(m, "get_by_name", k.m(old, "get_name")), "the name of the extension that was replaced")
        k.isnone(k.m(m, "get_by_prefix", k.m(old, "get_prefix")), "the prefix of the extension that was replaced")
        k.isnone(k.m(m, "get_by_index", 8 + n), "number of extensions after one was registered again")
    for n, w in ((1, 0), (2, 0), (2, 1), (3, 1)):
        k.scenario("replaced/%d/%d" % (n, w), lambda k, n=n, w=w: replaced(k, n, w))

    def unknown(k):
        m = man(k)
        k.isnone(k.m(m, "get_by_name", k.text("n", excl="oei")), "an unknown name")
        k.isnone(k.m(m, "get_by_prefix", k.text("p", excl="oei")), "an unknown prefix")
        k.isnone(k.m(m, "get_by_uri", k.text("u")), "an unknown URI")
        for i in (8, 9, 100, -1, -8):
            k.isnone(k.m(m, "get_by_index", i), "extension at index %d" % i)
    k.scenario("unknown", unknown)

    def many(k, n):
        m = man(k)
        parsed = k.func("opyenxes.extension.std.XConceptExtension", "urlparse")
        xs = [k.new("XExtension", "Name %d" % i, "pre%d" % i, k.I.call(parsed, ["http://x.org/e%d.xesext" % i])) for i in range(n)]
        for x in xs:
            k.m(m, "register", x)
        for i, x in enumerate(xs):
            k.same(agree(k, m, x), 8 + i, "index of the extension registered as number %d of %d" % (i, n))
        for cn in STD:
            agree(k, m, k.new(cn))
        for i in (0, n // 2, n - 1):
            xs[i] = k.new("XExtension", "New %d" % i, "new%d" % i, k.m(xs[i], "get_uri"))
            k.m(m, "register", xs[i])
        for i, x in enumerate(xs):
            k.same(agree(k, m, x), 8 + i, "index of the extension registered as number %d of %d" % (i, n))
        k.isnone(k.m(m, "get_by_index", 8 + n), "number of extensions")
    for n in (5, 12, 30, 60):
        k.scenario("many/%d" % n, lambda k, n=n: many(k, n))


MIN_SCENARIOS = 12
