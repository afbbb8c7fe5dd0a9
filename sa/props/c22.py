"""Attribute name mappings, by abstract interpretation of registration and lookup."""

METHOD = ("Abstract interpretation of register_mapping / map / map_safely with symbolic mapping names, keys and aliases, "
          "given as text or as attribute, mapping given by name or as object; partitioned on every key comparison.")
RULE = "map == last alias registered for the key in that mapping; map_safely falls back to EN, then to the key itself"


def run(k):
    def M(k):
        return k.new("XGlobalAttributeNameMap")

    def as_attr(k, key, how):
        return key if how == "text" else k.attr(how, key, name="av")

    def basic(k, how):
        m = k.new("XAttributeNameMap", k.text("name"))
        key, other, alias = k.key("key"), k.key("other"), k.text("alias")
        k.isnone(k.m(m, "map", as_attr(k, key, how)), "alias of an unregistered key")
        k.m(m, "register_mapping", as_attr(k, key, how), alias)
        at = k.last
        k.same(k.m(m, "map", as_attr(k, key, how)), alias, "alias registered")
        k.same(k.m(m, "map", key), alias, "alias asked by key", at)
        k.same(k.m(m, "map", k.attr("literal", key)), alias, "alias asked by attribute", at)
        k.isnone(k.m(m, "map", as_attr(k, other, how)), "alias of another key")
        a2 = k.text("alias2")
        k.m(m, "register_mapping", as_attr(k, key, how), a2)
        k.same(k.m(m, "map", key), a2, "alias after registering a second one")
        a3 = k.text("alias3")
        k.m(m, "register_mapping", as_attr(k, other, how), a3)
        k.same((k.m(m, "map", key), k.m(m, "map", other)), (a2, a3), "aliases of two keys")
    for how in ("text", "literal", "discrete", "list", "timestamp"):
        k.scenario("map/%s" % how, lambda k, h=how: basic(k, h))

    def name(k):
        n = k.text("name")
        k.same(k.m(k.new("XAttributeNameMap", n), "get_mapping_name"), n, "name of a mapping")
    k.scenario("mapping-name", name)

    def registry(k):
        g = M(k)
        n1, n2 = k.word("n1", group="map", minlen=3), k.word("n2", group="map", minlen=3)
        names0 = len(k.items(k.m(g, "get_available_mapping_names")))
        a = k.m(g, "get_mapping", n1)
        k.same(k.m(a, "get_mapping_name"), n1, "name of the mapping created on demand")
        k.same(k.m(g, "get_mapping", n1), a, "asking twice creates two mappings")
        b = k.m(g, "get_mapping", n2)
        k.ok(b is not a, "two names share one mapping")
        names = k.items(k.m(g, "get_available_mapping_names"))
        for n in (n1, n2, "EN"):
            k.ok(any(k.truth(k.eq(n, x)) for x in names), "a mapping's name is missing from the available names")
        k.same(len(names), names0 + 2, "number of available names")
        maps = k.items(k.m(g, "get_available_mappings"))
        k.ok(any(x is a for x in maps) and any(x is b for x in maps), "a mapping is missing from the available ones")
        k.same(len(maps), names0 + 2, "number of available mappings")
        k.ok(k.m(g, "get_mapping", "EN") is k.m(g, "get_standard_mapping"), "EN is not the standard mapping")
        k.same(k.m(k.m(g, "get_standard_mapping"), "get_mapping_name"), "EN", "name of the standard mapping")
        key, alias, other = k.key("key"), k.text("alias"), k.text("other")
        k.m(g, "register_mapping", n1, key, alias)
        k.m(g, "register_mapping", n2, key, other)
        k.same((k.m(a, "map", key), k.m(b, "map", key)), (alias, other), "aliases registered under two names")
        k.isnone(k.m(g, "map", key), "an alias of another language shows up in the standard mapping")
        k.m(g, "register_mapping", "EN", k.attr("literal", key), alias)
        k.same(k.m(g, "map", key), alias, "alias in the standard mapping")
        k.same(k.m(g, "map", k.attr("literal", key)), alias, "alias in the standard mapping asked by attribute")
    k.scenario("registry", registry)

    def safely(k, how, byname, inmap, instd):
        g = M(k)
        key, alias, std = k.key("key"), k.text("alias"), k.text("std")
        n = k.word("n1", minlen=3)
        if inmap == "unknown":
            arg = n if byname else k.new("XAttributeNameMap", n)
        else:
            m = k.m(g, "get_mapping", n)
            if inmap:
                k.m(g, "register_mapping", n, key, alias)
            else:
                k.m(g, "register_mapping", n, k.key("else"), alias)
            arg = n if byname else m
        if instd:
            k.m(g, "register_mapping", "EN", key, std)
        want = alias if inmap is True else (std if instd else key)
        k.same(k.m(g, "map_safely", as_attr(k, key, how), arg), want, "safe mapping of a key")
        k.same(k.m(g, "map_safely", as_attr(k, key, how), "EN"), std if instd else key, "safe mapping under EN")
        if inmap == "unknown" and byname:
            names = k.items(k.m(g, "get_available_mapping_names"))
            k.same(k.m(g, "map_safely", as_attr(k, key, how), n), want, "safe mapping asked twice")
    for how in ("text", "literal", "container"):
        for byname in (True, False):
            for inmap in (True, False, "unknown"):
                for instd in (True, False):
                    k.scenario("safely/%s/%s/%s/%s" % (how, "by-name" if byname else "by-map",
                                                     {True: "in-map", False: "not-in-map", "unknown": "unknown-map"}[inmap],
                                                     "in-EN" if instd else "not-in-EN"),
                               lambda k, h=how, b=byname, i=inmap, s=instd: safely(k, h, b, i, s))

    def std(k):
        g = M(k)
        for ext in ("XConceptExtension", "XTimeExtension", "XLifecycleExtension", "XOrganizationalExtension",
                    "XSemanticExtension"):
            e = k.new(ext)
            for a in k.items(k.m(e, "get_defined_attributes")):
                r = k.m(g, "map", a)
                k.ok(r is not None, "a standard attribute has no English name")
                k.same(k.m(g, "map_safely", a, k.word("nolang", minlen=3)), r, "safe mapping of a standard attribute")
                k.same(k.m(g, "map_safely", k.get(a, "get_key"), "EN"), r, "safe mapping of a standard key")
    k.scenario("standard-extensions", std)

    def text(k):
        m = k.new("XAttributeNameMap", "NM")
        k.m(m, "register_mapping", "k1", "a1")
        k.m(m, "register_mapping", "k2", "a2")
        k.same(k.str(m), "Attribute name map: NM\nk1 -> a1\nk2 -> a2", "text of a mapping")
    k.scenario("text", text)

    def many(k, maps, keys):
        g = M(k)
        std = [k.m(g, "map", x) for x in ("concept:name", "time:timestamp")]
        names = ["Map %d" % i for i in range(maps)]
        for i, n in enumerate(names):
            for j in range(keys):
                k.m(g, "register_mapping", n, "key %d" % j, "alias %d of %d" % (j, i))
        ms = [k.m(g, "get_mapping", n) for n in names]
        for i, n in enumerate(names):
            for j in range(keys):
                want = "alias %d of %d" % (j, i)
                k.same((k.m(ms[i], "map", "key %d" % j), k.m(g, "map_safely", "key %d" % j, n), k.m(g, "map_safely", "key %d" % j, ms[i])),
                       (want,) * 3, "alias in one of %d mappings of %d keys" % (maps, keys))
            k.same(k.m(g, "map_safely", "key %d" % keys, n), "key %d" % keys, "safe mapping of an unknown key")
            k.same(k.m(g, "map_safely", "concept:name", n), std[0], "safe mapping of a standard key")
        got = k.items(k.m(g, "get_available_mapping_names"))
        k.ok(all(n in got for n in names), "a mapping's name is missing from the available names")
        k.same(len(k.items(k.m(g, "get_available_mappings"))), len(got), "number of available mappings")
        k.same([k.m(g, "map", x) for x in ("concept:name", "time:timestamp")], std, "standard aliases")
    for maps, keys in ((1, 5), (5, 1), (9, 2), (17, 3), (33, 1), (1, 33), (2, 100), (100, 1)):
        k.scenario("many/%d/%d" % (maps, keys), lambda k, m=maps, n=keys: many(k, m, n))

    ODD = ("", " ", "k", "K", " k", "k ", "k k", "a:b", "\u00e9", "\t", "0", "None", "EN")

    def oddly(k, names, byattr):
        """Names and keys that differ in letter case, blanks or nothing but their emptiness are different names and keys."""
        g = M(k)
        want = {}
        for i, n in enumerate(names):
            for j, x in enumerate(ODD):
                if (i + j) % 3:
                    want[n, x] = "alias %d of %d" % (j, i) if (i + j) % 5 else ""
                    k.m(g, "register_mapping", n, k.attr("literal", x) if byattr else x, want[n, x])
        std = {x: want.get(("EN", x)) for x in ODD}
        for n in names:
            mp = k.m(g, "get_mapping", n)
            k.same(k.m(mp, "get_mapping_name"), n, "name of a mapping")
            for x in ODD:
                asked = k.attr("literal", x) if byattr else x
                k.same(k.m(mp, "map", asked), want.get((n, x)), "alias of %r in %r" % (x, n))
                safe = want[n, x] if (n, x) in want else std[x] if std[x] is not None else x
                k.same(k.m(g, "map_safely", asked, n), safe, "safe mapping of %r in %r" % (x, n))
                k.same(k.m(g, "map_safely", asked, mp), safe, "safe mapping of %r in the mapping %r" % (x, n))
    for byattr in (False, True):
        for i, names in enumerate((("de", "DE", "De"), ("", " ", "x y", "x  y"), ("EN", "en", "En "), ("\u00e9", "E", "0"))):
            k.scenario("odd/%d/%s" % (i, "attributes" if byattr else "keys"), lambda k, a=(names, byattr): oddly(k, *a))


MIN_SCENARIOS = 40
