"""Extension definitions, by abstract interpretation of the constructors of the standard extensions."""
METHOD = ("Abstract interpretation of the standard extensions' constructors from a cold and a warm process: name, prefix, URI "
          "and the attributes defined per level are compared with the XES standard's definitions; the plain extension class "
          "is analysed over symbolic names, prefixes and URIs.")
RULE = "name/prefix/URI/attributes per level == the standard's; every key is prefix:...; defined == union of the four levels"

LIT, NUM, REAL, ID, TIME = "XAttributeLiteral", "XAttributeDiscrete", "XAttributeContinuous", "XAttributeID", "XAttributeTimestamp"
STD = {
    "XConceptExtension": ("Concept", "concept", {"log": {"name": LIT}, "trace": {"name": LIT},
                                                 "event": {"name": LIT, "instance": LIT}, "meta": {}}),
    "XCostExtension": ("Cost", "cost", {"log": {}, "trace": {"total": REAL, "currency": LIT}, "event": {
        "total": REAL, "currency": LIT, "amount": REAL, "driver": LIT, "type": LIT}, "meta": None}),
    "XIdentityExtension": ("Identity", "identity", {x: {"id": ID} for x in ("log", "trace", "event", "meta")}),
    "XLifecycleExtension": ("Lifecycle", "lifecycle", {"log": {"model": LIT}, "trace": {}, "event": {"transition": LIT},
                                                       "meta": {}}),
    "XMicroExtension": ("Micro", "micro", {"log": {}, "trace": {}, "event": {"level": NUM, "parentId": ID, "length": NUM},
                                           "meta": {}}),
    "XOrganizationalExtension": ("Organizational", "org", {"log": {}, "trace": {}, "event": {
        "resource": LIT, "role": LIT, "group": LIT}, "meta": {}}),
    "XSemanticExtension": ("Semantic", "semantic", {x: {"modelReference": LIT} for x in ("log", "trace", "event", "meta")}),
    "XTimeExtension": ("Time", "time", {"log": {}, "trace": {}, "event": {"timestamp": TIME}, "meta": {}}),
}
LEVELS = ("log", "trace", "event", "meta")


def run(k):
    def level(k, x, l):
        return k.items(k.m(x, "get_%s_attributes" % l))

    def std(k, cn):
        name, prefix, table = STD[cn]
        x = k.new(cn)
        k.same(k.m(x, "get_name"), name, "name of %s" % cn)
        k.same(k.str(x), name, "text of %s" % cn)
        k.same(k.m(x, "get_prefix"), prefix, "prefix of %s" % cn)
        k.same(k.m(k.m(x, "get_uri"), "geturl"), "http://www.xes-standard.org/%s.xesext" % prefix, "URI of %s" % cn)
        for l in LEVELS:
            if table[l] is None:
                continue
            got = {}
            for a in level(k, x, l):
                key = k.get(a, "get_key")
                k.ok(key not in got, "%s defined twice on the %s level" % (key, l))
                got[key] = k.kind_of(a)
                k.same(k.get(a, "get_extension"), x, "extension of the %s attribute %s" % (l, key))
            want = {"%s:%s" % (prefix, s): kd for s, kd in table[l].items()}
            k.same(tuple(sorted(got.items())), tuple(sorted(want.items())), "%s attributes of %s" % (l, cn))
            for key in want:
                k.ok(k.m(k.new("XGlobalAttributeNameMap"), "map", key) is not None, "%s has no standard alias" % key)
        aliases(k, cn)
        union(k, x)

    def aliases(k, cn):
        """one alias per attribute, in English and, but for cost and micro, in the other languages of the library"""
        name, prefix, table = STD[cn]
        keys = sorted({"%s:%s" % (prefix, s) for l in LEVELS for s in table[l] or ()})
        g = k.new("XGlobalAttributeNameMap")
        for lang in ("EN",) + (() if cn in ("XCostExtension", "XMicroExtension") else ("DE", "FR", "ES", "PT")):
            mp = k.m(g, "get_mapping", lang)
            got = [k.m(mp, "map", key) for key in keys]
            at = k.last
            for key, a in zip(keys, got):
                k.ok(isinstance(a, str) and a.strip() == a != "", "%s has no alias in %s" % (key, lang), at)
                k.ok(a != key, "the alias of %s in %s is the key itself" % (key, lang), at)
                k.same(k.m(g, "map_safely", key, lang), a, "alias of %s in %s" % (key, lang))
            k.same(len(set(got)), len(got), "number of different aliases of %s in %s" % (cn, lang), at)

    def union(k, x):
        want = [a for l in LEVELS for a in level(k, x, l)]
        got = k.items(k.m(x, "get_defined_attributes"))
        at = k.last
        for a in want:
            k.ok(any(k.truth(k.eq(a, b)) for b in got), "a defined attribute is missing from the union", at)
        for b in got:
            k.ok(any(k.truth(k.eq(a, b)) for a in want), "the union holds an attribute of no level", at)
    for cn in STD:
        for warm in (True, False):
            k.scenario("standard/%s/%s" % (cn, "warm" if warm else "cold"), lambda k, c=cn: std(k, c), warm=warm)

    def fresh(k):
        n, p, u = k.text("n"), k.word("p"), k.text("u")
        x, y = k.new("XExtension", n, p, u), k.new("XExtension", n, p, k.text("u2"))
        k.same((k.m(x, "get_name"), k.m(x, "get_prefix"), k.m(x, "get_uri"), k.str(x)), (n, p, u, n), "a new extension")
        for l in LEVELS:
            k.same(len(level(k, x, l)), 0, "%s attributes of a new extension" % l)
        k.same(len(k.items(k.m(x, "get_defined_attributes"))), 0, "attributes of a new extension")
    k.scenario("new", fresh)

    def added(k, which, early):
        x, y = k.new("XExtension", "n", "p", "urn:a"), k.new("XExtension", "m", "q", "urn:b")
        if early:
            union(k, x)
        a = {l: k.attr("literal", k.key("k" + l), "d", x) for l in which}
        for l in which:
            k.m(k.m(x, "get_%s_attributes" % l), "add", a[l])
            k.same(tuple(level(k, x, l)), (a[l],), "%s attributes after adding one" % l)
            union(k, x)
        for l in LEVELS:
            k.same(len(level(k, x, l)), 1 if l in which else 0, "%s attributes" % l)
            k.same(len(level(k, y, l)), 0, "%s attributes of another extension" % l)
        got = k.items(k.m(x, "get_defined_attributes"))
        k.same(len(got), len(which), "number of defined attributes")
        for l in which:
            k.ok(any(b is a[l] for b in got), "the union misses the %s attribute" % l)
        k.same(len(k.items(k.m(y, "get_defined_attributes"))), 0, "attributes of another extension")
    for which in (("log",), ("trace",), ("event",), ("meta",), ("log", "event"), ("meta", "trace"), LEVELS):
        for early in (False, True):
            k.scenario("added/%s%s" % ("+".join(which), "/asked-before" if early else ""),
                       lambda k, w=which, e=early: added(k, w, e))

    def removed(k, which, early):
        x = k.new("XExtension", "n", "p", "urn:a")
        a = {l: [k.attr("literal", k.key("k" + l + i), "d", x) for i in "12"] for l in LEVELS}
        for l in LEVELS:
            for b in a[l]:
                k.m(k.m(x, "get_%s_attributes" % l), "add", b)
        if early:
            union(k, x)
        for l in which:
            k.m(k.m(x, "get_%s_attributes" % l), "remove", a[l][0])
            union(k, x)
        got = k.items(k.m(x, "get_defined_attributes"))
        at = k.last
        k.same(len(got), 8 - len(which), "number of defined attributes after removing some", at)
        for l in LEVELS:
            k.same(any(b is a[l][0] for b in got), l not in which, "the union holds the first %s attribute" % l, at)
            k.ok(any(b is a[l][1] for b in got), "the union misses the other %s attribute" % l, at)
    for which in (("log",), ("trace",), ("event",), ("meta",), ("log", "event"), ("meta", "trace"), LEVELS):
        for early in (False, True):
            k.scenario("removed/%s%s" % ("+".join(which), "/asked-before" if early else ""),
                       lambda k, w=which, e=early: removed(k, w, e))


MIN_SCENARIOS = 25
