"""Singletons, by abstract interpretation of the metaclass calls from a cold start and in every construction order."""
import itertools

METHOD = ("Abstract interpretation of constructing the process-wide objects, from a freshly loaded package (no instance yet) "
          "and afterwards; the abstract heap must hold exactly one instance per class, of that class.")
RULE = "C() is C(), isinstance(C(), C), C() is not D() for C != D, initialised once"

SINGLE = ["XConceptExtension", "XCostExtension", "XIdentityExtension", "XLifecycleExtension", "XMicroExtension",
          "XOrganizationalExtension", "XSemanticExtension", "XTimeExtension", "XExtensionManager", "XExtensionParser",
          "XFactoryRegistry", "XParserRegistry", "XSerializerRegistry", "XGlobalAttributeNameMap", "XIDFactory",
          "XCostAmount", "XCostDriver", "XCostType"]


def run(k):
    def one(k, cn):
        a = k.new(cn)
        k.ok(a.cls is k.cls(cn), "%s() is a %s" % (cn, a.cls.name))
        k.same(k.new(cn), a, "%s() called twice" % cn)
        for o in SINGLE:
            k.new(o)
        k.same(k.new(cn), a, "%s() after the other singletons were made" % cn)
    for cn in SINGLE:
        for warm in (False, True):
            k.scenario("one/%s/%s" % (cn, "warm" if warm else "cold"), lambda k, c=cn: one(k, c), warm=warm)

    def pair(k, a, b):
        x = k.new(a)
        y = k.new(b)
        k.ok(x is not y, "%s() and %s() are one object" % (a, b))
        k.ok(x.cls is k.cls(a), "%s() is a %s" % (a, x.cls.name))
        k.ok(y.cls is k.cls(b), "%s() is a %s" % (b, y.cls.name))
        k.same((k.new(a), k.new(b)), (x, y), "constructing again")
    for a, b in itertools.permutations(SINGLE, 2):
        k.scenario("pair/%s/%s" % (a, b), lambda k, a=a, b=b: pair(k, a, b), warm=False)

    def state(k):
        """constructing again does not reset the state of the instance"""
        r = k.new("XFactoryRegistry")
        f = k.new("XFactory")
        k.m(r, "set_current_default", f)
        k.same(k.m(k.new("XFactoryRegistry"), "current_default"), f, "state after constructing again")
        m = k.new("XGlobalAttributeNameMap")
        key, al = k.key("key"), k.text("alias")
        k.m(m, "register_mapping", "EN", key, al)
        k.same(k.m(k.new("XGlobalAttributeNameMap"), "map", key), al, "mapping after constructing again")
        e = k.new("XExtension", k.text("n"), k.word("p"), "urn:x")
        g = k.new("XExtensionManager")
        k.m(g, "register", e)
        k.same(k.m(k.new("XExtensionManager"), "get_by_uri", "urn:x"), e, "extension after constructing again")
        for cn in ("XParserRegistry", "XSerializerRegistry"):
            d = k.m(k.new(cn), "current_default")
            k.same(k.m(k.new(cn), "current_default"), d, "default of %s after constructing again" % cn)
    for warm in (False, True):
        k.scenario("state/%s" % ("warm" if warm else "cold"), state, warm=warm)


    def often(k):
        first = {cn: k.new(cn) for cn in SINGLE}
        for i in range(40):
            for cn in SINGLE if i % 2 else reversed(SINGLE):
                k.ok(k.new(cn) is first[cn], "%s() called for the %d. time gives another object" % (cn, i + 2))
        k.ok(len({id(x) for x in first.values()}) == len(SINGLE), "two process-wide objects are one")
    for warm in (False, True):
        k.scenario("often/%s" % ("warm" if warm else "cold"), often, warm=warm)

    def kept(k, n):
        """What was put into the process-wide objects is there however much is put in."""
        m, g, r = k.new("XGlobalAttributeNameMap"), k.new("XExtensionManager"), k.new("XFactoryRegistry")
        es, fs = [], []
        for i in range(n):
            k.m(k.new("XGlobalAttributeNameMap"), "register_mapping", "L%d" % (i % 3), "key%d" % i, "alias%d" % i)
            es.append(k.new("XExtension", "name%d" % i, "pre%d" % i, "urn:%d" % i))
            k.m(k.new("XExtensionManager"), "register", es[-1])
            fs.append(k.new("XFactory"))
            k.m(k.new("XFactoryRegistry"), "register", fs[-1])
        for i in range(n):
            k.same(k.m(k.m(m, "get_mapping", "L%d" % (i % 3)), "map", "key%d" % i), "alias%d" % i, "name registered before others")
            k.ok(k.m(k.new("XExtensionManager"), "get_by_uri", "urn:%d" % i) is es[i], "extension registered before others")
            k.ok(k.truth(k.has(r, fs[i])), "factory registered before others")
        k.ok(k.new("XExtensionManager") is g and k.new("XGlobalAttributeNameMap") is m and k.new("XFactoryRegistry") is r,
             "a process-wide object is another one after much was put in")
    for n in (9, 33, 64):
        k.scenario("kept/%d" % n, lambda k, n=n: kept(k, n))


MIN_SCENARIOS = 300
