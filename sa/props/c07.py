"""Comparison, equality and hash coherence, by partitioned abstract interpretation of the comparison operators."""
from .common import ALL, BIG, LENGTHS, SIZES

METHOD = ("Abstract interpretation of compare_to, the six rich comparison operators and hash of every comparable class "
          "over symbolic keys/values; the abstract state is partitioned on every comparison the code makes, and on each "
          "partition the operators must agree with each other and with the definition of equality of that class.")
RULE = "a==b <=> same key and same value; compare_to antisymmetric; operators == sign of compare_to; a==b => hash equal"

PAIRS = ("literal", "discrete", "continuous", "boolean", "timestamp", "id", "list", "container")


def sgn(k, r):
    if k.truth(k.cmp("<", r, 0)):
        return -1
    return 1 if k.truth(k.cmp(">", r, 0)) else 0


def coherent(k, a, b, want_eq=None, want_sign=None, what=""):
    r = k.m(a, "compare_to", b)
    at = k.last
    s = sgn(k, r)
    t = sgn(k, k.m(b, "compare_to", a))
    k.ok(s == -t, "%s: compare_to is not antisymmetric (%d one way, %d the other)" % (what, s, t), at)
    if want_sign is not None:
        k.ok(s == want_sign, "%s: compare_to orders them %d, their keys/values order them %d" % (what, s, want_sign), at)
    for op, w in (("<", s < 0), ("<=", s <= 0), (">", s > 0), (">=", s >= 0)):
        k.same(k.truth(k.cmp(op, a, b)), w, "%s: a %s b disagrees with compare_to" % (what, op))
    equality(k, a, b, s == 0 if want_eq is None else want_eq, what)


def equality(k, a, b, want, what):
    k.last = "%s.__eq__" % a.cls.name
    k.same(k.truth(k.eq(a, b)), want, "%s: a == b" % what)
    k.same(k.truth(k.eq(b, a)), want, "%s: b == a" % what)
    k.last = "%s.__ne__" % a.cls.name
    k.same(k.truth(k.ne(a, b)), not want, "%s: a != b" % what)
    k.same(k.truth(k.ne(b, a)), not want, "%s: b != a" % what)
    k.last = "%s.__hash__" % a.cls.name
    ha, hb = k.hash(a), k.hash(b)
    if want:
        k.same(hb, ha, "%s: equal objects have different hashes" % what)


def mk(k, kd, key, i):
    if kd == "boolean":
        return k.attr("boolean-true" if i % 2 else "boolean-false", key)
    return k.attr(kd, key, name="v%d" % i)


def val(k, a):
    if k.kind_of(a) in ("XAttributeList", "XAttributeContainer"):
        return None
    v = k.get(a, "get_value")
    return k.get(v, "get_uuid") if k.isinst(v, "XID") else v


def order(k, x, y):
    if x is None and y is None:
        return 0
    if k.truth(k.eq(x, y)):
        return 0
    if isinstance(x, bool):
        return 1 if x else -1
    return 1 if k.truth(k.cmp(">", x, y)) else -1


def run(k):
    def pair(k, kd, i, j, samekey, ext):
        k1 = k.text("k1")
        k2 = k1 if samekey else k.text("k2")
        a, b = mk(k, kd, k1, i), mk(k, kd, k2, j)
        if ext:
            b = k.I.call(b.cls, [k2] + ([k.get(b, "get_value")] if val(k, b) is not None else []) +
                         [k.new("XConceptExtension")])
            k.put(b, k.attr("literal", k.key("nk"), name="nv"))
        want = order(k, k1, k2) or order(k, val(k, a), val(k, b))
        coherent(k, a, b, want == 0, want, "two %s attributes" % kd)
    for kd in PAIRS:
        for samekey in (True, False):
            combos = [(0, 0), (0, 1), (1, 0), (1, 1)] if kd == "boolean" else [(0, 0), (0, 1)]
            for i, j in combos:
                for ext in (False, True):
                    k.scenario("compare/%s/%s/%d%d%s" % (kd, "same-key" if samekey else "any-keys", i, j,
                                                      "/ext" if ext else ""),
                               lambda k, kd=kd, i=i, j=j, s=samekey, e=ext: pair(k, kd, i, j, s, e))

    # equality also after the value of an attribute was changed
    def mutated(k, kd):
        key = k.text("k1")
        a, b = mk(k, kd, key, 0), mk(k, kd, key, 1)
        k.hash(a)
        k.eq(a, b)
        k.m(a, "set_value", k.get(b, "get_value"))
        coherent(k, a, b, True, 0, "two %s attributes after set_value" % kd)
    for kd in PAIRS[:6]:
        k.scenario("compare/%s/after-set-value" % kd, lambda k, kd=kd: mutated(k, kd))

    # different kinds are never equal, whichever operand is asked
    def kinds(k, x, y):
        key = k.text("k1")
        a, b = mk(k, x, key, 0), mk(k, y, key, 1)
        equality(k, a, b, False, "a %s and a %s attribute with one key" % (x, y))
    for x in PAIRS:
        for y in PAIRS:
            if x != y and not {x, y} <= {"list", "container"}:
                k.scenario("kinds/%s-vs-%s" % (x, y), lambda k, x=x, y=y: kinds(k, x, y))

    def foreign(k, kd):
        a = mk(k, kd, k.text("k1"), 0)
        for o in (k.text("s"), k.int("n"), None, k.event()):
            k.same(k.truth(k.eq(a, o)), False, "a %s attribute equals something that is not an attribute" % kd)
            k.same(k.truth(k.ne(a, o)), True, "a %s attribute equals something that is not an attribute" % kd)
    for kd in PAIRS:
        k.scenario("foreign/%s" % kd, lambda k, kd=kd: foreign(k, kd))

    # same-valued numbers of the two numeric types; transitivity on three
    def three(k, kd):
        xs = [mk(k, kd, k.text("k%d" % i), i) for i in range(3)]
        s = [[sgn(k, k.m(x, "compare_to", y)) for y in xs] for x in xs]
        for i in range(3):
            for j in range(3):
                for l in range(3):
                    k.ok(not (s[i][j] <= 0 and s[j][l] <= 0 and s[i][l] > 0),
                         "the ordering of %s attributes is not transitive" % kd)
    if k.thorough:
        for kd in ("literal", "boolean", "list"):
            k.scenario("transitive/%s" % kd, lambda k, kd=kd: three(k, kd))

    # known instants, in one zone and in different ones
    def instants(k, x, y, want):
        mkdt = k.client("""
            from datetime import datetime, timezone, timedelta
            def make(y, mo, d, h, mi, s, us, off):
                return datetime(y, mo, d, h, mi, s, us, tzinfo=timezone(timedelta(minutes=off)))
            """)["make"]
        key = k.text("k1")
        a, b = (k.attr("timestamp", key, k.I.call(mkdt, list(v))) for v in (x, y))
        k.hash(a)
        coherent(k, a, b, want == 0, want, "timestamps %s and %s" % (x, y))
        coherent(k, a, k.m(b, "clone"), want == 0, want, "timestamps %s and the clone of %s" % (x, y))
        k.m(b, "set_value", k.get(a, "get_value"))
        coherent(k, a, b, True, 0, "timestamps after set_value")
    base = (2020, 6, 15, 12, 0, 0, 0, 0)
    for i, (x, y, want) in enumerate((
            (base, base, 0), (base, (2020, 6, 15, 14, 0, 0, 0, 120), 0), (base, (2020, 6, 15, 6, 30, 0, 0, -330), 0),
            ((2020, 1, 1, 0, 30, 0, 0, 60), (2019, 12, 31, 23, 30, 0, 0, 0), 0), (base, (2020, 6, 15, 12, 0, 0, 0, 60), 1),
            (base, (2020, 6, 15, 12, 0, 0, 0, -1), -1), (base, (2020, 6, 15, 12, 0, 0, 1, 0), -1),
            (base, (2020, 6, 15, 14, 0, 0, 999, 120), -1), ((2020, 6, 16, 0, 0, 0, 0, 840), base, -1),
            (base, (2020, 6, 15, 12, 0, 0, 1000, 0), -1))):
        k.scenario("instants/%d" % i, lambda k, x=x, y=y, w=want: instants(k, x, y, w))
        k.scenario("instants/%d/turned" % i, lambda k, x=x, y=y, w=want: instants(k, y, x, -w))

    def ids(k):
        u, v = k.uuid("u"), k.uuid("v")
        a, b = k.new("XID", u), k.new("XID", v)
        w = order(k, u, v)
        coherent(k, a, b, w == 0, w, "two identifiers")
        coherent(k, a, k.m(a, "clone"), True, 0, "an identifier and its clone")
        k.m(a, "set_uuid", v)
        coherent(k, a, b, True, 0, "two identifiers after set_uuid")
        k.same(k.truth(k.eq(a, k.text("s"))), False, "an identifier equals a text")
    k.scenario("identifier", ids)

    def events(k):
        u, v = k.uuid("u"), k.uuid("v")
        a = k.event(k.attr("literal", k.key("x"), name="p"), id=k.new("XID", u))
        b = k.event(k.attr("literal", k.key("y"), name="q"), id=k.new("XID", v))
        equality(k, a, b, order(k, u, v) == 0, "two events")
        equality(k, a, a, True, "an event and itself")
        k.m(b, "set_id", k.new("XID", u))
        equality(k, a, b, True, "two events given one identity")
        k.same(k.truth(k.eq(a, k.text("s"))), False, "an event equals a text")
    k.scenario("event", events)

    def traces(k):
        us = [k.uuid("u%d" % i, group="u") for i in range(3)]
        ev = lambda i: k.event(id=k.new("XID", us[i]))
        a = k.trace([ev(0), ev(1)], [k.attr("literal", k.key("x"))])
        b = k.trace([ev(0), ev(1)], [k.attr("literal", k.key("y"))])
        c = k.trace([ev(0), ev(2)])
        d = k.trace([ev(1), ev(0)])
        equality(k, a, b, True, "two traces of the same events")
        for o, w in ((c, "different events"), (d, "a different order"), (k.trace([ev(0)]), "fewer events")):
            equality(k, a, o, False, "two traces with " + w)
        e = k.trace([ev(0)])
        k.hash(e)
        k.m(e, "append", ev(1))
        equality(k, a, e, True, "a trace after appending the missing event")
    k.scenario("trace", traces)

    def classes(k):
        x, y = k.text("x"), k.text("y")
        a, b = k.new("XEventClass", x, k.int("i")), k.new("XEventClass", y, k.int("j"))
        k.m(a, "set_size", k.int("n"))
        w = order(k, x, y)
        coherent(k, a, b, w == 0, w, "two event classes")
        coherent(k, a, a, True, 0, "an event class and itself")
        k.same(k.truth(k.eq(a, k.text("s"))), False, "an event class equals a text")
    k.scenario("event-class", classes)

    def classifier(k, m, n):
        x, y = k.text("x"), k.text("y")
        ka, kb = [k.text("a%d" % i) for i in range(m)], [k.text("b%d" % i) for i in range(n)]
        a = k.new("XEventAttributeClassifier", x, k.lst(*ka))
        b = k.new("XEventAttributeClassifier", y, k.lst(*kb))
        want = k.truth(k.eq(x, y)) and m == n and all(k.truth(k.eq(p, q)) for p, q in zip(ka, kb))
        coherent(k, a, b, want, None, "two classifiers")
    for m in (1, 2, 3):
        for n in (1, 2, 3):
            k.scenario("classifier/%d-vs-%d-keys" % (m, n), lambda k, m=m, n=n: classifier(k, m, n))

    def classifier_kinds(k):
        nm = k.new("XEventNameClassifier")
        b = k.new("XEventAttributeClassifier", k.m(nm, "name"), k.lst("concept:name"))
        coherent(k, nm, b, True, 0, "a predefined classifier and the same one spelled out")
        coherent(k, nm, k.new("XEventNameClassifier"), True, 0, "two event name classifiers")
        for o in ("XEventResourceClassifier", "XEventLifeTransClassifier"):
            coherent(k, nm, k.new(o), False, None, "two different predefined classifiers")
        an = k.new("XEventAndClassifier", k.lst(nm, k.new("XEventResourceClassifier")))
        coherent(k, nm, an, False, None, "a classifier and a conjunction with it")
        n2 = k.text("renamed")
        k.m(b, "set_name", n2)
        coherent(k, nm, b, k.truth(k.eq(n2, k.m(nm, "name"))), None, "a classifier after renaming")
        k.same(k.truth(k.eq(nm, k.text("s"))), False, "a classifier equals a text")
    k.scenario("classifier/predefined", classifier_kinds)

    def exts(k):
        u, v = k.text("u"), k.text("v")
        a = k.new("XExtension", k.text("n1"), k.word("p1"), u)
        b = k.new("XExtension", k.text("n2"), k.word("p2"), v)
        equality(k, a, b, order(k, u, v) == 0, "two extensions")
        equality(k, a, k.new("XExtension", k.text("n3"), k.word("p3"), u), True, "two extensions with one URI")
        k.same(k.truth(k.eq(a, k.text("s"))), False, "an extension equals a text")
    k.scenario("extension", exts)

    def cmpu(k, fn, x, y, want):
        r = k.call(k.func("opyenxes.utils.CompareUtils", fn), x, y)
        s = sgn(k, r)
        k.ok(s == want, "%s orders its arguments %d, they are ordered %d" % (fn, s, want))

    def strings(k):
        x, y = k.text("x"), k.text("y")
        cmpu(k, "compare_to_string", x, y, order(k, x, y))

    def numbers(k):
        x, y = k.int("x"), k.int("y")
        cmpu(k, "compare_to_number", x, y, order(k, x, y))

    def floats(k):
        x, y = k.float("x"), k.float("y")
        cmpu(k, "compare_to_number", x, y, order(k, x, y))

    def bools(k):
        for x in (True, False):
            for y in (True, False):
                cmpu(k, "compare_to_boolean", x, y, order(k, x, y))
    for f in (strings, numbers, floats, bools):
        k.scenario("helper/" + f.__name__, f)


    # values and keys that agree in a long beginning (or a long ending), and one being the beginning of the other
    def long(k, n, how):
        x = "ab" * (n // 2)
        p, q = {"last": (x + "m", x + "n"), "first": ("m" + x, "n" + x), "longer": (x, x + "m"),
                "middle": (x + "m" + x, x + "n" + x), "same": (x + "m", x + "m")}[how]
        same, sign = how == "same", 0 if how == "same" else -1
        for a, b, w in ((k.new("XAttributeLiteral", "k", p), k.new("XAttributeLiteral", "k", q), "literals with long values"),
                        (k.new("XAttributeLiteral", p, "v"), k.new("XAttributeLiteral", q, "v"), "attributes with long keys"),
                        (k.new("XAttributeDiscrete", p, 5), k.new("XAttributeDiscrete", q, 5), "attributes with long keys"),
                        (k.new("XEventClass", p, 0), k.new("XEventClass", q, 1), "event classes with long identities")):
            coherent(k, a, b, same, sign, "two " + w)
        coherent(k, k.new("XEventAttributeClassifier", p, k.lst("k")), k.new("XEventAttributeClassifier", q, k.lst("k")),
                 same, None, "two classifiers with long names")
        coherent(k, k.new("XEventAttributeClassifier", "n", k.lst("j", p)),
                 k.new("XEventAttributeClassifier", "n", k.lst("j", q)), same, None, "two classifiers with long keys")
        equality(k, k.new("XExtension", "n", "p", p), k.new("XExtension", "n", "p", q), same, "two extensions with long URIs")
        k.ok(sgn(k, k.call(k.func("opyenxes.utils.CompareUtils", "compare_to_string"), p, q)) == sign,
             "compare_to_string orders two long texts wrongly")
    for n in LENGTHS:
        for how in ("last", "first", "longer", "middle", "same"):
            k.scenario("long/%d/%s" % (n, how), lambda k, n=n, how=how: long(k, n, how))

    def large(k):
        vs = (0, 1, -1, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 64, -2 ** 31, -2 ** 63, 10 ** 30)
        for i, x in enumerate(vs):
            for y in vs[i:]:
                s = (x > y) - (x < y)
                coherent(k, k.new("XAttributeDiscrete", "k", x), k.new("XAttributeDiscrete", "k", y), s == 0, s,
                         "two discrete attributes with the values %d and %d" % (x, y))
    k.scenario("large-numbers", large)

    def fractions(k):
        vs = (0.0, 1e-12, 1e-7, 0.1, 0.10000001, 0.5, 1.0, 1.0000000001, 1.5, 99999999.5, 1e16, 1e300, -1e-9, -0.5, -1e20)
        for i, x in enumerate(vs):
            for y in vs[i:]:
                s = (x > y) - (x < y)
                coherent(k, k.new("XAttributeContinuous", "k", x), k.new("XAttributeContinuous", "k", y), s == 0, s,
                         "two continuous attributes with the values %r and %r" % (x, y))
    k.scenario("close-numbers", fractions)

    # classifiers with many keys that differ in one, the last, or by one more
    def many_keys(k, n):
        ks = ["key%d" % i for i in range(n)]
        mkc = lambda *l: k.new("XEventAttributeClassifier", "n", k.lst(*l))
        a = mkc(*ks)
        coherent(k, a, mkc(*ks), True, 0, "two classifiers with the same %d keys" % n)
        for i in sorted({0, 1, n // 2, n - 1}):
            coherent(k, a, mkc(*(ks[:i] + ["other"] + ks[i + 1:])), False, None, "two classifiers, key %d of %d differing" % (i, n))
        coherent(k, a, mkc(*ks[:-1]), False, None, "two classifiers, one with fewer keys")
    for n in SIZES:
        k.scenario("many-keys/%d" % n, lambda k, n=n: many_keys(k, n))

    def many_events(k, n):
        us = [k.uuid("u%d" % i, group="u") for i in range(n + 1)]
        ev = lambda i: k.event(id=k.new("XID", us[i]))
        a = k.trace([ev(i) for i in range(n)])
        equality(k, a, k.trace([ev(i) for i in range(n)]), True, "two traces of the same %d events" % n)
        for j in sorted({0, n // 2, n - 1}):
            b = k.trace([ev(n if i == j else i) for i in range(n)])
            equality(k, a, b, False, "two traces of %d events, number %d differing" % (n, j))
        equality(k, a, k.trace([ev(i) for i in range(n - 1)]), False, "two traces, one an event shorter")
    for n in SIZES[:4]:
        k.scenario("many-events/%d" % n, lambda k, n=n: many_events(k, n))

    # equality does not look at what is nested below, however deep; and the attributes of an element do not matter
    def crowd(k, n):
        a, b = k.new("XAttributeLiteral", "k", "v"), k.new("XAttributeLiteral", "k", "v")
        for i in range(n):
            k.put(a, k.attr("literal", "n%d" % i, name="v"))
        coherent(k, a, b, True, 0, "two literals, one with %d nested attributes" % n)
    for n in SIZES:
        k.scenario("many-nested/%d" % n, lambda k, n=n: crowd(k, n))


MIN_SCENARIOS = 120
