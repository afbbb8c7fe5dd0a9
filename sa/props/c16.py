"""Attribute statistics (XAttributeInfo), by abstract interpretation of register and the queries."""
from .common import LEAF, PREFIXES, SIZES, keyed, nested, std_keys

METHOD = ("Abstract interpretation of XAttributeInfo.register over every attribute kind, repeated keys, with and without "
          "extension; every query is compared with the ideal table the registrations define.")
RULE = "frequencies, keys, types and extension groups reported == those of the registered attributes; prototypes detached"

TYPES = {"literal": "XAttributeLiteral", "discrete": "XAttributeDiscrete", "continuous": "XAttributeContinuous",
         "boolean-true": "XAttributeBoolean", "boolean-false": "XAttributeBoolean", "timestamp": "XAttributeTimestamp",
         "id": "XAttributeID", "list": "XAttributeList", "container": "XAttributeContainer"}


def keyset(k, xs):
    return tuple(sorted(k.items(xs), key=lambda t: str(t)))


def run(k):
    def table(k, kinds, exts, repeats):
        info = k.new("XAttributeInfo")
        E = {"a": k.new("XConceptExtension"), "b": k.new("XTimeExtension"), None: None}
        rows = []
        total = 0
        for i, (kd, e, n) in enumerate(zip(kinds, exts, repeats)):
            key = k.key("k%d" % i)
            rows.append((key, kd, e, n))
        rounds = max(repeats)
        for r in range(rounds):
            for i, (key, kd, e, n) in enumerate(rows):
                if r < n:
                    a = k.attr(kd, key, ext=E[e], name="v%d.%d" % (i, r))
                    if kd not in ("list", "container"):
                        k.put(a, k.attr("literal", k.key("n%d" % i), name="n%d.%d" % (i, r)))
                    before = k.view(a)
                    k.m(info, "register", a)
                    k.same(k.view(a), before, "registering an attribute changed it")
                    total += 1
        k.same(keyset(k, k.m(info, "get_attribute_keys")), keyset(k, k.lst(*[r[0] for r in rows])),
               "get_attribute_keys()")
        protos = k.items(k.m(info, "get_attributes"))
        k.same(keyset(k, k.lst(*[k.get(p, "get_key") for p in protos])), keyset(k, k.lst(*[r[0] for r in rows])),
               "keys of get_attributes()")
        for p in protos:
            for key, kd, e, n in rows:
                if k.truth(k.eq(k.get(p, "get_key"), key)):
                    k.same(k.kind_of(p), TYPES[kd], "kind of the prototype of a %s attribute" % kd)
                    k.same(k.get(p, "get_extension"), E[e], "extension of the prototype")
        from ..terms import app
        for key, kd, e, n in rows:
            k.same(k.m(info, "get_frequency", key), n, "get_frequency(key)")
            k.same(k.m(info, "get_frequency", k.attr(kd, key, name="probe")), n, "get_frequency(attribute)")
            k.same(k.m(info, "get_relative_frequency", key), n / total, "get_relative_frequency(key)")
            k.same(k.m(info, "get_relative_frequency", k.attr(kd, key, name="probe")), n / total,
                   "get_relative_frequency(attribute)")
        for t in sorted(set(TYPES.values())):
            want = [r[0] for r in rows if TYPES[r[1]] == t]
            c = k.cls(t)
            k.same(keyset(k, k.m(info, "get_keys_for_type", c)), keyset(k, k.lst(*want)), "get_keys_for_type(%s)" % t)
            got = k.items(k.m(info, "get_attributes_for_type", c))
            k.same(keyset(k, k.lst(*[k.get(p, "get_key") for p in got])), keyset(k, k.lst(*want)),
                   "get_attributes_for_type(%s)" % t)
        for e in ("a", "b", None):
            want = [r[0] for r in rows if r[2] == e]
            got = k.items(k.m(info, "get_attributes_for_extension", E[e]))
            k.same(keyset(k, k.lst(*[k.get(p, "get_key") for p in got])), keyset(k, k.lst(*want)),
                   "get_attributes_for_extension(%s)" % e)
            k.same(keyset(k, k.m(info, "get_keys_for_extension", E[e])), keyset(k, k.lst(*want)),
                   "get_keys_for_extension(%s)" % e)
        want = [r[0] for r in rows if r[2] is None]
        k.same(keyset(k, k.m(info, "get_keys_without_extension")), keyset(k, k.lst(*want)), "get_keys_without_extension()")
        got = k.items(k.m(info, "get_attributes_without_extension"))
        k.same(keyset(k, k.lst(*[k.get(p, "get_key") for p in got])), keyset(k, k.lst(*want)),
               "get_attributes_without_extension()")
        k.isnone(k.m(info, "get_frequency", k.key("unseen")), "frequency of an unregistered key")
        k.same(keyset(k, k.m(info, "get_keys_for_extension", k.new("XCostExtension"))), (),
               "keys of an extension never registered")

    kinds = LEAF + ("list", "container")
    for kd in kinds:
        for e in (None, "a"):
            for n in (1, 2, 3):
                k.scenario("register/%s/%s/x%d" % (kd, e, n), lambda k, kd=kd, e=e, n=n: table(k, [kd], [e], [n]))
    for rev in (False, True):
        k.scenario("register/mixed%s" % ("/rev" if rev else ""),
                   lambda k: table(k, ["literal", "literal", "discrete", "timestamp", "boolean-true", "id"],
                                   [None, "a", "a", "b", None, None], [1, 3, 2, 1, 1, 2]), setrev=rev)
    k.scenario("register/same-type", lambda k: table(k, ["literal"] * 4, [None, None, "a", "b"], [1, 2, 1, 1]))
    k.scenario("register/same-extension", lambda k: table(k, ["literal", "discrete", "continuous"], ["a"] * 3, [2, 1, 1]))

    def detached(k, kd):
        info = k.new("XAttributeInfo")
        a = nested(k, kd, "a", depth=2)
        k.m(info, "register", a)
        from .common import mutate
        p = k.items(k.m(info, "get_attributes"))[0]
        k.ok(p is not a, "the registered attribute itself is kept as prototype")
        snap, before = k.view(p), k.view(a)
        mutate(k, a, "m")
        k.same(k.view(k.items(k.m(info, "get_attributes"))[0]), snap,
               "changing a registered attribute changed its prototype")
        now = k.view(a)
        mutate(k, p, "q")
        k.same(k.view(a), now, "changing a prototype changed the registered attribute")
    for kd in kinds:
        k.scenario("detached/%s" % kd, lambda k, kd=kd: detached(k, kd))

    def copies(k):
        info = k.new("XAttributeInfo")
        k.m(info, "register", k.attr("literal", k.key("k0"), name="v"))
        n = k.items(k.m(info, "get_attributes_without_extension"))
        k.m(info, "register", k.attr("literal", k.key("k1"), name="v"))
        k.same(len(k.items(k.m(info, "get_attributes_without_extension"))), 2, "second registration is missing")
        for q, args in (("get_attributes_without_extension", ()), ("get_keys_without_extension", ()),
                        ("get_attributes", ()), ("get_attribute_keys", ()),
                        ("get_attributes_for_type", (k.cls("XAttributeLiteral"),)),
                        ("get_attributes_for_extension", (None,))):
            r = k.m(info, q, *args)
            at = k.last
            for mu in ("clear", "pop"):
                f = k.opt(r, mu)
                if f is not None:
                    k.call(f)
            k.same(k.len(k.m(info, q, *args)), 2, "changing the result of %s changed the statistics" % q, at)
    k.scenario("queries-return-copies", copies)

    # the helpers the statistics rest on
    def utils(k, kd):
        a = nested(k, kd, "a", depth=1)
        k.same(k.static("XAttributeUtils", "get_type", a), k.cls(TYPES[kd]), "get_type of a %s attribute" % kd)
        k.same(k.static("XAttributeUtils", "get_type_string", a), TYPES[kd][len("XAttribute"):].upper(),
               "get_type_string of a %s attribute" % kd)
        before = k.view(a)
        p = k.static("XAttributeUtils", "derive_prototype", a)
        at = k.last
        k.same(k.view(a), before, "derive_prototype changed its argument", at)
        k.ok(p is not a, "derive_prototype returns its argument", at)
        k.same(k.kind_of(p), TYPES[kd], "kind of the prototype of a %s attribute" % kd, at)
        k.same(k.get(p, "get_key"), k.get(a, "get_key"), "key of the prototype", at)
        k.same(k.get(p, "get_extension"), k.get(a, "get_extension"), "extension of the prototype", at)
        want = {"literal": "UNKNOWN", "boolean-true": True, "boolean-false": True, "continuous": 0.0, "discrete": 0}
        if kd in want:
            k.same(k.get(p, "get_value"), want[kd], "value of the prototype of a %s attribute" % kd, at)
        if kd == "id":
            k.same(k.truth(k.eq(k.get(p, "get_value"), k.get(a, "get_value"))), False,
                   "the prototype of an identifier carries the identifier", at)
    for kd in kinds:
        k.scenario("prototype/%s" % kd, lambda k, kd=kd: utils(k, kd))

    def badtype(k):
        for bad in (k.text("s"), None):
            for q in ("get_type", "get_type_string"):
                r, e = k.raises(lambda: k.static("XAttributeUtils", q, bad))
                k.ok(r and e.value.cls.name == "TypeError", "%s accepts something that is not an attribute" % q)
    k.scenario("type-of-non-attribute", badtype)

    def many(k, n):
        """n keys, the first of them registered n times."""
        info = k.new("XAttributeInfo")
        x = k.new("XConceptExtension")
        kd = lambda i: LEAF[i % len(LEAF)]
        one = lambda i: k.attr(kd(i), "k%d" % i, ext=x if i % 3 == 0 else None, name="v%d" % i)
        for i in range(n):
            k.m(info, "register", one(i))
            if i:
                k.m(info, "register", one(0))
        k.same(keyset(k, k.m(info, "get_attribute_keys")), keyset(k, k.lst(*["k%d" % i for i in range(n)])), "get_attribute_keys()")
        k.same(len(k.items(k.m(info, "get_attributes"))), n, "number of prototypes")
        for i in range(n):
            k.same(k.m(info, "get_frequency", "k%d" % i), n if i == 0 else 1, "get_frequency of one of %d keys" % n)
            k.same(k.m(info, "get_relative_frequency", "k%d" % i), (n if i == 0 else 1) / (2 * n - 1), "get_relative_frequency")
        for e, w in ((x, [i for i in range(n) if i % 3 == 0]), (None, [i for i in range(n) if i % 3])):
            k.same(keyset(k, k.m(info, "get_keys_for_extension", e)), keyset(k, k.lst(*["k%d" % i for i in w])),
                   "get_keys_for_extension with %d keys" % n)
        k.same(len(k.items(k.m(info, "get_attributes_without_extension"))), n - len(range(0, n, 3)), "get_attributes_without_extension")
        for t in sorted(set(TYPES.values())):
            w = ["k%d" % i for i in range(n) if TYPES[kd(i)] == t]
            k.same(keyset(k, k.m(info, "get_keys_for_type", k.cls(t))), keyset(k, k.lst(*w)), "get_keys_for_type with %d keys" % n)
    for n in SIZES + (257,):
        k.scenario("many/%d" % n, lambda k, n=n: many(k, n))

    # keys that mean something somewhere ----
    def known_keys(k, rot):
        info = k.new("XAttributeInfo")
        al = keyed(k, k.event(), rot)
        for i, a in enumerate(al):
            for _ in range(i % 3 + 1):
                k.m(info, "register", a)
        total = sum(i % 3 + 1 for i in range(len(al)))
        key = lambda a: k.get(a, "get_key")
        k.same(keyset(k, k.m(info, "get_attribute_keys")), keyset(k, k.lst(*[key(a) for a in al])), "get_attribute_keys()")
        for i, a in enumerate(al):
            k.same(k.m(info, "get_frequency", key(a)), i % 3 + 1, "get_frequency of " + key(a))
            k.same(k.m(info, "get_relative_frequency", key(a)), (i % 3 + 1) / total, "get_relative_frequency of " + key(a))
        for cn in [c for c, _ in PREFIXES.values()] + [None]:
            e = k.new(cn) if cn else None
            w = [a for a, (_, c) in zip(al, std_keys()) if c == cn]
            k.same(keyset(k, k.m(info, "get_keys_for_extension", e)), keyset(k, k.lst(*map(key, w))), "get_keys_for_extension of %s" % cn)
        for t in sorted(set(TYPES.values())):
            w = [a for i, a in enumerate(al) if TYPES[LEAF[(i + rot) % len(LEAF)]] == t]
            k.same(keyset(k, k.m(info, "get_keys_for_type", k.cls(t))), keyset(k, k.lst(*map(key, w))), "get_keys_for_type of %s" % t)
    for rot in range(len(LEAF)):
        k.scenario("keys/%d" % rot, lambda k, r=rot: known_keys(k, r))


MIN_SCENARIOS = 70
