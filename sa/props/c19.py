"""Event class identity of classifiers, by abstract interpretation of get_class_identity."""
import itertools

from .common import ALL, LEAF, LENGTHS, SIZES, keyed, nested, std_keys

METHOD = ("Abstract interpretation of get_class_identity for every subset of present keys and every attribute kind; the "
          "resulting text term must be the '&&'-join of the attribute texts in key order.")
RULE = "get_class_identity(e) == '&&'.join(str(attribute or '') in key order); same_event_class <=> identities equal"



def joined(k, texts):
    from ..terms import mk_str, pieces
    out = []
    for i, t in enumerate(texts):
        if i:
            out.append("&&")
        out.extend(pieces(t))
    return mk_str(out)


def run(k):
    def subset(k, n, present, kd):
        keys = [k.key("k%d" % i) for i in range(n)]
        attrs = {i: nested(k, kd, "a%d" % i, depth=0) for i in present}
        e = k.event(k.attr("literal", k.key("other"), name="other"))
        mp = k.get(e, "get_attributes")
        for i in sorted(attrs, reverse=True):
            a = k.attr(kd, keys[i], name="v%d" % i)
            if kd in ("list", "container"):
                k.get(a, "add_to_collection", k.attr("literal", k.key("c%d" % i), name="cv%d" % i))
            attrs[i] = k.put(e, a)
        c = k.new("XEventAttributeClassifier", k.text("name"), k.lst(*keys))
        got = k.m(c, "get_class_identity", e)
        at = k.last
        want = joined(k, [k.str(attrs[i]) if i in attrs else "" for i in range(n)])
        k.same(got, want, "identity under %d keys of which %s are present" % (n, list(present)), at)
        k.same(k.m(c, "get_class_identity", e), want, "identity asked a second time", at)
        k.same(tuple(k.items(k.m(c, "get_defining_attribute_keys"))), tuple(keys), "defining keys")
    top = 4 if not k.thorough else 5
    for n in range(1, top + 1):
        for r in range(n + 1):
            for present in itertools.combinations(range(n), r):
                k.scenario("identity/%d/%s" % (n, "".join(map(str, present)) or "none"),
                           lambda k, n=n, p=present: subset(k, n, p, "literal"))
    for kd in ALL:
        for n in (1, 2, 3):
            k.scenario("identity/%s/%d" % (kd, n), lambda k, kd=kd, n=n: subset(k, n, range(n), kd))

    def same(k, n):
        keys = [k.key("k%d" % i) for i in range(n)]
        c = k.new("XEventAttributeClassifier", k.text("name"), k.lst(*keys))
        vals = [k.text("v%d" % i) for i in range(n)]
        mk = lambda rev: k.event(*[k.attr("literal", keys[i], vals[i])
                                   for i in (reversed(range(n)) if rev else range(n))])
        a, b = mk(False), mk(True)
        k.put(b, k.attr("literal", k.key("extra"), name="extra"))
        k.same(k.truth(k.m(c, "same_event_class", a, b)), True, "events agreeing on every key are in different classes")
        k.same(k.m(c, "get_class_identity", a), k.m(c, "get_class_identity", b), "identities of agreeing events")
        for i in range(n):
            d = mk(False)
            x, y = k.word("x", group="d%d" % i, excl=" \t\n\r'\"&"), k.word("y", group="d%d" % i, excl=" \t\n\r'\"&")
            f = mk(False)
            k.m(k.attr_of(d, keys[i]), "set_value", x)
            k.m(k.attr_of(f, keys[i]), "set_value", y)
            k.same(k.truth(k.m(c, "same_event_class", d, f)), False,
                   "events that differ in the value of key %d are in one class" % i)
    for n in (1, 2, 3, 4):
        k.scenario("same-class/%d" % n, lambda k, n=n: same(k, n))

    # the identity is that of the event as it is now
    def again(k, n, how, conj):
        keys = ["k%d" % i for i in range(n)]
        e, f = (k.event(*[k.attr("literal", x, "value of " + x) for x in keys]) for _ in "ef")
        if conj:
            c = k.new("XEventAndClassifier", k.lst(*[k.new("XEventAttributeClassifier", x, k.lst(x)) for x in keys]))
        else:
            c = k.new("XEventAttributeClassifier", "c", k.lst(*keys))
        text = lambda o: joined(k, [k.str(k.attr_of(o, x)) if k.attr_of(o, x) is not None else "" for x in keys])
        k.m(c, "same_event_class", e, f)
        for i, x in enumerate(keys):
            k.same(k.m(c, "get_class_identity", e), text(e), "identity before a change")
            mp = k.get(e, "get_attributes")
            if how == "value":
                k.m(k.attr_of(e, x), "set_value", "new%d" % i)
            elif how == "replaced":
                k.put(e, k.attr("discrete", x, 7 + i))
            elif how == "removed":
                k.m(mp, "pop", x)
            else:
                k.m(e, "set_attributes", k.amap(*[k.attr("literal", y, "other" + y) for y in keys[:i]]))
            k.same(k.m(c, "get_class_identity", e), text(e), "identity after a change (%s)" % how)
            k.same(k.m(c, "get_class_identity", f), text(f), "identity of the other event after a change (%s)" % how)
            k.same(k.truth(k.m(c, "same_event_class", e, f)), False, "events that differ since a change (%s) are in one class" % how)
        k.m(f, "set_attributes", k.m(k.get(e, "get_attributes"), "clone"))
        k.same(k.truth(k.m(c, "same_event_class", e, f)), True, "events with the same attributes are in different classes")
        g = k.m(e, "clone")
        k.m(g, "set_id", k.m(e, "get_id"))
        for x in keys[:1]:
            k.put(g, k.attr("literal", x, "of the copy"))
        k.same(k.m(c, "get_class_identity", g), text(g), "identity of an event with the identifier of another one")
        k.same(k.m(c, "get_class_identity", e), text(e), "identity of the other one")
    for n in (1, 2, 3):
        for how in ("value", "replaced", "removed", "attributes"):
            for conj in (False, True):
                k.scenario("again/%d/%s%s" % (n, how, "/conjunction" if conj else ""),
                           lambda k, n=n, h=how, c=conj: again(k, n, h, c))

    def predefined(k, cn, keys):
        c = k.new(cn)
        k.same(tuple(k.items(k.m(c, "get_defining_attribute_keys"))), tuple(keys), "defining keys of %s" % cn)
        e = k.event(*[k.attr("literal", key, name="v%d" % i) for i, key in enumerate(keys)])
        k.same(k.m(c, "get_class_identity", e), joined(k, [k.str(k.attr_of(e, x)) for x in keys]), "identity under %s" % cn)
        k.same(k.m(c, "get_class_identity", k.event()), "", "identity of an event without the attribute under %s" % cn)
    def known_keys(k, rot):
        """classifiers over keys that mean something somewhere"""
        e = k.event()
        al = keyed(k, e, rot)
        ks = [x for x, _ in std_keys()]
        text = {x: k.str(a) for x, a in zip(ks, al)}
        for i, x in enumerate(ks):
            for keys in ([x], [x, ks[i - 1]], [ks[i - 2], "absent", x]):
                c = k.new("XEventAttributeClassifier", "n", k.lst(*keys))
                k.same(k.m(c, "get_class_identity", e), joined(k, [text.get(y, "") for y in keys]), "identity under %s" % keys)
                k.same(tuple(k.items(k.m(c, "get_defining_attribute_keys"))), tuple(keys), "defining keys")
        c = k.new("XEventAttributeClassifier", "n", k.lst(*ks))
        k.same(k.m(c, "get_class_identity", e), joined(k, [text[y] for y in ks]), "identity under all keys")
        for x in ks:
            f = k.new("XEventAttributeClassifier", "n", k.lst(x))
            k.same(k.truth(k.m(f, "same_event_class", e, k.event(k.attr("literal", x, "something else")))), False,
                   "events that differ in %s are in one class" % x)
    for rot in range(len(LEAF)):
        k.scenario("keys/%d" % rot, lambda k, r=rot: known_keys(k, r))
    for cn, keys in (("XEventNameClassifier", ["concept:name"]), ("XEventResourceClassifier", ["org:resource"]),
                     ("XEventLifeTransClassifier", ["lifecycle:transition"])):
        k.scenario("predefined/%s" % cn, lambda k, cn=cn, keys=keys: predefined(k, cn, keys))

    def conj(k, parts, rev):
        ids = sorted({i for p in parts for i in p})
        keyof = {i: k.key("k%d" % i) for i in ids}
        valof = {i: k.word("v%d" % i, excl=" \t\n\r'\"&") for i in ids}
        ks = [[keyof[i] for i in p] for p in parts]
        names = [k.word("n%d" % i) for i in range(len(parts))]
        cs = [k.new("XEventAttributeClassifier", nm, k.lst(*x)) for nm, x in zip(names, ks)]
        if rev:
            cs, names = cs[::-1], names[::-1]
        c = k.new("XEventAndClassifier", k.lst(*cs))
        want = [keyof[i] for i in ids]
        got = k.items(k.m(c, "get_defining_attribute_keys"))
        k.same(len(got), len(ids), "number of defining keys of a conjunction")
        k.same(tuple(sorted(got, key=str)), tuple(sorted(want, key=str)), "defining keys of a conjunction")
        mk = lambda: k.event(*[k.attr("literal", keyof[i], valof[i]) for i in ids])
        e = mk()
        k.same(k.m(c, "get_class_identity", e), joined(k, [k.str(k.attr_of(e, y)) for y in got]),
               "identity under a conjunction")
        from ..terms import mk_str
        nm = ["("]
        for i, x in enumerate(names):
            nm += ([" AND "] if i else []) + [x]
        k.same(k.m(c, "name"), mk_str(nm + [")"]), "name of a conjunction")
        for i in ids:
            f = mk()
            k.m(k.attr_of(f, keyof[i]), "set_value", k.word("other", excl=" \t\n\r'\"&", group="w"))
            g = mk()
            k.m(k.attr_of(g, keyof[i]), "set_value", k.word("another", excl=" \t\n\r'\"&", group="w"))
            k.same(k.truth(k.m(c, "same_event_class", f, g)), False,
                   "a conjunction does not tell apart events a member tells apart")
        k.same(k.truth(k.m(c, "same_event_class", e, mk())), True, "a conjunction tells apart agreeing events")
    for parts in (((0,), (1,)), ((1,), (0,)), ((0, 1), (1, 2)), ((0,), (0,)), ((2, 0), (1,), (0,)), ((0, 1, 2),)):
        for rev in (False, True):
            k.scenario("conjunction/%s%s" % ("+".join("".join(map(str, p)) for p in parts), "/rev" if rev else ""),
                       lambda k, p=parts, r=rev: conj(k, p, r))

    def empty(k):
        r, e = k.raises(lambda: k.new("XEventAndClassifier", k.lst()))
        k.ok(r and e.value.cls.name == "ValueError", "an empty conjunction is accepted")
    k.scenario("conjunction/empty", empty)

    def rename(k):
        key = k.key("k")
        n1, n2 = k.text("n1"), k.text("n2")
        c = k.new("XEventAttributeClassifier", n1, k.lst(key))
        k.same(k.m(c, "name"), n1, "name of a classifier")
        k.m(c, "set_name", n2)
        k.same(k.m(c, "name"), n2, "name after set_name")
        k.same(k.str(c), n2, "text of a classifier")
        e = k.event(k.attr("literal", key, name="v"))
        k.same(k.m(c, "get_class_identity", e), k.str(k.attr_of(e, key)), "identity after set_name")
    k.scenario("rename", rename)

    def many(k, n, missing):
        keys = ["k%d" % i for i in range(n)]
        e = k.event(*[k.attr("literal", x, name="v" + x) for i, x in enumerate(keys) if not missing(i)])
        c = k.new("XEventAttributeClassifier", "c", k.lst(*keys))
        k.same(k.m(c, "get_class_identity", e),
               joined(k, ["" if missing(i) else k.str(k.attr_of(e, x)) for i, x in enumerate(keys)]), "identity under %d keys" % n)
        k.same(tuple(k.items(k.m(c, "get_defining_attribute_keys"))), tuple(keys), "defining keys")
        a = k.new("XEventAndClassifier", k.lst(*[k.new("XEventAttributeClassifier", "c" + x, k.lst(x)) for x in keys]))
        got = k.items(k.m(a, "get_defining_attribute_keys"))
        k.same(tuple(sorted(got)), tuple(sorted(keys)), "defining keys of a conjunction of %d" % n)
        k.same(k.m(a, "get_class_identity", e), joined(k, ["" if k.attr_of(e, x) is None else k.str(k.attr_of(e, x)) for x in got]),
               "identity under a conjunction of %d" % n)
    for n in (5, 6, 7, 8) + SIZES:
        for nm, f in (("all", lambda i: False), ("every-second", lambda i: i % 2 == 1), ("none", lambda i: True),
                      ("last", lambda i, n=n: i == n - 1)):
            k.scenario("many/%d/%s" % (n, nm), lambda k, n=n, f=f: many(k, n, f))

    def long(k, n, keys):
        mk = lambda last: k.event(k.attr("literal", "a", "x" * n + last), k.attr("literal", "b", "y" * n), k.attr("literal", "c", "z" * n))
        c = k.new("XEventAttributeClassifier", "c", k.lst(*keys))
        e, f = mk("1"), mk("2")
        text = lambda e: "&&".join(k.I.norm(k.str(k.attr_of(e, x))) for x in keys)
        for o in (e, f):
            k.same(k.m(c, "get_class_identity", o), text(o), "identity of an event with values of %d characters" % n)
        k.same(k.truth(k.m(c, "same_event_class", e, f)), False, "events that differ in the last of %d characters are in one class" % n)
    for n in LENGTHS:
        for keys in ("a", "ab", "bac"):
            k.scenario("long/%d/%s" % (n, keys), lambda k, n=n, keys=keys: long(k, n, keys))


MIN_SCENARIOS = 70
