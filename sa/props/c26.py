"""Identifiers, by abstract interpretation of XID, XIDFactory, XAttributeID and XEvent."""
METHOD = ("Abstract interpretation of the identifier operations over symbolic UUIDs and symbolic spellings of them; freshness is "
          "tracked as the provenance of each identifier (one uuid4 call each), not sampled.")
RULE = ("parse(str(id)) is the same UUID for every id and every spelling; ids created by any of the operations come from "
        "different uuid4 calls; id attributes, clones and events keep the UUID they were given")


def run(k):
    def uid(k, x):
        k.ok(k.isinst(x, "XID"), "not an XID")
        return k.m(x, "get_uuid")

    def text(k, how):
        u = k.uuid("u")
        x = k.new("XID", u)
        if how == "attr":
            t = k.str(k.attr("id", "key", x))
        else:
            t = k.str(x)
        at = k.last
        if how == "lower":
            t = k.I.call(k.I.getattr(t, "lower"), [])
        y = k.static("XID", "parse", t)
        k.ok(y is not x, "parse returns the object it never saw", at)
        k.same(uid(k, y), u, "UUID after writing and parsing the text", at)
        k.ok(k.truth(k.eq(x, y)) and not k.truth(k.ne(x, y)), "the parsed identifier differs from the one written", at)
        k.same(k.hash(x), k.hash(y), "hash of the parsed identifier", at)
        k.same(k.m(x, "compare_to", y), 0, "comparison with the parsed identifier", at)
        k.same(k.str(y), k.str(x), "text of the parsed identifier", at)
    for how in ("id", "attr", "lower"):
        k.scenario("text/" + how, lambda k, how=how: text(k, how))

    def kept(k):
        u, v = k.uuid("u", group="u"), k.uuid("v", group="u")
        x = k.new("XID", u)
        k.same(uid(k, x), u, "UUID the identifier was made with")
        c = k.m(x, "clone")
        k.ok(c is not x, "clone of an identifier is the identifier itself")
        k.same(uid(k, c), u, "UUID of the clone")
        k.m(x, "set_uuid", v)
        k.same(uid(k, x), v, "UUID after set_uuid")
        k.same(uid(k, c), u, "UUID of the clone after set_uuid on the original")
        k.ok(k.truth(k.ne(x, c)) and not k.truth(k.eq(x, c)), "identifiers with different UUIDs are equal")
        k.ok(k.truth(k.ne(k.m(x, "compare_to", c), 0)), "identifiers with different UUIDs compare as equal")
    k.scenario("kept", kept)

    def fresh(k, names, warm):
        made = []
        for n in names:
            if n == "XID":
                x = k.new("XID")
            elif n == "factory":
                x = k.m(k.new("XIDFactory"), "create_id")
            elif n == "static":
                x = k.static("XIDFactory", "create_id")
            elif n == "event":
                x = k.m(k.new("XEvent"), "get_id")
            elif n == "event-map":
                x = k.m(k.event(k.attr("literal", k.key("a"))), "get_id")
            elif n == "create_event":
                x = k.m(k.m(k.new("XFactoryRegistry"), "current_default"), "create_event")
                x = k.m(x, "get_id")
            elif n == "event-clone":
                e = k.event(k.attr("literal", k.key("a")), id=k.xid("given"))
                x = k.m(k.m(e, "clone"), "get_id")
                k.same(uid(k, k.m(e, "get_id")), k.I.norm(k.get(k.m(e, "get_id"), "get_uuid")), "id of the event cloned")
            elif n == "log-clone":
                e = k.event(k.attr("literal", k.key("a")))
                f = k.event(k.attr("literal", k.key("b")))
                g = k.m(k.log([k.trace([e, f])]), "clone")
                es = k.items(k.items(g)[0])
                made += [(n, uid(k, k.m(y, "get_id"))) for y in (e, f, es[0])]
                x = k.m(es[1], "get_id")
            elif n == "prototype":
                x = k.m(k.static("XAttributeUtils", "derive_prototype", k.attr("id", "key", k.xid("given"))), "get_value")
            made.append((n, uid(k, x)))
        for i, (n, a) in enumerate(made):
            for m, b in made[:i]:
                k.ok(not k.truth(k.eq(a, b)), "two identifiers (%s, %s) come from one UUID" % (m, n))
    ways = ["XID", "factory", "static", "event", "event-map", "create_event", "event-clone", "log-clone", "prototype"]
    for i, a in enumerate(ways):
        for b in ways[i:]:
            for warm in (True, False):
                k.scenario("fresh/%s/%s/%s" % (a, b, "warm" if warm else "cold"), lambda k, a=a, b=b: fresh(
                    k, [a, b], warm), warm=warm)
    k.scenario("fresh/all", lambda k: fresh(k, ways + ways, True))

    def given(k):
        x, y = k.xid("u"), k.xid("w")
        e = k.event(k.attr("literal", k.key("a")), id=x)
        k.same(k.m(e, "get_id"), x, "id the event was made with")
        e0 = k.new("XEvent", None, x)
        k.same(k.m(e0, "get_id"), x, "id an event without attributes was made with")
        k.m(e, "set_id", y)
        k.same(k.m(e, "get_id"), y, "id after set_id")
        k.same(k.m(e0, "get_id"), x, "id of the other event")
        a = k.attr("id", "key", x)
        k.same(k.m(a, "get_value"), x, "value of an id attribute")
        k.m(a, "set_value", y)
        k.same(uid(k, k.m(a, "get_value")), uid(k, y), "value of an id attribute after set_value")
    k.scenario("given", given)

    def bad(k):
        r, e = k.raises(lambda: k.static("XID", "parse", "no uuid at all"))
        k.ok(r, "text that is no UUID is accepted as an identifier")
    k.scenario("invalid", bad)

    # identifiers known in full, in every spelling that is accepted ----
    KNOWN = {"nil": "0" * 32, "max": "f" * 32, "one": "0" * 31 + "1", "v1": "c232ab00941411ecb3c89f6bdeced846",
             "v4": "16fd2706800d4aef8b3a0123456789ab", "v5": "886313e13b8a53729b900c9aee199e5d", "digits": "1234567812345678" * 2,
             "low-half": "0" * 16 + "8" + "0" * 15}
    SPELT = {"plain": lambda t: t, "upper": str.upper, "hex": lambda t: t.replace("-", ""), "braces": lambda t: "{" + t + "}",
             "urn": lambda t: "urn:uuid:" + t, "mixed": lambda t: t[:9].upper() + t[9:]}

    def known(k, h, spell):
        t = "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
        x = k.static("XID", "parse", SPELT[spell](t))
        at = k.last
        u = k.I.call(k.I.getattr(uid(k, x), "__str__"), [])
        k.same(u, t, "UUID of an identifier parsed", at)
        k.same(k.str(x), t.upper(), "text of an identifier parsed", at)
        for what, y in (("text parsed again", k.static("XID", "parse", k.str(x))), ("clone", k.m(x, "clone")),
                        ("identifier made with the UUID", k.new("XID", uid(k, x)))):
            k.same(k.str(y), t.upper(), "text of the " + what, at)
            k.ok(k.truth(k.eq(x, y)), "an identifier differs from its " + what, at)
            k.same(k.hash(y), k.hash(x), "hash of the " + what, at)
        e = k.event(k.attr("id", "key", x), id=x)
        k.same(k.m(e, "get_id"), x, "id the event was made with", at)
        f = k.new("XEvent", None, x)
        k.same(k.m(f, "get_id"), x, "id an event without attributes was made with", at)
        c = k.m(e, "clone")
        k.same(k.str(k.get(k.attr_of(c, "key"), "get_value")), t.upper(), "value of a cloned id attribute", at)
        k.same(k.str(k.attr_of(c, "key")), t.upper(), "text of a cloned id attribute", at)
        y = k.new("XID")
        k.ok(not k.truth(k.eq(x, y)), "a fresh identifier equals a known one", at)
        k.m(y, "set_uuid", uid(k, x))
        k.same(k.str(y), t.upper(), "text after set_uuid", at)
    for h in KNOWN:
        for sp in SPELT:
            k.scenario("known/%s/%s" % (h, sp), lambda k, h=KNOWN[h], s=sp: known(k, h, s))

    def lots(k, n, way):
        made = {}
        for i in range(n):
            x = {"XID": lambda: k.new("XID"), "factory": lambda: k.m(k.new("XIDFactory"), "create_id"),
                 "event": lambda: k.m(k.new("XEvent"), "get_id")}[way if way != "mixed" else ("XID", "factory", "event")[i % 3]]()
            u = uid(k, x)
            k.ok(id(u) not in made, "identifier %d and %d of %d come from one UUID" % (made.get(id(u), 0), i, n))
            made[id(u)] = i
            made[-i - 1] = u    # keeps it alive
    for way in ("XID", "factory", "event", "mixed"):
        for n in (10, 40, 300):
            k.scenario("many/%s/%d" % (way, n), lambda k, w=way, n=n: lots(k, n, w))


MIN_SCENARIOS = 50
