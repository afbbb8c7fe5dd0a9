"""XES log header (extensions, globals, classifiers, features), by abstract interpretation of writer and reader composed."""
from .c10 import STD
from .common import ALL, DEPTHS, LEAF, LENGTHS, SIZES, keyed, std_keys
from . import xes
METHOD = ("Abstract interpretation of XesXmlSerializer.serialize followed by XesXmlParser.parse, and of the parser alone on "
          "abstract documents: the extensions, the global trace and event attributes, the classifiers and the features of the "
          "log read are compared, term by term, with those of the log written; the token helper is analysed on its own too.")
RULE = "read(write(log)) declares the same extensions, globals (per scope, in order, nested) and classifiers (name, keys in order)"
ASSUMES = ["classifier keys hold no apostrophes and no whitespace other than blanks, and are not blank",
           "the extensions declared are known to the extension manager"]
A = xes.attr


def exts(k, g):
    return {id(x): x for x in k.items(k.get(g, "get_extensions"))}


def header(k, g):
    return (exts(k, g),
            tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_trace_attributes"))),
            tuple(xes.view(k, a) for a in k.items(k.get(g, "get_global_event_attributes"))),
            tuple((k.get(c, "name"), tuple(k.items(k.get(c, "get_defining_attribute_keys"))))
                  for c in k.items(k.get(g, "get_classifiers"))))


def judge(k, got, want, at=None):
    at = at or k.last
    h = header(k, got)
    show = lambda d: sorted(x.cls.name for x in d.values())
    k.ok(set(h[0]) == set(want[0]), "extensions read: got %s, expected %s" % (show(h[0]), show(want[0])), at)
    for i, what in ((1, "global trace attributes"), (2, "global event attributes"), (3, "classifiers")):
        k.same(len(h[i]), len(want[i]), "number of %s" % what, at)
        for x, y in zip(h[i], want[i]):
            k.same(x, y, what, at)


def trip(k, g, path="/tmp/h.xes", p="XesXmlParser", s="XesXmlSerializer"):
    want, body = header(k, g), xes.lview(k, g)
    k.save(g, path, s)
    got = k.load(path, p)[0]
    at = k.last
    judge(k, got, want, at)
    xes.judge(k, got, body, at)
    return got


def small(k, attrs=True):
    return k.log([k.trace([k.event(A(k, "literal", "e"))], [A(k, "literal", "t")])], [A(k, "literal", "g")] if attrs else [])


def word(k, n):
    return k.word(n, group="token")


def two(k, n):
    return k.plus(k.plus(k.word(n + ".1", group="token"), " "), k.word(n + ".2"))


def run(k):
    # extensions
    def with_ext(k, names):
        g = small(k)
        for n in names:
            k.get(k.get(g, "get_extensions"), "add", k.new(n))
        trip(k, g)
    k.scenario("extensions/none", lambda k: with_ext(k, []))
    for warm in (True, False):
        w = "warm" if warm else "cold"
        for n in STD:
            k.scenario("extensions/%s/%s" % (n, w), lambda k, n=n: with_ext(k, [n]), warm=warm)
        k.scenario("extensions/all/" + w, lambda k: with_ext(k, STD), warm=warm)
    k.scenario("extensions/two", lambda k: with_ext(k, [STD[0], STD[7]]))

    def registered(k):
        u = k.I.call(k.func("opyenxes.extension.std.XConceptExtension", "urlparse"), ["http://x.org/e.xesext"])
        x = k.new("XExtension", k.word("name", excl="oei " + xes.BREAKS), k.word("prefix", excl="oei " + xes.BREAKS), u)
        k.m(k.new("XExtensionManager"), "register", x)
        g = small(k)
        k.get(k.get(g, "get_extensions"), "add", x)
        k.get(k.get(g, "get_extensions"), "add", k.new("XTimeExtension"))
        trip(k, g)
    k.scenario("extensions/registered", registered)

    def declared(k, attrs, want):
        k.I.faults["urlopen"] = True
        doc = k.elem("log", {}, k.elem("extension", attrs), k.elem("extension", {"prefix": "time"}),
                     k.elem("trace", {}, k.elem("event", {}, k.elem("string", {"key": "a", "value": "b"}))))
        k.place("/tmp/d.xes", doc)
        g = k.load("/tmp/d.xes")[0]
        at = k.last
        h = exts(k, g)
        w = [k.new(n) for n in want + ["XTimeExtension"]]
        k.ok(set(h) == {id(x) for x in w}, "extensions read: %s" % sorted(x.cls.name for x in h.values()), at)
        k.same(len(k.items(g)), 1, "traces after the declaration", at)
    U = "http://www.xes-standard.org/"
    k.scenario("declared/prefix", lambda k: declared(k, {"prefix": "concept", "name": "Concept"}, ["XConceptExtension"]))
    k.scenario("declared/uri", lambda k: declared(k, {"uri": k.get(k.get(k.new("XOrganizationalExtension"), "get_uri"), "geturl")},
                                                  ["XOrganizationalExtension"]))
    k.scenario("declared/unknown", lambda k: declared(k, {"prefix": "zzz", "uri": "http://x.org/zzz", "name": "Z"}, []))
    k.scenario("declared/unknown-no-uri", lambda k: declared(k, {"prefix": "zzz"}, []))
    k.scenario("declared/nothing", lambda k: declared(k, {}, []))

    # globals
    def glob(k, scope, attrs, attrs2=()):
        g = small(k)
        for s, al in ((scope, attrs), ("event" if scope == "trace" else "trace", attrs2)):
            for a in al:
                k.get(k.get(g, "get_global_%s_attributes" % s), "append", a)
        return trip(k, g)

    def nested(k, kd, deep):
        a = A(k, kd, "a", "known")
        if kd in ("list", "container"):
            for i, m in enumerate(("literal", "discrete", "literal")):
                k.get(a, "add_to_collection", A(k, m, "m%d" % i))
        else:
            b = A(k, "literal", "n1")
            k.put(a, b)
            if deep:
                k.put(b, A(k, "timestamp", "n2"))
            k.put(a, A(k, "discrete", "n3"))
        return a
    for scope in ("trace", "event"):
        for kd in ALL:
            k.scenario("global/%s/%s" % (scope, kd), lambda k, s=scope, kd=kd: glob(k, s, [A(k, kd, "a", "known")]))
            k.scenario("global/%s/two/%s" % (scope, kd), lambda k, s=scope, kd=kd: glob(
                k, s, [A(k, kd, "a"), A(k, "literal", "b")], [A(k, "discrete", "c")]))
            k.scenario("global/%s/nested/%s" % (scope, kd), lambda k, s=scope, kd=kd: glob(
                k, s, [A(k, "literal", "before"), nested(k, kd, False), A(k, "literal", "after")]))
            k.scenario("global/%s/nested2/%s" % (scope, kd), lambda k, s=scope, kd=kd: glob(
                k, s, [nested(k, kd, True), A(k, "boolean-true", "after")], [A(k, "literal", "other")]))
        k.scenario("global/%s/all" % scope, lambda k, s=scope: glob(k, s, [A(k, kd, "a%d" % i) for i, kd in enumerate(ALL)]))
        k.scenario("global/%s/all-reversed" % scope, lambda k, s=scope: glob(
            k, s, [A(k, kd, "a%d" % i) for i, kd in enumerate(reversed(ALL))], [A(k, kd, "b%d" % i) for i, kd in enumerate(LEAF)]))

    def scopes(k, a, b):
        doc = k.elem("log", {}, k.elem("global", {"scope": a}, k.elem("string", {"key": "x", "value": k.text("x")})),
                     k.elem("global", {"scope": b}, k.elem("int", {"key": "y", "value": "7"})),
                     k.elem("string", {"key": "z", "value": k.text("z")}),
                     k.elem("trace", {}, k.elem("event", {})))
        k.place("/tmp/s.xes", doc)
        g = k.load("/tmp/s.xes")[0]
        at = k.last
        want = {"trace": [], "event": []}
        for s, n in ((a, "x"), (b, "y")):
            want[s.lower()].append(n)
        for s in want:
            k.same(tuple(k.get(x, "get_key") for x in k.items(k.get(g, "get_global_%s_attributes" % s))), tuple(want[s]),
                   "global %s attributes" % s, at)
        k.same(tuple(n for n, _ in k.attrs(g)), ("z",), "attributes of the log", at)
    for a, b in (("trace", "event"), ("event", "trace"), ("Trace", "EVENT"), ("event", "event")):
        k.scenario("scopes/%s-%s" % (a, b), lambda k, a=a, b=b: scopes(k, a, b))

    # classifiers
    def classi(k, specs):
        g = small(k)
        k.get(k.get(g, "get_extensions"), "add", k.new("XConceptExtension"))
        for n, keys in specs:
            k.get(k.get(g, "get_classifiers"), "append", k.new("XEventAttributeClassifier", n, k.lst(*keys)))
        return trip(k, g)
    name = lambda k, i: k.phrase("name%d" % i, excl=xes.BREAKS)
    mk = {"w": word, "b": two, "t": lambda k, n: k.plus(k.plus(two(k, n), " "), k.word(n + ".3")),
          "d": lambda k, n: k.plus(k.plus(word(k, n), "  "), k.word(n + ".2")),
          "l": lambda k, n: k.plus(" ", word(k, n)), "r": lambda k, n: k.plus(word(k, n), " "),
          "f": lambda k, n: k.plus(k.plus(k.plus(two(k, n), " "), k.word(n + ".3")), k.plus(" ", k.word(n + ".4")))}
    odd = ["".join(x) for x in [c for c in ("t", "d", "l", "r", "f")] + [a + b for a in "tdlrf" for b in "wbtdlrf"] +
           [b + a for a in "tdlrf" for b in "wb"] + ["wtw", "bdb", "tft", "lwr"]]
    import itertools
    for n in (1, 2, 3, 4):
        for form in itertools.product("wb", repeat=n):
            k.scenario("classifier/" + "".join(form), lambda k, form=form: classi(
                k, [(name(k, 0), [mk[c](k, "k%d" % i) for i, c in enumerate(form)])]))
    for form in odd:
        k.scenario("classifier/" + form, lambda k, form=form: classi(
            k, [(name(k, 0), [mk[c](k, "k%d" % i) for i, c in enumerate(form)])]))
    k.scenario("classifiers/several", lambda k: classi(k, [
        (name(k, 0), [word(k, "a"), two(k, "b")]), (name(k, 1), [two(k, "c")]), (name(k, 2), [word(k, "d"), word(k, "e"),
                                                                                              word(k, "f")])]))
    # alike: equal classifiers, one name, one key list, one key again; globals of one key; extensions of like names
    for label, specs in (("equal", [("A", ["a"]), ("B", ["b"]), ("A", ["a"])]), ("adjacent", [("A", ["a", "b"])] * 3),
                         ("one-name", [("A", ["a"]), ("A", ["b"]), ("A", ["a", "b"])]),
                         ("one-key-list", [("A", ["a", "b c"]), ("B", ["a", "b c"])]), ("case", [("A", ["a"]), ("a", ["A"])]),
                         ("order", [("A", ["a", "b"]), ("A", ["b", "a"])]), ("key-twice", [("A", ["a", "b", "a"]), ("B", ["c", "c"])]),
                         ("prefix", [("A", ["a"]), ("AA", ["a", "aa"]), ("AAA", ["aa"])])):
        k.scenario("classifiers/alike/" + label, lambda k, s=specs: classi(k, s))

    def alike(k, scope, kinds, values):
        al = [k.attr(kd, "k", v) for kd, v in zip(kinds, values)]
        for a in al[1:2]:
            k.put(a, k.attr("literal", "n", "nested"))
        return glob(k, scope, al + [k.attr("literal", "K", "v")], [k.attr("literal", "k", "v"), k.attr("literal", "k", "v")])
    for scope in ("trace", "event"):
        for label, kinds, values in (("equal", ["literal"] * 3, ["v"] * 3), ("one-key", ["literal"] * 3, ["v", "w", "u"]),
                                     ("kinds", ["literal", "discrete", "continuous"], ["1", 1, 1.0])):
            k.scenario("global/%s/alike/%s" % (scope, label), lambda k, s=scope, a=kinds, b=values: alike(k, s, a, b))

    def like_names(k, prefixes):
        g = small(k)
        for i, p in enumerate(prefixes):
            x = k.new("XExtension", "Procurement" + p, p, k.parsed("http://x.org/ext/%s.xesext" % ("abcdef" * 9 + str(i))))
            k.m(k.new("XExtensionManager"), "register", x)
            k.get(k.get(g, "get_extensions"), "add", x)
            k.get(g, "get_attributes")
            k.put(g, k.attr("literal", p + ":k", "v%d" % i, ext=x))
        trip(k, g)
    for label, ps in (("ends", ["procurement1", "procurement2", "procurement"]), ("case", ["abc", "ABC", "Abc"]), ("starts", ["xa", "ya", "a"])):
        k.scenario("extensions/alike/" + label, lambda k, p=ps: like_names(k, p))

    k.scenario("classifiers/standard-keys", lambda k: classi(k, [
        (name(k, 0), ["concept:name", "lifecycle:transition"]), ("Activity", ["concept:name"]), ("Who", ["org:resource"])]))

    def predefined(k):
        g = small(k)
        cs = [k.new(n) for n in ("XEventNameClassifier", "XEventResourceClassifier", "XEventLifeTransClassifier")]
        cs.append(k.new("XEventAndClassifier", k.lst(cs[0], cs[2])))
        for c in cs:
            k.get(k.get(g, "get_classifiers"), "append", c)
        got = trip(k, g)
        for c, d in zip(cs, k.items(k.get(got, "get_classifiers"))):
            k.ok(k.truth(k.eq(d, k.new("XEventAttributeClassifier", k.get(c, "name"), k.get(c, "get_defining_attribute_keys")))),
                 "classifier read equals the one written")
    k.scenario("classifiers/predefined", predefined)

    def skipped(k):
        e = lambda at: k.elem("classifier", at)
        doc = k.elem("log", {}, e({"name": "A", "keys": "a"}), e({"name": "", "keys": "b"}), e({"name": "C", "keys": ""}),
                     e({"keys": "d"}), e({"name": "E"}), e({"name": "F", "keys": "f  g 'h i'  j"}), k.elem("trace", {}))
        k.place("/tmp/s.xes", doc)
        g = k.load("/tmp/s.xes")[0]
        k.same(header(k, g)[3], (("A", ("a",)), ("F", ("f", "g", "h i", "j"))), "classifiers read", k.last)
        k.same(len(k.items(g)), 1, "traces read")
    k.scenario("classifiers/incomplete", skipped)

    # tokens
    def tokens(k, form):
        ks = [mk[c](k, "k%d" % i) for i, c in enumerate(form)]
        t = k.m("XTokenHelper", "format_token", k.lst(*ks))
        r = k.m("XTokenHelper", "extract_tokens", t)
        k.same(tuple(k.items(r)), tuple(ks), "tokens", k.last)
    for n in (1, 2, 3):
        for form in itertools.product("wb", repeat=n):
            k.scenario("tokens/" + "".join(form), lambda k, form=form: tokens(k, form))
    for form in odd:
        k.scenario("tokens/" + form, lambda k, form=form: tokens(k, form))

    def quoted(k):
        a, b, c = (k.word(x, group="token") for x in "abc")
        q = lambda x: k.plus(k.plus("'", x), "'")
        for s, want in ((k.plus(k.plus(a, " "), b), (a, b)), (k.plus(k.plus(q(a), " "), q(b)), (a, b)),
                        (k.plus(k.plus(k.plus(q(a), " "), b), k.plus("   ", c)), (a, b, c)), (k.plus(" ", k.plus(a, "  ")), (a,)),
                        (q(k.plus(a, k.plus(" ", b))), (k.plus(a, k.plus(" ", b)),)), ("", ())):
            k.same(tuple(k.items(k.m("XTokenHelper", "extract_tokens", s))), want, "tokens of %s" % (s,), k.last)
    k.scenario("tokens/quoted", quoted)

    # features
    def features(k):
        v = k.text("v")
        doc = k.elem("log", {"xes.version": "1.0", "xes.features": v, "openxes.version": k.text("w"), "other": "x", "xmlns": "y"},
                     k.elem("trace", {}))
        k.place("/tmp/s.xes", doc)
        f = k.get(k.load("/tmp/s.xes")[0], "get_features")
        at = k.last
        d = {e[0]: e[1] for e in f.payload}
        k.same(sorted(d), ["openxes.version", "xes.features", "xes.version"], "features read", at)
        k.same(d["xes.features"], v, "feature read", at)
        k.same(d["xes.version"], "1.0", "version read", at)
    k.scenario("features/read", features)

    def written(k):
        g = trip(k, small(k))
        f = k.get(g, "get_features")
        d = {e[0]: e[1] for e in f.payload}
        k.same(d.get("xes.version"), "1.0", "version written")
        k.same(d.get("xes.features"), "nested-attributes", "features written")
        h = trip(k, k.m(g, "clone"), "/tmp/2.xes")
        k.same({e[0]: e[1] for e in k.get(h, "get_features").payload} == d, True, "features of the second copy")
    k.scenario("features/written", written)

    # everything together, one parser and one serializer used twice, the headers of two logs do not mix
    def full(k, i):
        g = small(k)
        for n in STD[i:i + 3]:
            k.get(k.get(g, "get_extensions"), "add", k.new(n))
        k.get(k.get(g, "get_global_trace_attributes"), "append", A(k, "literal", "gt%d" % i))
        k.get(k.get(g, "get_global_event_attributes"), "append", A(k, "discrete", "ge%d" % i))
        k.get(k.get(g, "get_global_event_attributes"), "append", A(k, "list", "gl%d" % i))
        k.get(k.get(g, "get_classifiers"), "append", k.new("XEventAttributeClassifier", name(k, i), k.lst(
            word(k, "k%d" % i), two(k, "l%d" % i))))
        return g

    def both(k):
        p, s = k.new("XesXmlParser"), k.new("XesXmlSerializer")
        g1, g2 = full(k, 0), full(k, 3)
        r1 = trip(k, g1, "/tmp/1.xes", p, s)
        r2 = trip(k, g2, "/tmp/2.xes", p, s)
        judge(k, r1, header(k, g1))
        judge(k, trip(k, r2, "/tmp/3.xes", p, s), header(k, g2))
        trip(k, k.log(), "/tmp/4.xes", p, s)
    k.scenario("two-logs", both)

    # many of everything ----
    def many(k, what, n):
        leaf = lambda i, p="k": k.attr(LEAF[i % len(LEAF)], "%s%d" % (p, i), name="%s.v%d" % (p, i), **(
            {"excl": xes.BREAKS} if LEAF[i % len(LEAF)] == "literal" else {}))
        if what in ("trace", "event"):
            return glob(k, what, [leaf(i) for i in range(n)], [leaf(0, "other")])
        if what in ("list", "depth"):
            top = cur = k.attr("list", "c") if what == "list" else k.attr("literal", "c", "v")
            for i in range(n):
                a = leaf(i)
                if what == "list":
                    k.get(top, "add_to_collection", a)
                else:
                    k.put(cur, a)
                    cur = a
            return glob(k, "event", [top, leaf(0, "after")], [leaf(0, "other")])
        if what == "keys":
            return classi(k, [("one", ["k%d" % i for i in range(n)]), ("two", ["k %d" % i for i in range(n)]),
                              ("three", ["k %d" % i if i % 3 == 0 else "k%d" % i for i in range(n)])])
        if what == "words":
            return classi(k, [("one", [" ".join("k%d" % i for i in range(n)), "next"])])
        if what == "long":
            return classi(k, [("n" * n, ["k" * n + "l", "m" * n + " n" * n])])
        return classi(k, [("c%d" % i, ["k%d" % i, "l %d" % i][:i % 2 + 1]) for i in range(n)])
    for what in ("trace", "event", "list", "keys", "words", "classifiers"):
        for n in (5, 6) + SIZES:
            k.scenario("many/%s/%d" % (what, n), lambda k, w=what, n=n: many(k, w, n))
    for n in DEPTHS:
        k.scenario("many/depth/%d" % n, lambda k, n=n: many(k, "depth", n))
    for n in LENGTHS:
        k.scenario("many/long/%d" % n, lambda k, n=n: many(k, "long", n))

    def known(k, n):
        """many extensions besides the standard ones"""
        g = small(k)
        m, parsed = k.new("XExtensionManager"), k.func("opyenxes.extension.std.XConceptExtension", "urlparse")
        for i in range(n):
            x = k.new("XExtension", "Name %d" % i, "pre%d" % i, k.I.call(parsed, ["http://x.org/e%d.xesext" % i]))
            k.m(m, "register", x)
            k.get(k.get(g, "get_extensions"), "add", x)
        trip(k, g)
    for n in (5, 12, 33):
        k.scenario("many/extensions/%d" % n, lambda k, n=n: known(k, n))

    # keys that mean something somewhere ----
    def known_keys(k, scope, rot, nest):
        x = k.event()
        keyed(k, x, rot, nest=nest)
        return glob(k, scope, [a for _, a in k.attrs(x)], [k.attr("literal", "id", "w")])
    for scope in ("trace", "event"):
        for rot in range(len(LEAF)):
            k.scenario("keys/%s/%d" % (scope, rot), lambda k, s=scope, r=rot: known_keys(k, s, r, r % 2 == 0))
    fine = [x for x, _ in std_keys() if x and "'" not in x]
    k.scenario("keys/classifiers", lambda k: classi(k, [("c%d" % i, [x, fine[i - 1]]) for i, x in enumerate(fine)]))
    k.scenario("keys/names", lambda k: classi(k, [(x, [x]) for x in fine]))


MIN_SCENARIOS = 100
