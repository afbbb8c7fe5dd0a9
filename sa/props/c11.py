"""Extension definition files, by abstract interpretation of the extension parser."""
from .common import SIZES

METHOD = ("Abstract interpretation of XExtensionParser.parse over abstract definition documents (symbolic name, prefix, URI, keys "
          "and aliases; every attribute kind at every level; several attributes per level; local file and URL; network up or "
          "down; two documents one after the other); the extension returned is compared with the document.")
RULE = ("name, prefix and URI are those of the document; each level holds exactly the attributes declared there, keyed prefix:key, "
        "of the declared kind; aliases are registered for the attribute they stand under; nothing is left over for the next parse")
KINDS = {"string": "XAttributeLiteral", "date": "XAttributeTimestamp", "int": "XAttributeDiscrete",
         "float": "XAttributeContinuous", "boolean": "XAttributeBoolean", "id": "XAttributeID"}
LEVELS = ("log", "trace", "event", "meta")
GET = {"log": "get_log_attributes", "trace": "get_trace_attributes", "event": "get_event_attributes",
       "meta": "get_meta_attributes"}


def doc(k, pre, levels, up=lambda s: s, uri=None, **own):
    """levels: [(level, [(kind, [alias language])])] -> document and what it says"""
    d = {"name": k.phrase(pre + ".name", **own), "prefix": k.word(pre + ".prefix", excl=": oei", **({"group": "prefix"} if own else {})), "uri": uri or k.word(pre + ".uri"),
         "levels": {x: [] for x in LEVELS}, "aliases": []}
    kids = []
    n = 0
    for lv, items in levels:
        el = []
        for kd, langs in items:
            n += 1
            key = k.word("%s.k%d" % (pre, n), group="key", excl=":")
            full = k.plus(k.plus(d["prefix"], ":"), key)
            al = []
            for i, lang in enumerate(langs):
                nm = k.phrase("%s.alias%d.%d" % (pre, n, i))
                al.append(k.elem(up("alias"), {"mapping": lang, "name": nm}))
                d["aliases"].append((lang, full, nm))
            el.append(k.elem(up(kd), {"key": key}, *al))
            d["levels"][lv].append((KINDS[kd], full))
        kids.append(k.elem(up(lv), {}, *el))
    d["doc"] = k.elem("xesextension", {"name": d["name"], "prefix": d["prefix"], "uri": d["uri"]}, *kids)
    return d


def judge(k, x, d):
    at = k.last
    k.ok(x is not None, "no extension is returned", at)
    k.same(k.m(x, "get_name"), d["name"], "name of the extension", at)
    k.same(k.m(x, "get_prefix"), d["prefix"], "prefix of the extension", at)
    k.same(k.m(k.m(x, "get_uri"), "geturl"), d["uri"], "URI of the extension", at)
    alls = []
    for lv in LEVELS:
        got = sorted([(k.kind_of(a), k.get(a, "get_key")) for a in k.items(k.m(x, GET[lv]))], key=str)
        want = sorted(d["levels"][lv], key=str)
        k.same(got, want, "attributes defined for the %s level" % lv, at)
        for a in k.items(k.m(x, GET[lv])):
            k.same(k.get(a, "get_extension"), x, "extension of a defined attribute", at)
        alls += want
    got = sorted([(k.kind_of(a), k.get(a, "get_key")) for a in k.items(k.m(x, "get_defined_attributes"))], key=str)
    k.same(got, sorted(alls, key=str), "all attributes defined by the extension", at)
    nm = k.new("XGlobalAttributeNameMap")
    for lang, full, name in d["aliases"]:
        mp = k.m(nm, "get_mapping", lang)
        k.same(k.m(mp, "map", full), name, "%s name of a defined attribute" % lang, at)


def run(k):
    def parse(k, d, how):
        p = k.new("XExtensionParser")
        path = "/x/%s.xesext" % how
        if how == "url":
            k.place("http://x.org/e.xesext", d["doc"], web=True)
            return k.m(p, "parse", "http://x.org/e.xesext")
        k.place(path, d["doc"])
        if how == "offline":
            k.I.faults["urlopen"] = True
        return k.m(p, "parse", path)

    def one(k, levels, how, up=lambda s: s):
        if how == "url":
            k.I.faults.update(isfile=False, isdir=False)
        d = doc(k, "e", levels, up)
        judge(k, parse(k, d, how), d)

    for how in ("file", "offline", "url"):
        for lv in LEVELS:
            for kd in KINDS:
                k.scenario("one/%s/%s/%s" % (how, lv, kd), lambda k, lv=lv, kd=kd, how=how: one(
                    k, [(lv, [(kd, ["EN"])])], how), warm=how != "url")
        k.scenario("no-level/%s" % how, lambda k, how=how: one(k, [], how))
        k.scenario("empty-levels/%s" % how, lambda k, how=how: one(k, [(x, []) for x in LEVELS], how))
        k.scenario("all/%s" % how, lambda k, how=how: one(
            k, [(lv, [(kd, ["EN", "DE"] if i % 2 else []) for i, kd in enumerate(KINDS)]) for lv in LEVELS], how))
        k.scenario("all-reversed/%s" % how, lambda k, how=how: one(
            k, [(lv, [(kd, ["FR"] if i % 2 else []) for i, kd in enumerate(sorted(KINDS))]) for lv in reversed(LEVELS)], how))
    k.scenario("upper-case-tags", lambda k: one(
        k, [(lv, [(kd, ["EN"]) for kd in KINDS]) for lv in LEVELS], "file", lambda s: s.capitalize()))
    for a in LEVELS:
        for b in LEVELS:
            if a != b:
                k.scenario("two-levels/%s/%s" % (a, b), lambda k, a=a, b=b: one(
                    k, [(a, [("string", ["EN"]), ("int", [])]), (b, [("date", []), ("string", ["DE"])])], "file"))

    ODD = {"bare": ({},), "attributes": ({"key": "nokey", "mapping": "EN", "name": "noname"},), "text": ({}, "some text"),
           "nested": ({"name": "x"}, None, True)}

    def unknown(k, kind, where, levels):
        d = doc(k, "e", levels)
        o = ODD[kind]

        def odd():
            kids = [k.elem("p", {"key": "inner", "mapping": "DE", "name": "inner"}, text="inner text")] if len(o) > 2 else []
            return k.elem("description", dict(o[0]), *kids, text=o[1] if len(o) > 1 else None)
        root = d["doc"].fields["children"].payload
        if where == "root":
            for i in range(len(root), -1, -1):
                root.insert(i, odd())
        for lv in list(root) if where != "root" else ():
            at = lv.fields["children"].payload
            if where == "level":
                for i in range(len(at), -1, -1):
                    at.insert(i, odd())
            elif where == "attribute":
                for a in at:
                    al = a.fields["children"].payload
                    for i in range(len(al), -1, -1):
                        al.insert(i, odd())
            elif where == "alias":
                for a in at:
                    for x in a.fields["children"].payload:
                        x.fields["children"].payload.append(odd())
        if where == "xml":
            todo = [d["doc"]]
            while todo:
                x = todo.pop()
                k.I.dict_set(x.fields["attrib"], "since", "2.0")
                todo.extend(x.fields["children"].payload)
        judge(k, parse(k, d, "file"), d)
        nm = k.new("XGlobalAttributeNameMap")
        for lang in ("EN", "DE"):
            mp = k.m(nm, "get_mapping", lang)
            for lv in LEVELS:
                for _, full in d["levels"][lv]:
                    if not any(x[0] == lang and x[1] is full for x in d["aliases"]):
                        k.isnone(k.m(mp, "map", full), "%s name of an attribute without one" % lang)
    MANY = [("log", [("string", ["EN"]), ("int", [])]), ("event", [("date", []), ("float", ["DE", "EN"]), ("id", [])]), ("log", [("boolean", ["DE"])])]
    k.scenario("level-twice", lambda k: one(k, MANY, "file"))
    for kind in ODD:
        for where in ("root", "level", "attribute", "alias", "xml"):
            if where != "xml" or kind == "bare":
                k.scenario("unknown-%s/%s" % (kind, where), lambda k, a=(kind, where, MANY): unknown(k, *a))

    def stray(k):
        """An alias that does not stand under an attribute names nothing."""
        d = doc(k, "e", MANY)
        root = d["doc"].fields["children"].payload
        for lv in root:
            lv.fields["children"].payload.append(k.elem("alias", {"mapping": "FR", "name": "stray"}))
        root.append(k.elem("alias", {"mapping": "FR", "name": "stray"}))
        judge(k, parse(k, d, "file"), d)
        mp = k.m(k.new("XGlobalAttributeNameMap"), "get_mapping", "FR")
        for lv in LEVELS:
            for _, full in d["levels"][lv]:
                k.ok(mp is None or k.m(mp, "map", full) is None, "an alias outside attributes is registered for one")
    k.scenario("stray-alias", stray)

    def two(k):
        d1 = doc(k, "e1", [("log", [("string", ["EN"])]), ("event", [("int", [])])])
        d2 = doc(k, "e2", [("trace", [("float", ["DE"])]), ("meta", [("id", [])])])
        x1 = parse(k, d1, "a")
        x2 = parse(k, d2, "b")
        k.ok(x1 is not x2, "the second parse returns the first extension")
        judge(k, x1, d1)
        judge(k, x2, d2)
    k.scenario("two-documents", two)

    def default_factory(k):
        d = doc(k, "e", [("log", [("string", [])])])
        x = parse(k, d, "file")
        judge(k, x, d)
        m = k.new("XExtensionManager")
        k.m(m, "register", x)
        k.same(k.m(m, "get_by_uri", k.m(x, "get_uri")), x, "the parsed extension, registered, found by URI")
    k.scenario("register", default_factory)


    def large(k, n, langs, levels, many="many"):
        """n attributes of every kind per level, with many aliases, all names given by the document."""
        d = {"name": many.upper(), "prefix": many, "uri": "http://x.org/%s.xesext" % many, "levels": {x: [] for x in LEVELS}, "aliases": []}
        kids, ks = [], sorted(KINDS)
        for j, lv in enumerate(levels):
            el = []
            for i in range(n):
                kd, full = ks[(i + j) % len(ks)], "%s:k%d_%d" % (many, j, i)
                al = [("L%d" % x, full, "%s in L%d" % (full, x)) for x in range(langs)]
                d["aliases"] += al
                d["levels"][lv].append((KINDS[kd], full))
                el.append(k.elem(kd, {"key": full[len(many) + 1:]}, *[k.elem("alias", {"mapping": a, "name": c}) for a, _, c in al]))
            kids.append(k.elem(lv, {}, *el))
        d["doc"] = k.elem("xesextension", {"name": d["name"], "prefix": d["prefix"], "uri": d["uri"]}, *kids)
        return d

    def many(k, n, langs, levels):
        d = large(k, n, langs, levels)
        judge(k, parse(k, d, "file"), d)
    for n in SIZES:
        if n < 100:
            k.scenario("many-attributes/%d" % n, lambda k, n=n: many(k, n, 1, LEVELS))
        k.scenario("many-aliases/%d" % n, lambda k, n=n: many(k, 2, n, LEVELS[1:3]))

    def series(k, n):
        """Many documents read by one parser and by several, none leaving anything behind."""
        p = k.new("XExtensionParser")
        xs = []
        for i in range(n):
            d = large(k, i % 3, i % 2, LEVELS[:i % 5], "m%d" % i)
            k.place("/x/s%d.xesext" % i, d["doc"])
            xs.append((k.m(p if i % 3 else k.new("XExtensionParser"), "parse", "/x/s%d.xesext" % i), d))
            judge(k, *xs[-1])
        for x, d in xs:
            judge(k, x, d)
    for n in (9, 17, 40):
        k.scenario("many-documents/%d" % n, lambda k, n=n: series(k, n))

    def given(k, name, prefix, uri, levels):
        """A document of known texts: levels = [(level, [(kind, key, [(language, alias)])])]."""
        d = {"name": name, "prefix": prefix, "uri": uri, "levels": {x: [] for x in LEVELS}, "aliases": []}
        kids = []
        for lv, items in levels:
            el = []
            for kd, key, al in items:
                full = prefix + ":" + key
                d["aliases"] += [(a, full, c) for a, c in al]
                d["levels"][lv].append((KINDS[kd], full))
                el.append(k.elem(kd, {"key": key}, *[k.elem("alias", {"mapping": a, "name": c}) for a, c in al]))
            kids.append(k.elem(lv, {}, *el))
        d["doc"] = k.elem("xesextension", {"name": name, "prefix": prefix, "uri": uri}, *kids)
        return d

    KEYS = ("a:b", "odd:a", "odd:", ":", "UPPER", "two words", "\u00e9t\u00e9", "key", "Key", "k.e-y_1", "1", "string", "log", "\u6f22")

    def oddly(k, r, prefix, uri):
        """Keys, prefixes, URIs, languages and aliases of every form."""
        ks = sorted(KINDS)
        d = given(k, "\u00dcber die %s" % prefix, prefix, uri, [(lv, [
            (ks[(i + j + r) % len(ks)], x, [("EN", "name %d" % i), ("en", "small %d" % i), ("De", " %d " % i), ("x y", "\u00e9 %d" % i)])
            for i, x in enumerate(KEYS) if (i + j) % 3]) for j, lv in enumerate(LEVELS[:2])])
        judge(k, parse(k, d, "file"), d)
    for r, (prefix, uri) in enumerate((("odd", "http://x.org/Odd/"), ("ODD", "http://X.org/odd.xesext?a=B#Frag"), ("o.d-d", "urn:x:Odd"), ("\u00f6dd", "http://x.org/a//b/"),
                        ("concept", "http://other.org/concept.xesext"), ("log", "HTTP://x.org/"), ("o:d", "relative/path"))):
        k.scenario("odd-texts/%s" % prefix, lambda k, a=(r, prefix, uri): oddly(k, *a))

    def again(k, same_uri):
        """A definition read, then an edition of it with other aliases and attributes, and the first once more."""
        nm = k.new("XGlobalAttributeNameMap")
        k.m(nm, "register_mapping", "EN", "re:a", "by hand")
        one = given(k, "One", "re", "http://x.org/re", [("log", [("string", "a", [("EN", "first"), ("DE", "erst")]), ("int", "b", [("EN", "b1")])])])
        two = given(k, "Two", "re", "http://x.org/re" if same_uri else "http://y.org/re",
                    [("event", [("int", "a", [("EN", "second")]), ("date", "c", [("EN", "c2")])])])
        for d in (one, two, one):
            judge(k, parse(k, d, "file"), d)
        mp = k.m(nm, "get_mapping", "EN")
        k.same(k.m(mp, "map", "re:c"), "c2", "alias declared only by the other edition")
        k.same(k.m(k.m(nm, "get_mapping", "DE"), "map", "re:a"), "erst", "alias in another language")
    for same in (True, False):
        k.scenario("editions/%s-uri" % ("same" if same else "other"), lambda k, s=same: again(k, s))

    def deep(k, n):
        d = doc(k, "e", [("log", [("string", ["EN"])]), ("event", [("int", [])])])
        x = k.elem("description", {"key": "z"}, text="t")
        for _ in range(n):
            x = k.elem("description", {"key": "z"}, x)
        for lv in d["doc"].fields["children"].payload:
            lv.fields["children"].payload.insert(0, x)
        d["doc"].fields["children"].payload.insert(0, x)
        judge(k, parse(k, d, "file"), d)
    for n in (6, 17, 40):
        k.scenario("deep-unknown/%d" % n, lambda k, n=n: deep(k, n))


MIN_SCENARIOS = 80
