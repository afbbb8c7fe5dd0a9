"""The extension cache, by abstract interpretation over a modelled disk and network."""
from .common import SIZES
from .c11 import doc as definition, judge
METHOD = ("Abstract interpretation of cache_extension and load_extension_cache over a modelled disk (folders, files, modification "
          "times, both listing orders) and a modelled network (resources delivered whole or in several reads; unreachable ones); "
          "definition documents have symbolic names, prefixes, keys and aliases. What the manager finds afterwards, and what is "
          "left on the disk, is compared with what was cached, when, and what was registered before.")
RULE = ("cached and fresh => found by URI, name, prefix, index with exactly its attributes; older than 30 days => removed, not "
        "loaded; registered already => kept; not .xesext or a folder => untouched; malformed or unreachable => no effect on others")
ASSUMES = ["a URI has the form scheme://host/path", "the system clock does not change during one call"]
HOME = "/home/u"
CACHE = HOME + "/.OpenXES/ExtensionCache"
NOW = 1790000000.0
DAY = 86400.0
SHAPE = [("log", [("string", ["EN", "DE"]), ("int", [])]), ("event", [("date", ["EN"]), ("id", [])]), ("meta", [("float", [])])]


def doc(k, pre, shape, uri):
    return definition(k, pre, shape, uri=uri, group="name", excl="oei")


def run(k):
    def disk(k, dirs=True, reverse=False):
        d = {"/", "/home", HOME}
        if dirs:
            d |= {HOME + "/.OpenXES", CACHE}
        k.I.disk = {"dirs": d, "home": HOME, "now": NOW, "reverse": reverse}
        k.I.faults[("env", "HOME")] = HOME
        k.I.fs.clear()

    def man(k):
        return k.new("XExtensionManager")

    def cache(k, u):
        k.m(man(k), "cache_extension", u)
        return k.last

    def load(k):
        k.m(man(k), "load_extension_cache")
        return k.last

    def old(k, path, days):
        k.I.fs[path].fields["mtime"] = NOW - days * DAY

    def found(k, d, at, n=1):
        m = man(k)
        x = k.m(m, "get_by_uri", k.parsed(d["uri"]))
        k.ok(x is not None, "the cached extension is not found by its URI", at)
        k.last = at
        judge(k, x, d)
        k.same(k.m(m, "get_by_name", d["name"]), x, "the cached extension by its name", at)
        k.same(k.m(m, "get_by_prefix", d["prefix"]), x, "the cached extension by its prefix", at)
        i = k.m(m, "get_index", x)
        k.ok(isinstance(i, int) and i >= 8, "the cached extension has no index of its own", at)
        k.same(k.m(m, "get_by_index", i), x, "the cached extension by its index", at)
        k.isnone(k.m(m, "get_by_index", 8 + n), "an extension nobody cached")
        return x

    def absent(k, d, at):
        m = man(k)
        k.ok(k.m(m, "get_by_uri", k.parsed(d["uri"])) is None, "an extension that was not to be loaded is found by its URI", at)
        k.ok(k.m(m, "get_by_name", d["name"]) is None, "an extension that was not to be loaded is found by its name", at)

    def standard(k):
        m = man(k)
        return [k.m(m, "get_by_index", i) for i in range(8)]

    def files(k):
        return sorted(p for p in k.I.fs if p.startswith(CACHE + "/"))

    def one(k, u, parts, dirs, again):
        disk(k, dirs)
        d = doc(k, "x", SHAPE, uri=u)
        std = standard(k)
        k.place(u, d["doc"], web=True, parts=parts)
        cache(k, k.parsed(u))
        k.same(len(files(k)), 1, "files in the cache", k.last)
        absent(k, d, k.last)
        load(k)
        at = k.last
        x = found(k, d, at)
        k.same(standard(k), std, "the standard extensions", at)
        if again:
            cache(k, k.parsed(u))
            k.same(len(files(k)), 1, "files in the cache after caching the extension again", k.last)
            load(k)
            k.same(found(k, d, k.last), x, "the extension after loading the cache again", k.last)
    for i, u in enumerate(("http://x.org/ext/one.xesext", "http://x.org/ext/one", "http://x.org/ext/one/", "https://x.org/a/b.c",
                           "http://x.org/one.xesext/", "http://x.org/", "http://x.org/a.xesext-v2", "http://x.org/a.xesext.old",
                           "http://x.xesext.org/ext/one", "http://x.org/xesext", "http://x.org/a.xesext/b",
                           "http://x.org/one?file=a.xesext", "http://x.org/.xesext", "http://x.org/a/b/c/d.e/f.xesext")):
        for parts in (1, 3):
            for dirs in (True, False):
                k.scenario("one/%s/%d-reads%s" % (u.split("//")[1], parts, "" if dirs else "/no-folders"),
                           lambda k, u=u, p=parts, d=dirs: one(k, u, p, d, True))

    def several(k, n, reverse, together, form="http://x.org/e%d.xesext"):
        disk(k, reverse=reverse)
        ds = [doc(k, "x%d" % i, SHAPE[i % 3:i % 3 + 1], uri=form % i) for i in range(n)]
        for d in ds:
            k.place(d["uri"], d["doc"], web=True, parts=2)
            cache(k, k.parsed(d["uri"]))
            if not together:
                load(k)
        k.same(len(files(k)), n, "files in the cache", k.last)
        load(k)
        at = k.last
        xs = [found(k, d, at, n) for d in ds]
        for i in range(n):
            for j in range(i):
                k.ok(xs[i] is not xs[j], "two cached extensions are one object", at)
    for n in (2, 3):
        for rev in (False, True):
            for tog in (False, True):
                k.scenario("several/%d%s%s" % (n, "/reverse" if rev else "", "/together" if tog else ""),
                           lambda k, n=n, r=rev, t=tog: several(k, n, r, t))

    for form in ("http://x.org/e%d/", "http://x.org/e%d", "http://x%d.org/", "http://x.org/v1/e%d.xesext/"):
        k.scenario("several/" + form.split("//")[1], lambda k, f=form: several(k, 2, False, True, f))

    def age(k, days, dirs, reverse):
        disk(k, reverse=reverse)
        a, b = doc(k, "a", SHAPE, uri="http://x.org/a.xesext"), doc(k, "b", SHAPE[1:], uri="http://x.org/b.xesext")
        pa, pb = CACHE + "/a.xesext", CACHE + "/b.xesext"
        k.place(pa, a["doc"])
        k.place(pb, b["doc"])
        old(k, pa, days)
        old(k, pb, 0)
        load(k)
        at = k.last
        if days > 30:
            absent(k, a, at)
            k.same(files(k), [pb], "files left in the cache", at)
        else:
            found(k, a, at, 2)
            k.same(files(k), [pa, pb], "files left in the cache", at)
        found(k, b, at, 1 if days > 30 else 2)
        load(k)
        found(k, b, at, 1 if days > 30 else 2)
    for days in (0, 0.5, 1, 5, 15, 25, 29.9, 30.1, 31, 45, 400, 9000):
        for rev in (False, True):
            k.scenario("age/%s-days%s" % (days, "/reverse" if rev else ""), lambda k, d=days, r=rev: age(k, d, True, r))

    def refreshed(k):
        disk(k)
        d = doc(k, "x", SHAPE, uri="http://x.org/a.xesext")
        k.place(d["uri"], d["doc"], web=True)
        k.place(CACHE + "/a.xesext", doc(k, "y", SHAPE, uri="http://x.org/y")["doc"])
        old(k, CACHE + "/a.xesext", 60)
        cache(k, k.parsed(d["uri"]))
        load(k)
        found(k, d, k.last)
    k.scenario("age/cached-again", refreshed)

    def registered(k, std):
        disk(k)
        m = man(k)
        if std:
            d = doc(k, "x", SHAPE, uri="http://www.xes-standard.org/concept.xesext")
            x = k.new("XConceptExtension")
        else:
            d = doc(k, "x", SHAPE, uri="http://x.org/a.xesext")
            x = k.new("XExtension", k.word("name0", group="name", excl="oei"), k.word("p0", group="prefix", excl="oei"),
                      k.parsed(d["uri"]))
            k.m(m, "register", x)
        i = k.m(m, "get_index", x)
        b = doc(k, "b", SHAPE[1:], uri="http://x.org/b.xesext")
        k.place(CACHE + "/a.xesext", d["doc"])
        k.place(CACHE + "/b.xesext", b["doc"])
        load(k)
        at = k.last
        k.same(k.m(m, "get_by_uri", k.parsed(d["uri"])), x, "the extension registered before, by its URI", at)
        k.same(k.m(m, "get_by_index", i), x, "the extension registered before, by its index", at)
        k.same(k.m(m, "get_by_name", k.m(x, "get_name")), x, "the extension registered before, by its name", at)
        k.isnone(k.m(m, "get_by_name", d["name"]), "the cached definition of an extension registered before")
        found(k, b, at, 1 if std else 2)
    for std in (True, False):
        k.scenario("registered/%s" % ("standard" if std else "own"), lambda k, s=std: registered(k, s))

    def others(k, reverse):
        disk(k, reverse=reverse)
        k.I.disk["dirs"] |= {CACHE + "/folder.xesext", CACHE + "/folder"}
        d = doc(k, "x", SHAPE, uri="http://x.org/a.xesext")
        o = doc(k, "o", SHAPE, uri="http://x.org/other")
        for n in ("a.xesext", "A2.XESEXT"):
            k.place(CACHE + "/" + n, d["doc"])
        for n in ("notes.txt", "xesext", "a.xesext.bak", ".hidden"):
            k.place(CACHE + "/" + n, o["doc"])
            old(k, CACHE + "/" + n, 90)
        before = files(k)
        load(k)
        at = k.last
        found(k, d, at)
        absent(k, o, at)
        k.same(files(k), before, "files left in the cache", at)
    for rev in (False, True):
        k.scenario("other-files%s" % ("/reverse" if rev else ""), lambda k, r=rev: others(k, r))

    def malformed(k, what, reverse):
        disk(k, reverse=reverse)
        a, c = doc(k, "a", SHAPE, uri="http://x.org/a.xesext"), doc(k, "c", SHAPE[1:], uri="http://x.org/c.xesext")
        k.place(CACHE + "/a.xesext", a["doc"])
        k.place(CACHE + "/c.xesext", c["doc"])
        if what == "no-attributes":
            k.place(CACHE + "/b.xesext", k.elem("xesextension", {"name": k.phrase("n")}))
        elif what == "no-extension":
            k.place(CACHE + "/b.xesext", k.elem("other", {}))
        elif what == "no-key":
            k.place(CACHE + "/b.xesext", k.elem("xesextension", {"name": "n", "prefix": "p", "uri": "u:v"},
                                                k.elem("log", {}, k.elem("string", {}))))
        elif what == "no-level":
            k.place(CACHE + "/b.xesext", k.elem("xesextension", {"name": "n", "prefix": "p", "uri": "u:v"},
                                                k.elem("string", {"key": "k"})))
        else:
            k.place(CACHE + "/b.xesext", k.elem("log", {}))
        before = files(k)
        load(k)
        at = k.last
        for d in (a, c):
            found(k, d, at, 2)
        k.same(files(k), before, "files left in the cache, among them a malformed one", at)
    for what in ("no-attributes", "no-extension", "no-key", "no-level", "other-root"):
        for rev in (False, True):
            k.scenario("malformed/%s%s" % (what, "/reverse" if rev else ""), lambda k, w=what, r=rev: malformed(k, w, r))

    def unreachable(k, before):
        disk(k, dirs=before)
        d = doc(k, "x", SHAPE, uri="http://x.org/a.xesext")
        k.place(d["uri"], d["doc"], web=True)
        cache(k, k.parsed("http://x.org/gone.xesext"))
        at = k.last
        load(k)
        k.isnone(k.m(man(k), "get_by_index", 8), "extension after an unreachable one was to be cached")
        cache(k, k.parsed(d["uri"]))
        cache(k, k.parsed("http://x.org/gone"))
        load(k)
        found(k, d, at)
        if before:
            k.I.faults["urlopen"] = True
            cache(k, k.parsed(d["uri"]))
            at = k.last
            k.same(CACHE + "/a.xesext" in files(k), True, "the cached definition after caching it again without network", at)
    for b in (True, False):
        k.scenario("unreachable/%s" % ("folders" if b else "no-folders"), lambda k, b=b: unreachable(k, b))

    def empty(k, dirs):
        disk(k, dirs)
        std = standard(k)
        load(k)
        k.same(standard(k), std, "the standard extensions", k.last)
        k.isnone(k.m(man(k), "get_by_index", 8), "an extension from an empty cache")
    for dirs in (True, False):
        k.scenario("empty/%s" % ("folders" if dirs else "no-folders"), lambda k, d=dirs: empty(k, d))


    # definitions that arrive in many reads, caches of many files, extensions with many attributes
    for parts in (2, 4, 5, 8, 9, 16, 17, 33, 100):
        k.scenario("reads/%d" % parts, lambda k, p=parts: one(k, "http://x.org/ext/one.xesext", p, True, False))

    def crowd(k, n, reverse, stale):
        disk(k, reverse=reverse)
        ds = []
        for i in range(n):
            u = "http://x.org/v%d/e%d.xesext" % (i, i)
            d = {"name": "Z%d" % i, "prefix": "z%d" % i, "uri": u, "levels": {x: [] for x in ("log", "trace", "event", "meta")}, "aliases": []}
            d["levels"]["event"] = [("XAttributeLiteral", "z%d:k" % i)]
            d["doc"] = k.elem("xesextension", {"name": d["name"], "prefix": d["prefix"], "uri": u}, k.elem(
                "event", {}, k.elem("string", {"key": "k"})))
            ds.append(d)
            if stale:
                k.place(CACHE + "/e%d.xesext" % i, d["doc"])
                old(k, CACHE + "/e%d.xesext" % i, 60 if i % 3 == 1 else 1)
            else:
                k.place(u, d["doc"], web=True)
                cache(k, k.parsed(u))
        k.same(len(files(k)), n, "files in the cache", k.last)
        load(k)
        at = k.last
        gone = [i for i in range(n) if stale and i % 3 == 1]
        for i, d in enumerate(ds):
            absent(k, d, at) if i in gone else found(k, d, at, n - len(gone))
        k.same(len(files(k)), n - len(gone), "files left in the cache", at)
    for n in SIZES[:4]:
        for rev in (False, True):
            for stale in (False, True):
                k.scenario("many/%d%s%s" % (n, "/reverse" if rev else "", "/stale" if stale else ""),
                           lambda k, n=n, r=rev, s=stale: crowd(k, n, r, s))


MIN_SCENARIOS = 60
