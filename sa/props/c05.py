"""Choice of the format by file name, by abstract interpretation of can_parse, the registries and the universal parser."""
from . import c03, xes
METHOD = ("Abstract interpretation of can_parse of every standard parser and of the universal parser on symbolic file names with every "
          "suffix in several cases, of the suffixes the serializers announce, and of the universal parser with client parsers that "
          "accept, refuse, succeed and fail in every order.")
RULE = ("can_parse(stem + suffix) == suffix belongs to the parser's format, in any case; the universal parser returns the result of the "
        "first registered parser that accepts the name and succeeds, and raises when there is none")

OWN = {"XesXmlParser": (".xes",), "XesXmlGZIPParser": (".xes.gz", ".xez"), "XMxmlParser": (".mxml", ".xml"),
       "XMxmlGZIPParser": (".mxml.gz",)}
OTHER = (".txt", ".csv", ".gz", ".zip", ".xes.bak", ".xes2", ".mxml.zip", ".xesgz", "", ".xe", ".mxm", ".xes.gz.old")
STEMS = ("log", "/data/my.log", "a", "run.xes/part", "x.mxml.d/y", "gz", "my log 2020-01-01", ".hidden")

CLIENT = """
class P:
    def __init__(self, name, accepts, fails, result=None):
        self.result = result
        self.name = name
        self.accepts = accepts
        self.fails = fails
        self.calls = 0
        self.asked = []

    def can_parse(self, file):
        self.asked.append(file)
        return self.accepts

    def parse(self, file):
        self.calls += 1
        if self.fails:
            raise ValueError("broken")
        return [self.name] if self.result is None else self.result
"""


def cases(s):
    return sorted({s, s.upper(), s.capitalize(), "".join(c.upper() if i % 2 else c for i, c in enumerate(s))})


def run(k):
    def one(k, stem, suffix, want):
        for cn in OWN:
            r = k.m(k.new(cn), "can_parse", k.plus(stem, suffix) if not isinstance(stem, str) else stem + suffix)
            at = k.last
            k.same(k.truth(r), cn in want, "%s.can_parse of a name that ends in %r" % (cn, suffix), at)
        u = k.m("XUniversalParser", "can_parse", k.plus(stem, suffix) if not isinstance(stem, str) else stem + suffix)
        k.same(k.truth(u), bool(want), "XUniversalParser.can_parse of a name that ends in %r" % suffix, k.last)
    owner = {s: cn for cn, ss in OWN.items() for s in ss}
    for s in owner:
        for v in cases(s):
            for stem in STEMS:
                k.scenario("suffix/%s/%s" % (v, stem), lambda k, v=v, s=s, stem=stem: one(k, stem, v, [owner[s]]))
            k.scenario("suffix/%s/any" % v, lambda k, v=v, s=s: one(k, k.plus(k.word("stem", excl=". /"), "-2020-01-02"), v, [owner[s]]))
    for s in OTHER:
        for stem in ("log", "/data/my.log", "run.xes/part"):
            k.scenario("other/%s/%s" % (s, stem), lambda k, s=s, stem=stem: one(k, stem, s, []))
        if len(s) > 7:
            k.scenario("other/%s/any" % s, lambda k, s=s: one(k, k.plus(k.word("stem", excl=". /"), "-2020-01-02"), s, []))

    # what a serializer writes under a suffix it announces can be read by the parser that accepts the name
    def announced(k, cn, warm):
        s = k.new(cn)
        ss = k.items(k.m(s, "get_suffices"))
        k.ok(len(ss) > 0, "%s announces no suffix" % cn, k.last)
        for i, sfx in enumerate(ss):
            k.ok(isinstance(sfx, str) and not sfx.startswith("."), "suffix announced: %s" % (sfx,), k.last)
            g, w = c03.log(k, [([], [{}, {"trans": "resume"}])])
            path = "/tmp/out%d.%s" % (i, sfx)
            k.save(g, path, s)
            name = k.openfile(path)
            k.ok(k.truth(k.m("XUniversalParser", "can_parse", path)), "no parser accepts a file named as %s suggests (%s)" % (cn, sfx), k.last)
            r = k.load(path, "XUniversalParser")
            at = k.last
            k.same(len(r), 1, "number of logs read", at)
            es = k.items(k.items(r[0])[0])
            k.same(tuple(c03.text(k, e, "concept:name") for e in es), tuple(x[0] for x in w[2][0][2]), "events read back", at)
    for cn in ("XesXmlSerializer", "XesXmlGZIPSerializer", "XMxmlSerializer", "XMxmlGZIPSerializer"):
        for warm in (True, False):
            k.scenario("announced/%s/%s" % (cn, warm), lambda k, cn=cn, w=warm: announced(k, cn, w), warm=warm)

    def offered(k):
        """Every registered standard serializer has a registered parser."""
        n = 0
        for s in k.items(k.m(k.new("XSerializerRegistry"), "get_available")):
            for sfx in k.items(k.m(s, "get_suffices")):
                n += 1
                k.ok(k.truth(k.m("XUniversalParser", "can_parse", "x." + sfx)), "no parser accepts .%s" % sfx, k.last)
        k.ok(n >= 5, "suffixes of the registered serializers: %d" % n)
    for warm in (True, False):
        k.scenario("offered/%s" % warm, offered, warm=warm)

    # the universal parser and client parsers
    def client(k, specs, name="/tmp/data.abc"):
        C = k.client(CLIENT)["P"]
        k.place(name, k.elem("log", {}))
        ps = [k.I.call(C, ["p%d" % i, a, f]) for i, (a, f) in enumerate(specs)]
        for p in ps:
            k.m(k.new("XParserRegistry"), "register", p)
        want = next((i for i, (a, f) in enumerate(specs) if a and not f), None)
        k.same(k.truth(k.m("XUniversalParser", "can_parse", name)), any(a for a, _ in specs), "can_parse with client parsers", k.last)
        f = k.openfile(name)
        threw, r = k.raises(lambda: k.m("XUniversalParser", "parse", f))
        at = k.last
        if want is None:
            k.ok(threw, "parsing without a suitable parser returns %s" % (None if threw else r), at)
        else:
            k.ok(not threw, "parsing raises although a suitable parser succeeds", at)
            got = k.items(r)
            k.ok(len(got) == 1, "result of the parser that succeeded", at)
            k.ok(specs[int(got[0][1:])] == (True, False), "result of %s, which %s" % (got[0], specs[int(got[0][1:])]), at)
        for p, (a, fl) in zip(ps, specs):
            if not a:
                k.same(p.fields["calls"], 0, "a parser that does not accept the name was run", at)
            for x in k.items(p.fields["asked"]):
                k.same(x, name, "name a parser is asked about", at)
    Y, N, B = (True, False), (False, False), (True, True)
    L = {"Y": Y, "N": N, "B": B}
    import itertools
    for n in (1, 2, 3):
        for form in itertools.product("YNB", repeat=n):
            for setrev in (False, True):
                k.scenario("client/%s%s" % ("".join(form), "/rev" if setrev else ""), lambda k, f=form: client(k, [L[c] for c in f]),
                           setrev=setrev)

    for nm in ("/tmp/Data.ABC", "/tmp/My Data (1).aBc", "/tmp/a?b.abc", "/tmp/a#b.abc", "/tmp/a%20b.abc", "/tmp/a.xes?x=1.abc", "/tmp/\u00c4.abc", "/tmp/.abc",
               "/tmp/abc", "/tmp/a.b.c.abc", "/tmp/D.d/x.abc", "/tmp/a;b&c.abc", "/tmp/a.abc~", "/tmp/-a.abc"):
        for form in ("Y", "NY", "BY"):
            k.scenario("client-name/%s/%s" % (form, nm), lambda k, f=form, nm=nm: client(k, [L[c] for c in f], nm))

    # whatever the parser that accepts the name gives is the result, an empty one too
    def result(k, v, mk):
        C = k.client(CLIENT)["P"]
        k.place("/tmp/data.abc", k.elem("log", {}))
        r = mk(k)
        k.m(k.new("XParserRegistry"), "register", k.I.call(C, ["p", True, False, r]))
        threw, got = k.raises(lambda: k.m("XUniversalParser", "parse", k.openfile("/tmp/data.abc")))
        k.ok(not threw, "parsing raises although a suitable parser succeeds", k.last)
        k.same(got, r, "result of the universal parser", k.last)
    for v, mk in (("empty-list", lambda k: k.lst()), ("empty-tuple", lambda k: k.I.mktuple([])), ("empty-log", lambda k: k.lst(k.log())),
                  ("two", lambda k: k.lst(k.log(), k.log())), ("empty-text", lambda k: ""), ("zero", lambda k: 0), ("false", lambda k: False)):
        k.scenario("result/" + v, lambda k, v=v, mk=mk: result(k, v, mk))

    def no_process(k, name):
        """an MXML document without a process has no logs"""
        doc = k.elem("WorkflowLog", {}, k.elem("Source", {"program": "p"}))
        k.place(name, doc)
        threw, got = k.raises(lambda: k.m("XUniversalParser", "parse", k.openfile(name)))
        k.ok(not threw, "a document without logs is not read", k.last)
        k.same(len(k.items(got)), 0, "logs of a document without any", k.last)
    k.scenario("result/no-process", lambda k: no_process(k, "/tmp/a.mxml"))

    # names of every form
    def forms(k):
        for nm, w in (("a?b.xes", ".xes"), ("a.mxml.xes", ".xes"), ("a.xes.mxml", ".mxml"), ("a.xes.gz.mxml.gz", ".mxml.gz"), ("x.mxml.gz.xez", ".xez"),
                      ("a.xes.xes.gz", ".xes.gz"), ("d.xes/a.mxml", ".mxml"), ("\u00e4\u4e2d.xes", ".xes"), ("a b.XES", ".xes"), ("a;b.xml", ".xml"),
                      ("C:\\d\\a.xes", ".xes"), ("a#1.xez", ".xez"), ("a%20.mxml", ".mxml"), ("--.xes", ".xes"), ("a..xes", ".xes"), ("a.xes ", None),
                      ("a.xes.", None), ("a.xes/", None), ("a.xesx", None), ("a.gz", None), ("a.xes.bz2", None), ("a.xml.gz", None), ("axes", None),
                      ("a.xes~", None), ("a.xes?x", None), ("a.mxml#", None), ("a.xez.txt", None), ("a,xes", None), ("a_xes", None), ("a.xe s", None)):
            one(k, "", nm, [owner[w]] if w else [])
    k.scenario("forms", forms)

    def none(k, name):
        k.place(name, k.elem("log", {}))
        threw, r = k.raises(lambda: k.m("XUniversalParser", "parse", k.openfile(name)))
        k.ok(threw, "a file of no known format is read", k.last)
    for s in (".txt", ".gz", ""):
        k.scenario("unknown/%s" % s, lambda k, s=s: none(k, "/tmp/data" + s))

    def broken(k, name, doc):
        k.place(name, doc(k))
        threw, r = k.raises(lambda: k.m("XUniversalParser", "parse", k.openfile(name)))
        k.ok(threw, "a broken file is read", k.last)
    from ..terms import app
    k.scenario("not-compressed/xes", lambda k: broken(k, "/tmp/a.xes.gz", lambda k: k.elem("log", {})))
    k.scenario("not-compressed/mxml", lambda k: broken(k, "/tmp/a.mxml.gz", lambda k: k.elem("WorkflowLog", {})))


    # long names, names with many dots and folders, many parsers
    for n in (33, 100, 257, 1100):
        for form, stem in (("word", "x" * n), ("dots", "a." * (n // 2) + "b"), ("folders", "/d" * (n // 2) + "/f"), ("odd", ".xes.mxml" * (n // 9) + "q"),
                           ("blanks", "my log " * (n // 7) + "1")):
            for s in owner:
                k.scenario("long/%s/%d/%s" % (form, n, s), lambda k, s=s, stem=stem: one(k, stem, s, [owner[s]]))
            for s in (".txt", ".xes.bak", ".gz", ".xes2"):
                k.scenario("long/%s/%d/other/%s" % (form, n, s), lambda k, s=s, stem=stem: one(k, stem, s, []))

    def names(k):
        """Many names asked one after the other: the answers do not depend on what was asked before."""
        asked = [("f%d" % i + s, owner.get(s)) for i in range(12) for s in list(owner) + list(OTHER)]
        ps = {cn: k.new(cn) for cn in OWN}
        for rnd in (asked, asked[::-1], asked):
            for nm, w in rnd:
                for cn, p in ps.items():
                    k.same(k.truth(k.m(p, "can_parse", nm)), cn == w, "%s.can_parse(%r) after many others" % (cn, nm), k.last)
    k.scenario("many-names", names)
    for n in (9, 17, 33):
        for form in ("N" * n + "Y", "B" * n + "Y", "NB" * (n // 2) + "Y", "Y" + "B" * n, "N" * n, "B" * n):
            for setrev in (False, True):
                k.scenario("client/%d/%s%s" % (n, form[:2] + form[-1] + ("1" if len(form) > n else ""), "/rev" if setrev else ""),
                           lambda k, f=form: client(k, [L[c] for c in f]), setrev=setrev)


MIN_SCENARIOS = 150
