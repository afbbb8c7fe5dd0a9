"""Compressed variants, by abstract interpretation of the gzip serializers and parsers next to the plain ones."""
from .common import ALL, DEPTHS, LENGTHS, SIZES
from . import c02, c03, xes
METHOD = ("Abstract interpretation of the GZIP serializers and parsers and of the plain ones on the same symbolic logs: the log read "
          "back through the compressed file is compared, term by term, with the one read back through the plain file; the file "
          "written is compressed (an effect of gzip.open on the abstract file) exactly for the GZIP variants.")
RULE = "read_gz(write_gz(log)) == read(write(log)); write_gz leaves a compressed file under the client's name, nothing else"
ASSUMES = ["gzip.open(path) reads exactly what gzip.open(path, 'wb') wrote"]

V = {"xes": ("XesXmlSerializer", "XesXmlParser", "XesXmlGZIPSerializer", "XesXmlGZIPParser", ".xes", (".xes.gz", ".xez")),
     "mxml": ("XMxmlSerializer", "XMxmlParser", "XMxmlGZIPSerializer", "XMxmlGZIPParser", ".mxml", (".mxml.gz",))}


def whole(k, g):
    h = c02.header(k, g)
    return (xes.lview(k, g), h[1], h[2], h[3], tuple(sorted(x.cls.name for x in h[0].values())))


def run(k):
    A = xes.attr

    def log_xes(k, shape=(2, 1)):
        g = k.log([], [A(k, kd, "g%d" % i) for i, kd in enumerate(ALL)])
        for i, n in enumerate(shape):
            t = k.trace([], [A(k, "literal", "t%d" % i)])
            for j in range(n):
                e = k.event(A(k, "literal", "e%d.%d" % (i, j)), A(k, "timestamp", "s%d.%d" % (i, j)))
                a = A(k, "discrete", "n%d.%d" % (i, j))
                k.put(a, A(k, "literal", "m%d.%d" % (i, j)))
                k.put(e, a)
                k.append(t, e)
            k.append(g, t)
        k.get(k.get(g, "get_extensions"), "add", k.new("XTimeExtension"))
        k.get(k.get(g, "get_global_trace_attributes"), "append", A(k, "literal", "gt"))
        k.get(k.get(g, "get_global_event_attributes"), "append", A(k, "discrete", "ge"))
        k.get(k.get(g, "get_classifiers"), "append", k.new("XEventAttributeClassifier", "C", k.lst("concept:name", "a b")))
        return g

    def log_mxml(k, shape=(2, 1)):
        return c03.log(k, [(["literal"], [{"data": ["literal"]}] * n) for n in shape], data=["discrete"])[0]
    MK = {"xes": log_xes, "mxml": log_mxml}

    def compare(k, form, shape, ext, ser=None, par=None, name="/tmp/z"):
        s0, p0, s1, p1, e0, _ = V[form]
        g = MK[form](k, shape)
        before = whole(k, g)
        k.save(g, "/tmp/plain" + e0, s0)
        ref = k.load("/tmp/plain" + e0, p0)
        path = name + ext
        k.save(g, path, ser or s1)
        at = k.last
        f = k.I.fs.get(path)
        k.ok(f is not None, "nothing was written under the name of the client's file", at)
        k.ok(bool(f.fields.get("gz")), "the file written is not compressed", at)
        k.ok(not k.I.fs["/tmp/plain" + e0].fields.get("gz"), "the plain file is compressed", at)
        k.same(set(k.I.fs) <= {path, "/tmp/plain" + e0, name + "2" + ext, name + "1" + ext}, True, "files written", at)
        k.same(whole(k, g), before, "the log that was written, afterwards", at)
        got = k.load(path, par or p1)
        at = k.last
        k.same(len(got), len(ref), "number of logs read", at)
        for a, b in zip(got, ref):
            xes.judge(k, a, xes.lview(k, b), at)
            k.same(whole(k, a), whole(k, b), "header of the log read", at)
        return got[0]
    def flag(k, form):
        s0, p0, s1, p1, e0, ex = V[form]
        g = MK[form](k, (1, 1))
        views = []
        for i, flag in enumerate(((), (False,), (True,))):
            path = "/tmp/fl%d%s" % (i, ex[-1])
            out = k.openfile(path, "w")
            k.m(k.new(s1), "serialize", g, out, *flag)
            k.I.call(k.I.getattr(out, "close"), [])
            views.append(whole(k, k.load(path, p1)[0]))
        at = k.last
        k.same(views[1], views[0], "log read back, in_bytes=False", at)
        k.same(views[2], views[0], "log read back, in_bytes=True", at)

    for form in V:
        for ext in V[form][5]:
            for shape in ((1,), (2, 1), (1, 1, 2)):
                k.scenario("%s/%s/%s" % (form, ext, "-".join(map(str, shape))), lambda k, f=form, e=ext, s=shape: compare(k, f, s, e))
            k.scenario("%s/%s/universal" % (form, ext), lambda k, f=form, e=ext: compare(k, f, (1, 2), e, par="XUniversalParser"))
            k.scenario("%s/%s/cold" % (form, ext), lambda k, f=form, e=ext: compare(k, f, (1,), e), warm=False)
        k.scenario("%s/flag-ignored" % form, lambda k, f=form: flag(k, f))

        def twice(k, form=form):
            s, p = k.new(V[form][2]), k.new(V[form][3])
            ext = V[form][5][0]
            compare(k, form, (1,), ext, s, p, "/tmp/z1")
            del k.I.fs["/tmp/z1" + ext]
            compare(k, form, (2,), ext, s, p, "/tmp/z2")
        k.scenario("%s/used-twice" % form, twice)

        def rewrite(k, form=form):
            s0, p0, s1, p1, e0, _ = V[form]
            g, h = MK[form](k, (2, 1)), MK[form](k, (1,))
            path = "/tmp/r" + V[form][5][0]
            k.save(g, path, s1)
            k.save(h, path, s1)
            k.save(h, "/tmp/plain" + e0, s0)
            got, ref = k.load(path, p1)[0], k.load("/tmp/plain" + e0, p0)[0]
            xes.judge(k, got, xes.lview(k, ref), k.last)
        k.scenario("%s/rewritten" % form, rewrite)

    def plain(k, form, traces, texts=(), deep=0, attrs=0):
        """A log of given texts and sizes."""
        g = k.log([], [k.attr("literal", "concept:name", "a log", ext=k.new("XConceptExtension"))])
        k.get(k.get(g, "get_extensions"), "add", k.new("XConceptExtension"))
        name = lambda v: k.attr("literal", "concept:name", v, ext=k.new("XConceptExtension"))
        for i, n in enumerate(traces):
            t = k.trace([], [name("t%d" % i)])
            for j in range(n):
                e = k.event(name("e%d.%d" % (i, j)), *([k.attr("literal", "x%d" % x, v) for x, v in enumerate(texts)] + [
                    k.attr("literal", "k%d" % x, "v%d" % x) for x in range(attrs)]))
                b = e
                for d in range(deep):
                    a = k.attr("literal", "d%d" % d, "v")
                    k.put(b, a)
                    b = a
                k.append(t, e)
            k.append(g, t)
        return g

    def sized(k, form, *what):
        s0, p0, s1, p1, e0, ex = V[form]
        g = plain(k, form, *what)
        before = whole(k, g)
        k.save(g, "/tmp/z" + ex[0], s1)
        k.ok(bool(k.I.fs["/tmp/z" + ex[0]].fields.get("gz")), "the file written is not compressed", k.last)
        got = k.load("/tmp/z" + ex[0], p1)
        at = k.last
        k.same(whole(k, g), before, "the log that was written, afterwards", at)
        k.same(len(got), 1, "number of logs read", at)
        k.save(g, "/tmp/plain" + e0, s0)
        ref = k.load("/tmp/plain" + e0, p0)[0]
        xes.judge(k, got[0], xes.lview(k, ref), at)
        k.same(whole(k, got[0]), whole(k, ref), "header of the log read", at)
        k.same(tuple(len(k.items(t)) for t in k.items(got[0])), tuple(what[0]), "events of each trace", at)
    for form in V:
        for n in SIZES:
            k.scenario("%s/many-traces/%d" % (form, n), lambda k, f=form, n=n: sized(k, f, [1] * n))
            k.scenario("%s/many-events/%d" % (form, n), lambda k, f=form, n=n: sized(k, f, [n, 1]))
            k.scenario("%s/many-attributes/%d" % (form, n), lambda k, f=form, n=n: sized(k, f, [1, 2], (), 0, n))
        for n in LENGTHS:
            k.scenario("%s/long/%d" % (form, n), lambda k, f=form, n=n: sized(k, f, [1], ("x" * n, "a b" * (n // 3))))
        for n in DEPTHS:
            k.scenario("%s/deep/%d" % (form, n), lambda k, f=form, n=n: sized(k, f, [1], (), n if f == "xes" else 0, 0))

        def series(k, form=form):
            """One serializer and one parser used for many files, read in another order."""
            s, p = k.new(V[form][2]), k.new(V[form][3])
            for i in range(12):
                k.save(plain(k, form, [i % 3 + 1] * (i + 1), ("text %d" % i,)), "/tmp/s%d%s" % (i, V[form][5][0]), s)
            for i in (3, 0, 11, 7, 3, 1, 2, 10, 9, 8, 6, 5, 4):
                got = k.load("/tmp/s%d%s" % (i, V[form][5][0]), p)
                k.same([len(k.items(t)) for x in got for t in k.items(x)], [i % 3 + 1] * (i + 1), "events of the traces of file %d" % i, k.last)
                k.same(k.get(k.attr_of(k.items(k.items(got[0])[-1])[0], "x0"), "get_value"), "text %d" % i, "text of file %d" % i, k.last)
        k.scenario("%s/many-files" % form, series)

MIN_SCENARIOS = 15
