"""Importing, by abstract interpretation of the module bodies in every order of first import."""
from .. import interp as ip
from ..interp import Obj
from ..kit import modules_of
from ..terms import show
from . import c24
METHOD = ("Abstract interpretation of the module bodies with Python's import semantics (a module that is being imported offers what "
          "it has defined so far; submodules are attributes of their package once imported), starting from nothing with each module "
          "of the package in turn and with the whole package in several orders; the effects of the bodies are recorded, and the "
          "registries that result are compared. Then every class is used with nothing imported but its own module.")
RULE = ("import of any module first raises nothing, prints nothing, opens, creates and fetches nothing; the registries, extensions and name "
        "mappings are the same whatever was imported first; no implicit error in an operation of a class whose module alone is imported")
ASSUMES = ["third-party modules (click) can be imported"]


def run(k):
    names = modules_of(k.root)

    def blank(k):
        k.I.modules.clear()
        k.I.class_index.clear()

    def load(k, n):
        k.last = "import %s" % n
        try:
            m = k.I.find_module(n)
        except ip.PyRaise as e:
            k.fail("import %s, as the first of the package, raises %s" % (n, e.value.cls.name), e.loc)
        k.ok(m is not None, "there is no module %s" % n)

    def quiet(k, n):
        I = k.I
        k.ok(not I.output, "import %s prints" % n, I.output[0][1] if I.output else None)
        k.ok(not I.opened, "import %s opens a stream" % n, I.opened[0].fields["site"] if I.opened else None)
        k.ok(not I.effects_seen, "import %s has an effect outside: %s" % (n, ", ".join(I.effects_seen)[:200]))
        ext = [x for x in I.ext_calls if not str(x[0]).startswith("click")]
        k.ok(not ext, "import %s has an effect outside: %s" % (n, ", ".join(str(x[0]) for x in ext)),
             ext[0][2] if ext else None)

    def snapshot(k):
        out = []
        for r in ("XParserRegistry", "XSerializerRegistry", "XFactoryRegistry"):
            x = k.new(r)
            d = k.m(x, "current_default")
            av = [o.cls.name for o in k.items(k.m(x, "get_available"))]
            out.append((r, d.cls.name if isinstance(d, Obj) else show(d), tuple(sorted(av)), tuple(av) if r == "XParserRegistry" else ()))
        m = k.new("XExtensionManager")
        es = []
        for i in range(9):
            e = k.m(m, "get_by_index", i)
            if not isinstance(e, Obj):
                es.append(None)
                continue
            es.append((k.m(e, "get_name"), k.m(e, "get_prefix"), tuple(len(k.items(k.m(e, "get_%s_attributes" % lv)))
                                                                    for lv in ("log", "trace", "event", "meta"))))
        out.append(("extensions", tuple(es)))
        g = k.new("XGlobalAttributeNameMap")
        ms = []
        for n in ("EN", "DE", "FR", "ES", "PT"):
            for key in ("concept:name", "time:timestamp", "org:resource", "lifecycle:transition", "cost:total", "identity:id"):
                ms.append((n, key, k.m(g, "map_safely", key, n)))
        out.append(("names", tuple(ms)))
        return tuple(out)
    ref = {}

    def whole(k, order, label):
        blank(k)
        for n in order:
            load(k, n)
            quiet(k, n)
        s = snapshot(k)
        if "ref" not in ref:
            ref["ref"] = s
            return
        for a, b in zip(s, ref["ref"]):
            k.same(a, b, "%s after importing in another order" % b[0])
    whole_names = [n for n in names if not n.endswith("__main__")]
    k.scenario("all/sorted", lambda k: whole(k, whole_names, "sorted"), warm="empty")
    k.scenario("all/reverse", lambda k: whole(k, whole_names[::-1], "reverse"), warm="empty")
    for step in (7, 11, 29) + ((13, 17, 31, 37) if k.thorough else ()):
        n = len(whole_names)
        order = sorted(whole_names, key=lambda x: (whole_names.index(x) * step) % n)
        k.scenario("all/step-%d" % step, lambda k, o=order: whole(k, o, "step"), warm="empty")

    def first(k, n, rest):
        blank(k)
        load(k, n)
        quiet(k, n)
        if not rest:
            return
        s = snapshot(k)
        for a, b in zip(s, ref["ref"]):
            k.same(a, b, "%s when %s is imported first" % (b[0], n))
        for o in whole_names:
            load(k, o)
    for n in whole_names:
        k.scenario("first/" + n, lambda k, n=n: first(k, n, False), warm="empty")
        k.scenario("first-then-all/" + n, lambda k, n=n: first(k, n, True), warm="empty")

    # two modules in either order
    pairs = [(a, b) for a in whole_names for b in whole_names if a != b] if k.thorough else []

    def two(k, a, bs):
        for b in bs:
            blank(k)
            load(k, a)
            load(k, b)
        k.ok(True, "")
    by = {}
    for a, b in pairs:
        by.setdefault(a, []).append(b)
    for a in by:
        k.scenario("pairs/" + a, lambda k, a=a: two(k, a, by[a]), warm="empty", seconds=120)

    # a class whose module alone has been imported
    def use(k, cn, m, sig):
        blank(k)
        load(k, k.where[cn])
        if m is None:
            c24.text(k, cn, True)
        else:
            c24.call(k, cn, m, sig, c24.combos(sig["params"])[0] if sig["params"] else [], True)
    for cn in sorted(c24.API):
        if cn in c24.SKIP:
            continue
        if cn not in c24.STATIC:
            k.scenario("alone/str(%s)" % cn, lambda k, cn=cn: use(k, cn, None, None), warm="empty")
        for m, s in sorted(c24.API[cn].items()):
            if m != "__init__" and (cn, m) not in c24.EXEMPT:
                k.scenario("alone/%s.%s" % (cn, m), lambda k, a=(cn, m, s): use(k, *a), warm="empty")


MIN_SCENARIOS = 150
