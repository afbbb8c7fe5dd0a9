"""Standard extension accessors, by abstract interpretation of every assign / extract / remove operation."""
METHOD = ("Abstract interpretation of the assign_/extract_/remove_ operations of the standard extensions on elements carrying "
          "other attributes, over symbolic values: the value term assigned must flow to the reader of the same name and to "
          "nothing else, under the extension's own key, kind and extension.")
RULE = "extract_x(assign_x(v)) == v; key/kind/extension of the stored attribute; every other attribute and element unchanged"

from .common import LENGTHS, SIZES

LIT, NUM, REAL, ID, TIME = "XAttributeLiteral", "XAttributeDiscrete", "XAttributeContinuous", "XAttributeID", "XAttributeTimestamp"
ANY = ("log", "trace", "event")
# extension, member, key, kind, owners, value of a reader on an element without it
TABLE = [
    ("XConceptExtension", "name", "concept:name", LIT, ANY, None),
    ("XConceptExtension", "instance", "concept:instance", LIT, ("event",), None),
    ("XCostExtension", "total", "cost:total", REAL, ("trace", "event"), None),
    ("XCostExtension", "currency", "cost:currency", LIT, ("trace", "event"), None),
    ("XCostExtension", "amount", "cost:amount", REAL, ("attribute",), None),
    ("XCostExtension", "driver", "cost:driver", LIT, ("attribute",), None),
    ("XCostExtension", "type", "cost:type", LIT, ("attribute",), None),
    ("XIdentityExtension", "id", "identity:id", ID, ANY + ("attribute",), None),
    ("XLifecycleExtension", "model", "lifecycle:model", LIT, ("log",), None),
    ("XLifecycleExtension", "transition", "lifecycle:transition", LIT, ("event",), None),
    ("XMicroExtension", "level", "micro:level", NUM, ("event",), -1),
    ("XMicroExtension", "parent_id", "micro:parentId", ID, ("event",), None),
    ("XMicroExtension", "length", "micro:length", NUM, ("event",), -1),
    ("XOrganizationalExtension", "resource", "org:resource", LIT, ("event",), None),
    ("XOrganizationalExtension", "role", "org:role", LIT, ("event",), None),
    ("XOrganizationalExtension", "group", "org:group", LIT, ("event",), None),
    ("XTimeExtension", "timestamp", "time:timestamp", TIME, ("event",), None),
]
STATES = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
          "autoskip", "manualskip", "unknown"]


def value(k, cn, member, kd, n):
    if kd == LIT:
        return k.phrase(n)
    if kd == NUM:
        return k.int(n, lo=0 if member == "length" else 1)
    if kd == REAL:
        x = k.float(n)
        if not k.truth(k.cmp(">", x, 0)):
            from ..interp import Infeasible
            raise Infeasible()
        return x
    if kd == ID:
        return k.xid(n)
    return k.dt(n, k.zone(n + ".z", -1 if member == "timestamp" and n == "w" else 1))


def owner(k, what, *attrs):
    if what == "log":
        o = k.log()
    elif what == "trace":
        o = k.trace()
    elif what == "event":
        o = k.event()
    else:
        o = k.attr(what if what in k.CLASSES else "literal", k.key("own"), name="own.v")
    for a in attrs:
        k.put(o, a)
    return o


def val(k, v):
    from ..interp import Obj
    if isinstance(v, Obj) and k.isinst(v, "XID"):
        return ("XID", k.get(v, "get_uuid"))
    return v


def others(k, o, key):
    return tuple((x, y) for x, y in k.views(o) if x != key)


KEYS = sorted({r[2] for r in TABLE} | {"semantic:modelReference"})


def run(k):
    def ext(k, cn):
        return k.new(cn)

    def filled(k, what, but):
        """an element already carrying every other standard attribute and one of its own"""
        o = owner(k, what, k.attr("literal", k.key("plain"), name="plain.v"))
        for cn, m, key, kd, _, _ in TABLE:
            if key != but:
                a = {LIT: "literal", NUM: "discrete", REAL: "continuous", ID: "id", TIME: "timestamp"}[kd]
                k.put(o, k.attr(a, key, name=key))
        return o

    def pair(k, row, what, full):
        cn, member, key, kd, _, absent = row
        x = ext(k, cn)
        mk = (lambda: filled(k, what, key)) if full else (lambda: owner(k, what))
        o, p, q = mk(), mk(), mk()
        base = (k.views(o), k.views(p), k.views(q))
        k.same(k.m(x, "extract_" + member, o), absent, "%s of an element without it" % member)
        k.same(k.views(o), base[0], "extracting changed the element")
        v, w = value(k, cn, member, kd, "v"), value(k, cn, member, kd, "w")
        k.m(x, "assign_" + member, o, v)
        at = k.last
        k.same(val(k, k.m(x, "extract_" + member, o)), val(k, v), "%s extracted after assigning it" % member, at)
        a = k.attr_of(o, key)
        k.ok(a is not None, "assigning %s stores nothing under %s" % (member, key), at)
        k.same(k.kind_of(a), kd, "kind of the attribute stored for %s" % member, at)
        k.same(k.get(a, "get_key"), key, "key of the attribute stored for %s" % member, at)
        k.same(k.get(a, "get_extension"), x, "extension of the attribute stored for %s" % member, at)
        k.same(others(k, o, key), base[0], "the other attributes after assigning %s" % member, at)
        k.same(k.m(x, "extract_" + member, p), absent, "%s of another element" % member, at)
        k.m(x, "assign_" + member, p, w)
        k.same(val(k, k.m(x, "extract_" + member, p)), val(k, w), "%s of the second element" % member, at)
        k.same(val(k, k.m(x, "extract_" + member, o)), val(k, v), "%s of the first element afterwards" % member, at)
        k.same(k.m(x, "extract_" + member, q), absent, "%s of a third element" % member, at)
        k.m(x, "assign_" + member, o, w)
        k.same(val(k, k.m(x, "extract_" + member, o)), val(k, w), "%s assigned a second time" % member, at)
        k.same(others(k, o, key), base[0], "the other attributes after assigning %s twice" % member, at)
        k.same(len(k.attrs(o)), len(base[0]) + 1, "number of attributes after assigning %s twice" % member, at)
        k.same((k.views(q), others(k, p, key)), (base[2], base[1]), "an element not assigned to changed", at)
        r = k.opt(x, "remove_" + member)
        if r is not None:
            k.m(x, "remove_" + member, o)
            at = k.last
            k.same(k.m(x, "extract_" + member, o), absent, "%s after removing it" % member, at)
            k.same(k.views(o), base[0], "the other attributes after removing %s" % member, at)
            k.same(val(k, k.m(x, "extract_" + member, p)), val(k, w), "%s of an element not removed from" % member, at)
            k.m(x, "remove_" + member, o)
            k.same(k.views(o), base[0], "removing %s twice" % member, at)
            k.m(x, "assign_" + member, o, v)
            k.same(val(k, k.m(x, "extract_" + member, o)), val(k, v), "%s assigned after removing it" % member, at)
    for row in TABLE:
        for what in row[4]:
            for full in (False, True):
                k.scenario("assign/%s.%s/%s%s" % (row[0], row[1], what, "/full" if full else ""),
                           lambda k, r=row, w=what, f=full: pair(k, r, w, f))
        if "attribute" in row[4]:
            for kd in ("discrete", "continuous", "boolean-true", "timestamp", "id", "list", "container"):
                k.scenario("assign/%s.%s/%s" % (row[0], row[1], kd), lambda k, r=row, w=kd: pair(k, r, w, False))

    def over(k, row, what, old, shared):
        """something else is there under the extension's key"""
        cn, member, key, kd, _, absent = row
        x, y = ext(k, cn), k.new("XExtension", "n", "q", "urn:q")
        o, p = owner(k, what), owner(k, what)
        a = k.attr(old, key, name="old", ext=y)
        k.put(a, k.attr("literal", "nested", "under the old one"))
        k.put(o, a)
        if shared:
            k.put(p, a)
        was = k.view(a)
        v = value(k, cn, member, kd, "v")
        k.m(x, "assign_" + member, o, v)
        at = k.last
        k.same(val(k, k.m(x, "extract_" + member, o)), val(k, v), "%s extracted after assigning it over a %s" % (member, old), at)
        b = k.attr_of(o, key)
        k.same((k.kind_of(b), k.get(b, "get_key"), k.get(b, "get_extension")), (kd, key, x), "attribute stored for %s over a %s" % (member, old), at)
        k.same(len(k.attrs(o)), 1, "number of attributes after assigning %s over one" % member, at)
        if shared:
            k.ok(k.attr_of(p, key) is a, "assigning %s changed what another element holds" % member, at)
            k.same(k.view(a), was, "%s of an element that shared the attribute" % member, at)
    for row in TABLE:
        for old in ("literal", "discrete", "continuous", "id", "timestamp", "list"):
            for shared in (False, True):
                k.scenario("over/%s.%s/%s%s" % (row[0], row[1], old, "/shared" if shared else ""),
                           lambda k, r=row, o=old, s=shared: over(k, r, r[4][0], o, s))

    def definition(k, row):
        """assigning does not write through to the extension's own definition"""
        cn, member, key, kd, owners, _ = row
        x = ext(k, cn)
        def defs():
            return tuple(sorted((str(i), k.view(a)) for i, n in enumerate(
                ("get_log_attributes", "get_trace_attributes", "get_event_attributes", "get_meta_attributes"))
                for a in k.items(k.get(x, n))))
        key_of = lambda: [k.view(a) for n in ("get_log_attributes", "get_trace_attributes", "get_event_attributes",
                                              "get_meta_attributes") for a in k.items(k.get(x, n))]
        before = tuple(key_of())
        o = owner(k, owners[0])
        v, w = value(k, cn, member, kd, "v"), value(k, cn, member, kd, "w")
        k.m(x, "assign_" + member, o, v)
        at = k.last
        a = k.attr_of(o, key)
        k.ok(a is not None, "assigning %s stores nothing under %s" % (member, key), at)
        k.m(a, "set_value", w)
        k.put(a, k.attr("literal", k.key("nested"), name="n"))
        k.same(tuple(key_of()), before, "assigning %s changed the definition of the extension" % member, at)
        p = owner(k, owners[0])
        k.m(x, "assign_" + member, p, v)
        k.same(k.views(k.attr_of(p, key)), (), "the attribute stored for %s carries nested attributes" % member, at)
        k.same(val(k, k.m(x, "extract_" + member, p)), val(k, v), "%s of the second element" % member, at)
        k.same(val(k, k.m(x, "extract_" + member, o)), val(k, w), "%s extracted after changing the attribute" % member, at)
    for row in TABLE:
        k.scenario("detached/%s.%s" % (row[0], row[1]), lambda k, r=row: definition(k, r))

    def found(k, row, what):
        """extract reads whatever attribute is stored under the key"""
        cn, member, key, kd, _, absent = row
        x = ext(k, cn)
        a = {LIT: "literal", NUM: "discrete", REAL: "continuous", ID: "id", TIME: "timestamp"}[kd]
        o = owner(k, what)
        b = k.attr(a, key, name="v")
        v = k.get(b, "get_value")
        k.put(o, b)
        k.same(val(k, k.m(x, "extract_" + member, o)), val(k, v), "%s of an element that carries it" % member)
    for row in TABLE:
        for what in row[4]:
            k.scenario("extract/%s.%s/%s" % (row[0], row[1], what), lambda k, r=row, w=what: found(k, r, w))

    def nothing(k, row):
        """assigning None (or blank text) leaves the element as it was"""
        cn, member, key, kd, owners, absent = row
        x = ext(k, cn)
        o = filled(k, owners[0], None)
        before = k.views(o)
        vals = [None] if kd not in (NUM, TIME) else []
        if kd == LIT:
            vals += ["", "  ", "\t"]
        for v in vals:
            if member == "parent_id" and v is None:
                for p in (owner(k, owners[0]), filled(k, owners[0], None)):
                    b = others(k, p, key)
                    k.m(x, "assign_" + member, p, v)
                    k.same(others(k, p, key), b, "the other attributes after assigning no parent")
                    a = k.attr_of(p, key)
                    k.ok(a is None or isinstance(val(k, k.get(a, "get_value")), tuple), "a parent identifier that is no identifier is stored")
                continue
            k.m(x, "assign_" + member, o, v)
            k.same(k.views(o), before, "assigning %r as %s changed the element" % (v, member))
        if member in ("level", "length"):
            for v in (-1, -7) + ((0,) if member == "level" else ()):
                k.m(x, "assign_" + member, o, v)
                k.same(k.views(o), before, "assigning %r as %s changed the element" % (v, member))
    for row in TABLE:
        if row[3] != TIME:
            k.scenario("ignored/%s.%s" % (row[0], row[1]), lambda k, r=row: nothing(k, r))

    # lifecycle ---------------------------------------------------------------------------------
    def standard(k):
        x = ext(k, "XLifecycleExtension")
        o = owner(k, "log")
        k.same(k.truth(k.m(x, "uses_standard_model", o)), False, "a log without model uses the standard model")
        k.m(x, "assign_model", o, "standard")
        k.same(k.truth(k.m(x, "uses_standard_model", o)), True, "a log with model 'standard' uses the standard model")
        k.m(x, "assign_model", o, k.phrase("other", ne=("standard",), excl="s"))
        k.same(k.truth(k.m(x, "uses_standard_model", o)), False, "a log with another model uses the standard model")
        for e in k.items(k.get(x, "get_log_attributes")):
            k.same(k.get(e, "get_value"), "standard", "the model the extension defines")
    k.scenario("lifecycle/standard-model", standard)

    def spaced(k, t):
        """Models and transitions of blanks inside, of other letter case and almost like the standard ones are kept as given."""
        x = ext(k, "XLifecycleExtension")
        o, e = owner(k, "log"), owner(k, "event")
        k.m(x, "assign_model", o, t)
        k.same(k.m(x, "extract_model", o), t, "model assigned as %r" % t)
        k.same(k.truth(k.m(x, "uses_standard_model", o)), False, "a log with model %r uses the standard model" % t)
        k.m(x, "assign_transition", e, t)
        k.same(k.m(x, "extract_transition", e), t, "transition assigned as %r" % t)
    for i, t in enumerate(("my  model", "a\tb", "a \n b", "Standard", "STANDARD", "standard model", "nonstandard", "standard-1", "Start", "COMPLETE", "start-up",
                           "re-start", "st art", "\u00e9", "0", "None", "unknown", "UNKNOWN")):
        k.scenario("lifecycle/other/%d" % i, lambda k, t=t: spaced(k, t))

    def state(k, s):
        x = ext(k, "XLifecycleExtension")
        for t in (s, s.upper(), " %s " % s, s.capitalize()):
            e = owner(k, "event")
            k.m(x, "assign_standard_transition", e, t)
            k.same(k.m(x, "extract_standard_transition", e), s, "standard transition assigned as %r" % t)
            k.same(k.m(x, "extract_transition", e), s, "transition of an event assigned %r" % t)
            f = k.event(k.attr("literal", "lifecycle:transition", t))
            k.same(k.m(x, "extract_standard_transition", f), s, "standard transition of an event carrying %r" % t)
            m = k.new(k.get(x, "StandardModel")) if False else k.I.call(k.I.getattr(x, "StandardModel"), [])
            k.same(k.m(m, "decode", t), s, "decoding %r" % t)
    for s in STATES:
        k.scenario("lifecycle/state/%s" % s, lambda k, s=s: state(k, s))

    def unknown(k):
        x = ext(k, "XLifecycleExtension")
        for t in ("completed", "star", "x", "pi abort", "assigned"):
            e = k.event(k.attr("literal", "lifecycle:transition", t))
            k.same(k.m(x, "extract_standard_transition", e), "unknown", "standard transition of %r" % t)
            k.same(k.m(x, "extract_transition", e), t, "transition of %r" % t)
        k.isnone(k.m(x, "extract_standard_transition", owner(k, "event")), "standard transition of an event without one")
        m = k.I.call(k.I.getattr(x, "StandardModel"), [])
        k.same(tuple(k.items(k.m(m, "values"))), tuple(STATES), "the standard transitions")
    k.scenario("lifecycle/unknown", unknown)

    # semantic ----------------------------------------------------------------------------------
    def refs(k, what, n, full):
        x = ext(k, "XSemanticExtension")
        key = "semantic:modelReference"
        o = filled(k, what, None) if full else owner(k, what)
        base = k.views(o)
        k.same(len(k.items(k.m(x, "extract_model_references", o))), 0, "model references of an element without them")
        k.same(len(k.items(k.m(x, "extract_model_reference_uris", o))), 0, "model reference URIs of an element without them")
        rs = [k.word("r%d" % i) for i in range(n)]
        k.m(x, "assign_model_references", o, k.lst(*rs))
        at = k.last
        got = k.items(k.m(x, "extract_model_references", o))
        k.same(tuple(got), tuple(rs), "model references extracted after assigning %d" % n, at)
        k.same(others(k, o, key), base, "the other attributes after assigning model references", at)
        if n:
            a = k.attr_of(o, key)
            k.same((k.kind_of(a), k.get(a, "get_key"), k.get(a, "get_extension")), (LIT, key, x),
                   "the attribute stored for model references", at)
        p = k.event(k.attr("literal", key, k.plus(k.plus(rs[0], "  "), rs[-1]))) if n > 1 else None
        if p is not None:
            k.same(tuple(k.items(k.m(x, "extract_model_references", p))), (rs[0], rs[-1]), "references separated by blanks")
        if n:
            ss = [k.word("s%d" % i) for i in range(2)]
            k.m(x, "assign_model_references", o, k.lst(*ss))
            k.same(tuple(k.items(k.m(x, "extract_model_references", o))), tuple(ss), "model references assigned again", at)
    for what in ANY + ("attribute",):
        for n in (0, 1, 2, 3):
            k.scenario("semantic/%s/%d" % (what, n), lambda k, w=what, n=n: refs(k, w, n, False))
        k.scenario("semantic/%s/full" % what, lambda k, w=what: refs(k, w, 2, True))

    def uris(k, n):
        x = ext(k, "XSemanticExtension")
        parse = k.I.getattr(k.I.find_module("urllib.parse"), "urlparse") if k.I.find_module("urllib.parse") else None
        us = ["http://example.org/Onto#A%d" % i for i in range(n)]
        e = owner(k, "event")
        k.m(x, "assign_model_references", e, k.lst(*us))
        ps = k.items(k.m(x, "extract_model_reference_uris", e))
        at = k.last
        k.same(tuple(k.m(p, "geturl") for p in ps), tuple(us), "model reference URIs", at)
        f = owner(k, "event")
        k.m(x, "assign_model_reference_uris", f, k.lst(*ps))
        k.same(tuple(k.items(k.m(x, "extract_model_references", f))), tuple(us), "references assigned as URIs", k.last)
    for n in (0, 1, 2, 3):
        k.scenario("semantic/uris/%d" % n, lambda k, n=n: uris(k, n))

    # time --------------------------------------------------------------------------------------
    def times(k, tz):
        x = ext(k, "XTimeExtension")
        z = {"naive": "naive", "utc": "utc", "east": k.zone("z", 1), "west": k.zone("z", -1),
             "named": k.named_zone()}[tz]
        d, e = k.dt("d", z), owner(k, "event")
        k.m(x, "assign_timestamp", e, d)
        k.same(k.m(x, "extract_timestamp", e), d, "timestamp extracted after assigning a date (%s)" % tz)
    for tz in ("naive", "utc", "east", "west", "named"):
        k.scenario("time/%s" % tz, lambda k, tz=tz: times(k, tz))

    def known_times(k):
        """dates known in full: any year, naive or not, with or without a fraction, both sides of the epoch and of summer time"""
        D = k.client("from datetime import datetime, timedelta, timezone\n"
                     "def at(y, mo, d, h, mi, s, us, off):\n"
                     "    z = None if off is None else timezone(timedelta(minutes=off))\n"
                     "    return datetime(y, mo, d, h, mi, s, us, z)\n")["at"]
        x = ext(k, "XTimeExtension")
        for off in (None, 0, 60, -300, 345, 840, -720):
            for f in ((2020, 1, 1, 0, 0, 0, 0), (1970, 1, 1, 0, 0, 0, 0), (1969, 12, 31, 23, 59, 59, 999000), (2020, 2, 29, 23, 59, 59, 999999),
                      (2000, 12, 31, 12, 30, 15, 500), (1999, 3, 28, 2, 30, 0, 1000), (1900, 1, 1, 0, 0, 0, 1), (2262, 4, 11, 0, 0, 1, 0)):
                e = k.event()
                d = k.I.call(D, list(f) + [off])
                k.m(x, "assign_timestamp", e, d)
                k.same(k.m(x, "extract_timestamp", e), d, "timestamp extracted after assigning %s with offset %s" % (f, off), k.last)
    k.scenario("time/known", known_times)

    def millis(k):
        x = ext(k, "XTimeExtension")
        e = owner(k, "event")
        n = k.int("millis", lo=0)
        k.m(x, "assign_timestamp", e, n)
        at = k.last
        d = k.m(x, "extract_timestamp", e)
        f = k.event(k.attr("timestamp", "time:timestamp", n))
        k.same(d, k.m(x, "extract_timestamp", f), "timestamp assigned in milliseconds", at)
    k.scenario("time/millis", millis)


    # long texts, large numbers, many other attributes, many references ---------------------------
    def store(k, x, member, what, v, n=0):
        o = owner(k, what)
        for i in range(n):
            k.put(o, k.attr("literal", "k%d" % i, name="o"))
        base = k.views(o)
        k.m(x, "assign_" + member, o, v)
        at = k.last
        k.same(k.m(x, "extract_" + member, o), v, "%s extracted after assigning it" % member, at)
        key = [r[2] for r in TABLE if r[0] == x.cls.name and r[1] == member][0]
        k.same(others(k, o, key), base, "the other attributes after assigning %s" % member, at)
        if k.opt(x, "remove_" + member) is not None:
            k.m(x, "remove_" + member, o)
            k.same(k.views(o), base, "the element after removing %s" % member, k.last)

    def long(k, row, n):
        x = ext(k, row[0])
        for v in ("x" * n, "a b" * (n // 3), "y" * (n - 1) + "."):
            store(k, x, row[1], row[4][0], v)
    for row in TABLE:
        if row[3] == LIT:
            for n in LENGTHS:
                k.scenario("long/%s.%s/%d" % (row[0], row[1], n), lambda k, r=row, n=n: long(k, r, n))

    def large(k, row):
        x = ext(k, row[0])
        for v in ((1, 2, 9, 10, 11, 99, 127, 128, 255, 256, 1000, 32767, 65536, 2 ** 31, 2 ** 63, 10 ** 20) if row[3] == NUM else
                  (1e-9, 0.001, 0.1, 1.0, 1.23456789, 99.99, 1000.5, 1e6, 123456789.125, 1e15, 1e100)):
            store(k, x, row[1], row[4][0], v)
    for row in TABLE:
        if row[3] in (NUM, REAL):
            k.scenario("large/%s.%s" % row[:2], lambda k, r=row: large(k, r))

    def among(k, row, n):
        x = ext(k, row[0])
        v = {LIT: "value", NUM: 3, REAL: 2.5}.get(row[3])
        store(k, x, row[1], row[4][0], k.dt("d") if row[3] == TIME else k.xid("i") if row[3] == ID else v, n)
    for row in TABLE:
        if row[3] != ID:
            k.scenario("among-many/%s.%s" % row[:2], lambda k, r=row: among(k, r, 64))

    def history(k, row):
        """assigned many times over on one element and on many, by one extension object"""
        x = ext(k, row[0])
        vs = [{LIT: "v%d" % i, NUM: i + 1, REAL: i + 0.5}[row[3]] for i in range(40)]
        o = owner(k, row[4][0])
        es = [owner(k, row[4][0]) for _ in vs]
        for v, e in zip(vs, es):
            k.m(x, "assign_" + row[1], o, v)
            k.same(k.m(x, "extract_" + row[1], o), v, "%s assigned again and again" % row[1])
            k.m(x, "assign_" + row[1], e, v)
        for v, e in zip(vs, es):
            k.same(k.m(x, "extract_" + row[1], e), v, "%s of one element among many" % row[1])
        k.same(len(k.attrs(o)), 1, "number of attributes after assigning %s again and again" % row[1])
    for row in TABLE:
        if row[3] in (LIT, NUM, REAL):
            k.scenario("many-elements/%s.%s" % row[:2], lambda k, r=row: history(k, r))

    def many_refs(k, n, u):
        x = ext(k, "XSemanticExtension")
        us = ["http://example.org/onto/%s#C%d" % ("p" * (i % 40), i) for i in range(n)]
        e = owner(k, "event")
        k.m(x, "assign_model_references", e, k.lst(*us))
        at = k.last
        k.same(tuple(k.items(k.m(x, "extract_model_references", e))), tuple(us), "%d model references" % n, at)
        if u:
            ps = k.items(k.m(x, "extract_model_reference_uris", e))
            k.same(tuple(k.m(p, "geturl") for p in ps), tuple(us), "%d model reference URIs" % n, k.last)
            f = owner(k, "event")
            k.m(x, "assign_model_reference_uris", f, k.lst(*ps))
            k.same(tuple(k.items(k.m(x, "extract_model_references", f))), tuple(us), "references assigned as URIs", k.last)
    for n in SIZES:
        k.scenario("semantic/many/%d" % n, lambda k, n=n: many_refs(k, n, True))
    k.scenario("semantic/many/257", lambda k: many_refs(k, 257, False))


MIN_SCENARIOS = 150
