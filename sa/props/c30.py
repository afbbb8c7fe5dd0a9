"""Asking changes nothing: interpretation of every query twice, with the whole observable state compared before and after."""
import json
import os

from .. import interp as ip
from ..interp import Obj
from . import c24
METHOD = ("Abstract interpretation of every query (getters, extractors, predicates, comparisons, texts, class identities, summaries, "
          "clones, serialisation in four formats) on symbolic logs, traces, events and attributes of every kind, called twice: the "
          "complete observable state of the log (attributes nested to any depth in order, values, extensions, identifiers, order of "
          "traces and events, classifiers, globals, features) and of the process (registered extensions and their attributes, "
          "registries, name mappings) is compared before and after, and the two answers with each other.")
RULE = "state after query == state before; second answer == first answer"
API = c24.API

QUERY = ("get_", "extract_", "is_", "has_", "uses_", "map", "size", "name", "compare_to", "current_default", "can_parse",
         "derive_prototype", "same_event_class", "clone")
NOT = {"extract_tokens", "get_duration", "get_duration_string", "get_support_folder", "get_extension_cache_folder", "get_author",
       "get_mapping"}  # get_mapping makes the mapping it is asked for: that is its documented meaning


def world(k):
    m = k.new("XExtensionManager")
    out = []
    for i in range(12):
        x = k.m(m, "get_by_index", i)
        if x is None:
            break
        out.append((x, k.m(x, "get_name"), k.m(x, "get_prefix"), k.m(x, "get_uri"), tuple(
            tuple(sorted(((str(k.get(a, "get_key")), k.kind_of(a)) for a in k.items(k.m(x, "get_%s_attributes" % l)))))
            for l in ("log", "trace", "event", "meta"))))
    for r in ("XFactoryRegistry", "XParserRegistry", "XSerializerRegistry"):
        o = k.new(r)
        out.append((k.m(o, "current_default"), tuple(k.items(k.m(o, "get_available")))))
    g = k.new("XGlobalAttributeNameMap")
    out.append(tuple(k.items(k.m(g, "get_available_mapping_names"))))
    for key in ("concept:name", "time:timestamp", "no:such"):
        out.append(tuple(k.m(k.m(g, "get_mapping", str(n)), "map", key) for n in k.items(k.m(g, "get_available_mapping_names"))
                         if isinstance(n, str)))
    return tuple(out)


def deep(k, a):
    """Everything about an attribute, nested ones in their order."""
    kd = k.kind_of(a)
    inner = tuple(deep(k, x) for x in k.items(k.get(a, "get_collection"))) if kd in ("XAttributeList", "XAttributeContainer") \
        else k.value_of(a)
    return (a, kd, k.get(a, "get_key"), inner, k.get(a, "get_extension"), tuple((key, deep(k, b)) for key, b in k.attrs(a)))


def event(k, e):
    return (e, k.get(e, "get_id"), k.get(k.get(e, "get_id"), "get_uuid"), tuple((key, deep(k, a)) for key, a in k.attrs(e)))


def trace(k, t):
    return (t, tuple((key, deep(k, a)) for key, a in k.attrs(t)), tuple(event(k, e) for e in k.items(t)))


def state(k, g):
    cl = tuple((c, k.m(c, "name"), tuple(k.items(k.m(c, "get_defining_attribute_keys")))) for c in k.items(k.m(g, "get_classifiers")))
    gl = tuple(tuple(deep(k, a) for a in k.items(k.m(g, "get_global_%s_attributes" % s))) for s in ("trace", "event"))
    ft = tuple(sorted(((str(a), str(b)) for a, b in _features(k, g))))
    return (tuple((key, deep(k, a)) for key, a in k.attrs(g)), tuple(trace(k, t) for t in k.items(g)), cl, gl, ft,
            tuple(sorted((str(k.m(x, "get_prefix")) for x in k.items(k.m(g, "get_extensions"))))))


def _features(k, g):
    f = k.m(g, "get_features")
    if not isinstance(f, Obj):
        return []
    if k.I.base_of(f) == "dict":
        return [(e[0], e[1]) for e in f.payload]
    return [(x, "") for x in k.items(f)]


def canon(k, r, depth=0):
    if isinstance(r, (tuple, list)):
        return tuple(canon(k, x, depth + 1) for x in r)
    if isinstance(r, Obj):
        b = k.I.base_of(r)
        if k.isinst(r, "XAttribute"):
            return k.view(r)
        if k.isinst(r, "XEvent"):
            return ("event", k.view_event(r))
        if k.isinst(r, "XTrace"):
            return ("trace", k.view_trace(r))
        if k.isinst(r, "XLog"):
            return ("log", k.view_log(r))
        if k.isinst(r, "XID"):
            return ("id", k.get(r, "get_uuid"))
        if k.isinst(r, "XTimeBounds"):
            return ("bounds", k.m(r, "get_start_date"), k.m(r, "get_end_date"))
        if k.isinst(r, "XEventClasses"):
            return ("classes", tuple(sorted((str((canon(k, k.m(c, "get_id")), k.m(c, "size"), k.m(c, "get_index")))
                                             for c in k.items(k.m(r, "get_classes"))))))
        if k.isinst(r, "XEventClass"):
            return ("class", k.m(r, "get_id"), k.m(r, "size"), k.m(r, "get_index"))
        if k.isinst(r, "XAttributeInfo"):
            return ("info", tuple(sorted(str((x, k.m(r, "get_frequency", x))) for x in k.items(k.m(r, "get_attribute_keys")))))
        if b == "dict":
            return ("dict",) + tuple(sorted((str(canon(k, e[0], depth + 1)), str(canon(k, e[1], depth + 1))) for e in r.payload))
        if b == "set":
            return ("set",) + tuple(sorted(str(canon(k, x, depth + 1)) for x in k.items(r)))
        if b in ("list", "tuple", "dictview"):
            return (b,) + tuple(canon(k, x, depth + 1) for x in k.items(r))
        if k.isinst(r, "XLogInfo"):
            return ("loginfo", k.m(r, "get_number_of_event"), k.m(r, "get_number_of_traces"))
        return r if r.cls.name not in ("object",) else "object"
    return r


def odd_event(k, v=0):
    """All standard attributes, with values in unusual spellings: with blanks around, or in capitals."""
    sp = lambda x: x if v == 0 else x.strip().upper() if v == 2 else x.strip().title()
    L = lambda key, val, *inner: (lambda a: [k.put(a, b) for b in inner] and a or a)(k.attr("literal", key, sp(val)))
    cost = lambda n: [k.attr("continuous", "cost:amount", name="%s.amount%d" % (n, v)), L("cost:driver", " Driver "), L("cost:type", "Type")]
    return k.event(L("zz", " Odd  Value "), L("lifecycle:transition", " Complete"), L("semantic:modelReference", " http://b/B  a b"),
                   L("org:group", " Group A"), L("org:role", "Role  b"), L("org:resource", " Me "), L("cost:currency", " eur"),
                   k.attr("continuous", "cost:total", name="odd.total%d" % v), k.attr("timestamp", "time:timestamp", name="odd.time%d" % v),
                   k.attr("discrete", "micro:level", 3), k.attr("discrete", "micro:length", 2),
                   k.attr("id", "micro:parentId", name="odd.parent%d" % v), L("identity:name", " Ident "), k.attr("id", "identity:id", name="odd.id%d" % v),
                   L("plain", "", *(cost("plain") + [L("deeper", "", *cost("deeper"))])), L("concept:instance", " Inst "),
                   L("concept:name", " Name  of it "), k.attr("boolean-true", "Aa", name="odd.b%d" % v))


def run(k):
    x = lambda k: k.new("XConceptExtension")

    def rich(k, kinds=("literal", "list", "timestamp", "id"), simple=False, odd=True):
        def nested(kd, n, ext=None):
            a = k.attr(kd, n, k.phrase(n + ".v"), ext) if kd == "literal" else k.attr(kd, n, ext=ext, name=n + ".v")
            k.put(a, k.attr("literal", n + ".in", k.phrase(n + ".in.v")))
            if kd in ("list", "container"):
                for j in (2, 0, 1):
                    m = k.attr("discrete", "%s.m%d" % (n, j), name="%s.m%d.v" % (n, j))
                    k.put(m, k.attr("literal", "in", k.phrase("%s.m%d.in" % (n, j))))
                    k.get(a, "add_to_collection", m)
            return a
        es = []
        for i in range(1 if simple else 2):
            e = c24.std_event(k) if simple or not odd else odd_event(k, i)
            for kd in kinds:
                k.put(e, nested(kd, "e%d.%s" % (i, kd), x(k) if kd == "literal" else None))
            es.append(e)
        t = k.trace(es, [k.attr("literal", "concept:name", k.phrase("t.name"), x(k)), nested("container", "t.c")])
        g = k.log([t, k.trace([k.event()])], [k.attr("literal", "concept:name", k.phrase("g.name"), x(k)), nested("list", "g.l"),
                                               k.attr("literal", "lifecycle:model", " Standard")])
        k.m(k.m(g, "get_extensions"), "add", x(k))
        k.append(k.m(g, "get_classifiers"), k.new("XEventAttributeClassifier", k.word("cn"), k.lst("org:resource", "concept:name", "lifecycle:transition")))
        k.append(k.m(g, "get_global_trace_attributes"), k.attr("literal", "concept:name", k.phrase("gt")))
        k.append(k.m(g, "get_global_trace_attributes"), k.attr("literal", "cost:total", k.phrase("gt2")))
        for n in ("ge", "gd"):
            k.append(k.m(g, "get_global_event_attributes"), nested("discrete", n))
        return g

    def twice(k, g, op, what, answer=True):
        s0, w0 = state(k, g), world(k)
        k.last = None
        first, r1 = k.raises(op)
        at = k.last
        s1, w1 = state(k, g), world(k)
        k.same(s1, s0, "the log after %s" % what, at)
        k.same(w1, w0, "the process-wide state after %s" % what, at)
        c1 = canon(k, r1) if not first else "raises"
        second, r2 = k.raises(op)
        k.same(second, first, "%s fails once and works once" % what, at)
        if answer:
            k.same(canon(k, r2) if not second else "raises", c1, "%s asked again" % what, at)
            if not first:
                k.same(canon(k, r1), c1, "the first answer of %s after asking again" % what, at)
        k.same(state(k, g), s0, "the log after %s twice" % what, at)

    # serialisation
    for sn in ("XesXmlSerializer", "XesXmlGZIPSerializer", "XMxmlSerializer", "XMxmlGZIPSerializer"):
        pn = sn.replace("Serializer", "Parser")

        def ser(k, sn=sn, pn=pn):
            g = rich(k, simple="Mxml" in sn)

            def op():
                k.save(g, "/tmp/o", sn)
                at = k.last
                r = k.load("/tmp/o", pn)
                k.last = at
                return tuple(r)
            twice(k, g, op, "%s.serialize" % sn)
        k.scenario("serialize/%s" % sn, ser)

    # summaries and classes
    def summary(k, how):
        g = rich(k, odd=how == "clone")
        cls = k.new("XEventNameClassifier")
        if how == "create":
            op = lambda: k.static("XLogInfo", "create", g, cls, k.lst(cls))
        elif how == "factory":
            op = lambda: k.static("XLogInfoFactory", "create_log_info", g)
        elif how == "classes":
            op = lambda: k.static("XEventClasses", "derive_event_classes", cls, g)
        else:
            op = lambda: k.m(g, "clone")
        twice(k, g, op, how, answer=how != "factory")
    for how in ("create", "factory", "classes", "clone"):
        k.scenario("summary/%s" % how, lambda k, h=how: summary(k, h))

    def info_queries(k, m):
        g = rich(k, odd=False)
        cls = k.new("XEventNameClassifier")
        i = k.static("XLogInfo", "create", g, cls, k.lst(cls))
        t = k.items(g)[0]
        args = {"get_event_classes": (cls,), "get_trace_time_boundaries": (t,)}.get(m, ())
        others = [n for n in sorted(API["XLogInfo"]) if n.startswith("get_") and n != m]
        argsof = lambda n: {"get_event_classes": (cls,), "get_trace_time_boundaries": (t,)}.get(n, ())
        snap = lambda: tuple(canon(k, k.m(i, n, *argsof(n))) for n in others)
        before = snap()
        twice(k, g, lambda: k.m(i, m, *args), "XLogInfo.%s" % m)
        k.same(snap(), before, "the other figures of the summary after XLogInfo.%s" % m)
    for m in sorted(API["XLogInfo"]):
        if m.startswith("get_"):
            k.scenario("info/%s" % m, lambda k, m=m: info_queries(k, m))

    # queries on elements of the log
    def element_query(k, cn, m, sig, target):
        g = rich(k)
        t = k.items(g)[0]
        e = k.items(t)[target == "event2"]
        by = {"event": e, "event2": e, "trace": t, "log": g}
        o = k.cls(cn) if sig["static"] else c24.receiver(k, cn, True) if cn != "XEventAttributeClassifier" else k.new(
            cn, k.word("cname"), k.lst("org:resource", "plain", "concept:name"))
        args = []
        for n, ty, _ in sig["params"]:
            if any(w in ty for w in ("XAttributable", "XEvent", "XTrace", "XLog")):
                args.append(by[target])
            else:
                args.append(c24.value(k, ty.split(" or ")[0], n, cn, m))
        twice(k, g, lambda: k.m(o, m, *args), "%s.%s" % (cn, m))
    for cn in sorted(c for c in API if c.startswith("X") and (c.endswith("Extension") or c.endswith("Classifier"))):
        ms = dict(API[cn])
        if cn.endswith("Classifier"):
            for b in ("XEventAttributeClassifier",):
                for m, s in API[b].items():
                    ms.setdefault(m, s)
            ms.pop("compare_to", None)
        for m, sig in sorted(ms.items()):
            if m.startswith(QUERY) and m not in NOT and m != "__init__":
                ts = ["event", "event2"] if sig["params"] else ["event"]
                if any("XLog" in p[1] for p in sig["params"]):
                    ts = ["log"]
                elif any("XTrace" in p[1] for p in sig["params"]):
                    ts = ["event", "trace"]
                for tg in ts:
                    k.scenario("query/%s.%s/%s" % (cn, m, tg), lambda k, a=(cn, m, sig, tg): element_query(k, *a))

    # queries of the log's own objects
    def own_query(k, which, m, sig, cn):
        g = rich(k)
        t = k.items(g)[0]
        e = k.items(t)[0]
        o = {"log": g, "trace": t, "event": e}.get(which)
        if which == "wrapper":
            o = k.new("XExtendedEvent", e)
        elif o is None:
            o = [a for _, a in k.attrs(e) + k.attrs(t) + k.attrs(g) if k.isinst(a, which)][0]
        args = [o if n in ("obj", "other") else c24.value(k, ty.split(" or ")[0], n, cn, m) for n, ty, opt in sig["params"] if not opt]
        twice(k, g, lambda: k.m(o, m, *args), "%s.%s" % (cn, m), answer=m != "clone")
    OWN = [("log", ("XLog", "XAttributable")), ("trace", ("XTrace", "XAttributable")), ("event", ("XEvent", "XAttributable")),
           ("wrapper", ("XExtendedEvent",)), ("XAttributeLiteral", ("XAttributeLiteral", "XAttribute", "XAttributable")),
           ("XAttributeTimestamp", ("XAttributeTimestamp", "XAttribute")), ("XAttributeID", ("XAttributeID", "XAttribute")),
           ("XAttributeList", ("XAttributeList", "XAttributeCollection", "XAttribute", "XAttributable")),
           ("XAttributeContainer", ("XAttributeContainer", "XAttributeCollection", "XAttribute"))]
    for which, cs in OWN:
        ms = {}
        for c in reversed(cs):
            ms.update({m: (c, s) for m, s in API.get(c, {}).items()})
        for m, (c, s) in sorted(ms.items()):
            if m.startswith(QUERY) and not s["static"] and m not in NOT and m != "get_info":
                k.scenario("own/%s.%s" % (which, m), lambda k, a=(which, m, s, c): own_query(k, *a))

    def generic(k, what):
        g = rich(k)
        t = k.items(g)[0]
        e, f = k.items(t)
        a = k.attrs(e)[0][1]
        ops = {"str": lambda: tuple(k.str(o) for o in (a, e, t, g)),
               "hash": lambda: tuple(k.hash(o) for o in (a, e)),
               "eq": lambda: tuple(k.truth(k.eq(p, q)) for p in (e, f) for q in (e, f)) + (k.truth(k.ne(t, k.items(g)[1])),),
               "iterate": lambda: tuple(k.items(g)) + tuple(k.items(t)), "len": lambda: (k.len(g), k.len(t)),
               "contains": lambda: (k.has(t, e), k.has(g, t)), "index": lambda: (k.index(t, 0), k.index(g, 1)),
               "compare": lambda: tuple(k.m(p, "compare_to", p) for _, p in k.attrs(e) if k.kind_of(p) not in (
                   "XAttributeList", "XAttributeContainer")),
               "prototype": lambda: k.view(k.static("XAttributeUtils", "derive_prototype", a)),
               "type": lambda: (k.static("XAttributeUtils", "get_type", a), k.static("XAttributeUtils", "get_type_string", a))}
        twice(k, g, ops[what], what)
    for what in ("str", "hash", "eq", "iterate", "len", "contains", "index", "compare", "prototype", "type"):
        k.scenario("generic/%s" % what, lambda k, w=what: generic(k, w))

    # registries, manager, name map
    def service(k, cn, m, sig):
        g = rich(k)
        o = k.new(cn)
        args = [c24.value(k, ty.split(" or ")[0], n, cn, m) for n, ty, _ in sig["params"]]
        twice(k, g, lambda: k.m(o, m, *args), "%s.%s" % (cn, m))
    for cn in ("XExtensionManager", "XFactoryRegistry", "XParserRegistry", "XSerializerRegistry", "XGlobalAttributeNameMap"):
        ms = dict(API["XRegistry"]) if "Registry" in cn else {}
        ms.update(API[cn])
        for m, sig in sorted(ms.items()):
            if m.startswith(QUERY) and m not in NOT:
                k.scenario("service/%s.%s" % (cn, m), lambda k, a=(cn, m, sig): service(k, *a))


    # asked again and again, on logs of many traces, events and attributes
    def often(k, what, n):
        at = lambda i: k.attr("literal", "k%d" % i, "v%d" % i)
        name = lambda v: k.attr("literal", "concept:name", v)
        g = k.log([k.trace([k.event(name("a%d" % (j % 3)), at(j)) for j in range(n if i == 0 else 2)], [name("t%d" % i)]) for i in range(n)],
                  [at(i) for i in range(n)])
        c = k.new("XEventNameClassifier")
        t = k.items(g)[0]
        e = k.items(t)[0]
        ops = {"clone": lambda: k.m(g, "clone"), "summary": lambda: k.static("XLogInfo", "create", g, c, k.lst(c)),
               "classes": lambda: k.static("XEventClasses", "derive_event_classes", c, g),
               "identity": lambda: tuple(k.m(c, "get_class_identity", x) for x in k.items(t)),
               "texts": lambda: tuple(k.str(x) for x in (e, t)),
               "names": lambda: tuple(k.m(k.new("XConceptExtension"), "extract_name", x) for x in k.items(t)),
               "map": lambda: k.m(k.new("XGlobalAttributeNameMap"), "map_safely", "concept:name", "EN"),
               "extension": lambda: k.m(k.new("XExtensionManager"), "get_by_prefix", "concept"),
               "xes": lambda: k.save(g, "/tmp/o", "XesXmlSerializer"), "mxml": lambda: k.save(g, "/tmp/o", "XMxmlSerializer")}
        s0, w0, first = state(k, g), world(k), None
        for i in range(12 if n < 10 else 3):
            r = ops[what]()
            at_ = k.last
            if what in ("summary", "classes", "identity", "texts", "names", "map", "extension"):
                v = canon(k, r)
                first = v if first is None else first
                k.same(v, first, "%s asked for the %d. time" % (what, i + 1), at_)
            k.same(state(k, g), s0, "the log after %s" % what, at_)
        k.same(world(k), w0, "the process-wide state after %s" % what, at_)
    for what in ("clone", "summary", "classes", "identity", "texts", "names", "map", "extension", "xes", "mxml"):
        for n in (3, 17, 33):
            k.scenario("often/%s/%d" % (what, n), lambda k, w=what, n=n: often(k, w, n))


MIN_SCENARIOS = 100
