"""Every documented operation resolves: interpretation of all public operations over arguments of their documented kinds, and name resolution over the whole source."""
import json
import os

from .. import interp as ip
from ..interp import Obj
from ..terms import kind
from . import c11, names
METHOD = ("Abstract interpretation of every public operation of every class (inherited ones on each concrete class too) over symbolic "
          "arguments of each documented kind, optional ones given and omitted, on empty and filled receivers; and a name "
          "resolution pass over the syntax trees of all modules: global names, imported names, members of self, super(), classes, "
          "modules and constructed objects, and the number and names of arguments of every call that resolves.")
RULE = ("no implicit NameError, UnboundLocalError, AttributeError, TypeError, IndexError or KeyError for arguments of the documented "
        "kinds; the result is of the documented kind; every name, member and argument in the source resolves")
BAD = ("NameError", "UnboundLocalError", "AttributeError", "TypeError", "IndexError", "KeyError", "ImportError", "ModuleNotFoundError",
       "RecursionError", "AssertionError", "ZeroDivisionError", "StopIteration", "NotImplementedError")
API = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")))


def run(k):
    names.run(k)
    for cn in sorted(API):
        ms = {}
        # operations documented on the class and on its ancestors
        k.I = k.interp(True)
        c = k.I.class_index.get(cn)
        if not c:
            k.rule("class/%s" % cn, False, "the class %s is gone" % cn)
            continue
        for b in reversed(c[0].mro):
            ms.update({m: (b.name, s) for m, s in API.get(b.name, {}).items()})
        if cn in SKIP:
            continue
        for m, (owner, sig) in sorted(ms.items()):
            if m == "__init__" or (owner, m) in EXEMPT or (cn, m) in EXEMPT:
                continue
            for vi, combo in enumerate(combos(sig["params"])):
                for full in ((False, True) if (cn, m) not in FILLED and not sig["static"] else (True,)):
                    k.scenario("%s.%s/%d%s" % (cn, m, vi, "" if full else "/bare"),
                               lambda k, a=(cn, m, sig, combo, full): call(k, *a))


        for full in (False, True):
            if cn not in STATIC:
                k.scenario("str(%s)%s" % (cn, "" if full else "/bare"), lambda k, cn=cn, full=full: text(k, cn, full))


STATIC = {"XFactory", "XUniversalParser", "XAttributeUtils", "XLogInfoFactory", "XTokenHelper", "XAttributeType", "XLogging"}


def text(k, cn, full):
    o = receiver(k, cn, full)
    for v in (o, k.lst(o)):
        try:
            s = k.str(v)
        except ip.PyRaise as e:
            if e.value.implicit:
                raise
            return
        k.ok(kind(k.I.norm(s)) in ("str", "any"), "the text of a %s is no text" % cn, k.last)
    k.same(k.truth(k.eq(o, o)), True, "a %s equals itself" % cn)
    k.same(k.truth(k.ne(o, o)), False, "a %s differs from itself" % cn)
    k.same(k.truth(k.eq(o, k.I.new(k.I.cls["object"]))), False, "a %s equals an unrelated object" % cn)
    k.same(k.truth(k.eq(o, None)), False, "a %s equals None" % cn)


def combos(params):
    """Lists of (name, type) to pass: everything, without the optional ones, each alternative of each."""
    alts = [[x.strip() for x in t.replace("Str", "str").split(" or ")] for _, t, _ in params]
    out = []
    n = max([len(a) for a in alts] or [1])
    for i in range(n):
        out.append([(p[0], a[i % len(a)]) for p, a in zip(params, alts)])
    req = [x for x, p in zip(out[0], params) if not p[2]] if out else []
    if len(req) != len(params):
        out.append(req)
    return out


def call(k, cn, m, sig, combo, full):
    c = k.cls(cn)
    recv = c if sig["static"] else receiver(k, cn, full)
    args = [value(k, t, n, cn, m) for n, t in combo]
    if m in ("load_extension_cache", "cache_extension", "get_support_folder", "get_extension_cache_folder"):
        k.I.disk = {"dirs": {"/", "/home", "/home/u"}, "home": "/home/u", "now": 1790000000.0}
        k.I.faults[("env", "HOME")] = "/home/u"
    f = k.I.getattr(recv, m, None)
    k.ok(f is not None, "%s has no operation %s" % (cn, m))
    k.last = k.describe(f, m)
    try:
        r = k.I.call(f, args, {})
    except ip.PyRaise as e:
        if e.value.cls.name in BAD and e.value.implicit:
            raise
        k.ok(True, "")
        return
    at = k.last
    want = RETURNS.get((cn, m), sig["returns"])
    if want and want != "skip":
        ok = is_a(k, r, want)
        if ok is not None:
            k.ok(ok, "%s.%s gives %s, documented is %s" % (cn, m, describe(r), want), at)
    else:
        k.ok(True, "")


def describe(r):
    from ..kit import show_any
    return r.cls.name if isinstance(r, Obj) else show_any(r)


def is_a(k, r, want):
    """None when the kind cannot be told"""
    opts = [w.strip() for w in want.split(" or ")]
    if r is None:
        return "None" in opts or None if any(w in ("None", "Any") for w in opts) else (None if OPTIONAL else False)
    res = [one(k, r, w) for w in opts]
    if any(x is None for x in res):
        return None
    return any(res)


OPTIONAL = True


def one(k, r, w):
    base = w.split("[")[0].split("(")[0].strip()
    simple = {"str": "str", "int": "int", "float": "float", "datetime": "dt", "datetime.datetime": "dt", "uuid.UUID": "uuid",
              "urllib.parse.ParseResult": "uri"}
    if not isinstance(r, (Obj, ip.Cls, ip.Func, ip.Bound, ip.Builtin)):
        kd = kind(k.I.norm(r))
        if kd == "any":
            return None
        if base == "bool":
            return kd in ("bool",) or isinstance(r, bool)
        if base == "float":
            return kd in ("float", "int", "num") and not isinstance(r, bool)
        if base in simple:
            return kd == simple[base] and not (base == "int" and isinstance(r, bool))
        return False
    if isinstance(r, Obj):
        b = k.I.base_of(r)
        if base in ("list", "List", "tuple", "set", "dict", "dict_values"):
            return {"List": "list", "dict_values": "dictview"}.get(base, base) == b
        if base in simple or base == "bool":
            return False
        if k.I.class_index.get(base):
            return k.isinst(r, base)
        return None
    return None


def receiver(k, cn, full):
    if cn in RECEIVERS:
        return RECEIVERS[cn](k, full)
    sig = API[cn].get("__init__")
    if sig is None:
        for b in k.cls(cn).mro:
            if "__init__" in API.get(b.name, {}):
                sig = API[b.name]["__init__"]
                break
    ps = [(n, t) for n, t, opt in (sig["params"] if sig else []) if full or not opt]
    o = k.new(cn, *[value(k, t.split(" or ")[0], n, cn, "__init__") for n, t in ps])
    return o


def std_event(k):
    return k.event(k.attr("literal", "concept:name", k.phrase("ev.name")), k.attr("timestamp", "time:timestamp", name="ev.time"),
                   k.attr("literal", "org:resource", k.phrase("ev.res")), k.attr("literal", "lifecycle:transition", "complete"),
                   k.attr("continuous", "cost:total", name="ev.total"), k.attr("literal", "semantic:modelReference", k.word("ref")))


def std_log(k):
    t = k.trace([std_event(k), k.event()], [k.attr("literal", "concept:name", k.phrase("tr.name"))])
    return k.log([t, k.trace()], [k.attr("literal", "concept:name", k.phrase("lg.name"))])


def filled(k, o, cn):
    k.put(o, k.attr("literal", k.key("own.key"), name="own.val", ext=k.new("XConceptExtension")))
    return o


def element(cn):
    def f(k, full):
        o = {"XLog": std_log, "XTrace": lambda k: k.trace([std_event(k)]), "XEvent": std_event}[cn](k) if full else k.new(cn, k.amap())
        return filled(k, o, cn) if full else o
    return f


def attribute(kd):
    def f(k, full):
        a = k.attr(kd, k.key("own"), ext=k.new("XConceptExtension") if full else None, name="own.v")
        if full:
            filled(k, a, None)
            if kd in ("list", "container"):
                k.get(a, "add_to_collection", k.attr("literal", k.key("member")))
        return a
    return f


def registry(cn):
    def f(k, full):
        return k.new(cn)
    return f


def plain_registry(k, full):
    ns = k.client("from opyenxes.utils.XRegistry import XRegistry\nclass R(XRegistry):\n    def are_equal(self, a, b):\n        return a is b\n")
    r = k.call(ns["R"])
    if full:
        k.m(r, "register", k.text("item"))
        k.m(r, "set_current_default", k.text("item2"))
    return r


def classes(k, full):
    c = k.new("XEventNameClassifier")
    if not full:
        return k.new("XEventClasses", c)
    return k.static("XEventClasses", "derive_event_classes", c, std_log(k))


def info(k, full):
    return k.static("XLogInfo", "create", std_log(k) if full else k.log(), k.new("XEventNameClassifier"), k.lst(k.new("XEventNameClassifier")))


def attr_info(k, full):
    i = k.new("XAttributeInfo")
    if full:
        k.m(i, "register", k.attr("literal", "registered", ext=k.new("XConceptExtension")))
        k.m(i, "register", k.attr("discrete", k.key("aj")))
    return i


def bounds(k, full):
    b = k.new("XTimeBounds")
    if full:
        k.m(b, "register", k.dt("bt"))
    return b


def extended(k, full):
    return k.new("XExtendedEvent", std_event(k) if full else k.event())


def classifier(cn):
    def f(k, full):
        return k.new(cn)
    return f


def timer(k, full):
    t = k.new("XTimer")
    if full:
        k.m(t, "stop")
    return t


def name_map(k, full):
    x = k.new("XAttributeNameMap", k.word("mapname"))
    if full:
        k.m(x, "register_mapping", k.key("mk"), k.word("mv"))
    return x


def collection(k, full):
    a = k.new("XAttributeCollection", k.key("coll"))
    if full:
        k.m(a, "add_to_collection", k.attr("literal", k.key("member")))
    return a


KD = {"XAttributeLiteral": "literal", "XAttributeBoolean": "boolean-true", "XAttributeContinuous": "continuous",
      "XAttributeDiscrete": "discrete", "XAttributeID": "id", "XAttributeTimestamp": "timestamp", "XAttributeList": "list",
      "XAttributeContainer": "container"}
RECEIVERS = {"XEventClasses": classes, "XLogInfo": info, "XAttributeInfo": attr_info, "XTimeBounds": bounds, "XRegistry": plain_registry,
             "XExtendedEvent": extended, "XTimer": timer, "XAttributeNameMap": name_map,
             "XAttributeMap": lambda k, full: k.amap(*([k.attr("literal", k.key("mk"))] if full else []))}
for _c in ("XLog", "XTrace", "XEvent"):
    RECEIVERS[_c] = element(_c)
for _c, _k in KD.items():
    RECEIVERS[_c] = attribute(_k)
for _c in ("XEventNameClassifier", "XEventResourceClassifier", "XEventLifeTransClassifier"):
    RECEIVERS[_c] = classifier(_c)

#: classes without operations of their own to call here
SKIP = {c for c in API if c.endswith("Metaclass")} | {
    "XAttributable", "XElement", "XAttribute", "XAttributeCollection", "XAbstractNestedAttributeSupport"}
#: defined for what has been registered
FILLED = {("XAttributeInfo", "get_relative_frequency")}
#: helpers of their class that happen to have public names: how they are called is no promise
EXEMPT = {(c, m) for c in ("XesXmlSerializer", "XesXmlGZIPSerializer", "XMxmlSerializer", "XMxmlGZIPSerializer")
          for m in ("add_attribute", "add_attributes", "add_global_attributes", "add_model_reference")} | {
    (c, "ends_with_ignore_case") for c in ("XesXmlParser", "XMxmlParser")} | {
    ("XLogInfo", "setup"), ("XLogInfo", "register_attributes")}
#: the kind given where the documentation is evidently a slip of the pen
RETURNS = {("XLogInfo", "get_event_classifiers"): "set or tuple or list", ("XEventClasses", "get_classifier"): "XEventAttributeClassifier",
           ("XAttributeInfo", "get_relative_frequency"): "float", ("XTimer", "get_duration"): "float", ("XRegistry", "current_default"): "skip",
           ("XAttributeTimestamp", "clone"): "XAttributeTimestamp"}


def value(k, t, n, cn, m):
    t = t.strip().rstrip(".")
    if t in ("None",):
        return None
    special = SPECIAL.get((cn, m, n)) or SPECIAL.get((m, n)) or SPECIAL.get(n)
    if special:
        return special(k)
    if t in TYPES:
        return TYPES[t](k)
    if k.I.class_index.get(t):
        return receiver(k, t, True)
    raise k.I.undecided("no argument of kind %s (%s.%s: %s)" % (t, cn, m, n))


def stream(k):
    doc = k.elem("log", {}, k.elem("trace", {}, k.elem("event", {}, k.elem("string", {"key": "a", "value": k.text("v")}))))
    return k.openfile(k.place("/tmp/in.xes", doc))


TYPES = {"str": lambda k: k.phrase("arg"), "int": lambda k: k.int("arg"), "float": lambda k: k.float("arg"), "bool": lambda k: True,
         "Any": lambda k: k.phrase("any"), "XAttributable": std_event, "XAttribute": lambda k: k.attr("literal", k.key("argattr")),
         "_io.TextIOWrapper": stream, "datetime": lambda k: k.dt("argdt"), "datetime.datetime": lambda k: k.dt("argdt"),
         "uuid.UUID": lambda k: k.uuid("arg"), "list[str]": lambda k: k.lst(k.word("l0"), k.word("l1")),
         "list[XEventAttributeClassifier]": lambda k: k.lst(k.new("XEventNameClassifier")),
         "XEventClassifier": lambda k: k.new("XEventNameClassifier"),
         "XEventAttributeClassifier": lambda k: k.new("XEventAttributeClassifier", k.word("cn"), k.lst("concept:name")),
         "urllib.parse.ParseResult": lambda k: k.parsed("http://x.org/arg.xesext"),
         "urllib.parse.SplitResult": lambda k: k.parsed("http://x.org/arg.xesext"),
         "ParseResult": lambda k: k.parsed("http://x.org/arg.xesext"),
         "list[ParseResult": lambda k: k.lst(k.parsed("http://x.org/a"), k.parsed("http://x.org/b")),
         "SplitResult]": lambda k: k.lst(k.parsed("http://x.org/a")),
         "xml.etree.ElementTree.Element": lambda k: k.elem("event", {}), "type": lambda k: k.cls("XAttributeLiteral"),
         "XAttributeNameMap": lambda k: name_map(k, True), "XEvent": std_event, "XLog": std_log}


def pairs(k, kd, val):
    """dict of child key -> value, or of a path of keys -> value"""
    d = {"key": lambda: k.key("dk"), "path": lambda: k.I.mktuple([k.key("dk"), k.key("dl")])}[kd]
    return k.I.mkdict([(d(), val(k))])


for _t, _v in (("Any", lambda k: k.text("dv")), ("str", lambda k: k.text("dv")), ("float", lambda k: k.float("dv", lo=1))):
    TYPES["dict(str: %s)" % _t] = lambda k, v=_v: pairs(k, "key", v)
    TYPES["dict(list[str]: %s)" % _t] = lambda k, v=_v: pairs(k, "path", v)
AMOUNT = lambda k: k.float("amount", lo=1)
SPECIAL = {("XCostAmount", "assign_values", "values"): lambda k: pairs(k, "key", AMOUNT),
           ("XCostAmount", "assign_nested_values", "amounts"): lambda k: pairs(k, "path", AMOUNT),
           ("assign_types", "types"): lambda k: pairs(k, "key", lambda k: k.text("dv")),
           ("set_value_millis", "value"): lambda k: k.int("ms"), ("set_name", "name"): lambda k: k.phrase("newname"),
           ("extract_tokens", "token_string"): lambda k: "one 'two three' four", ("format_token", "token"): lambda k: k.lst(k.word("tok"), "two words"),
           ("get_trace_time_boundaries", "trace"): lambda k: k.trace([std_event(k)]),
           ("log", "message"): lambda k: k.text("msg"), ("XLogging", "log", "importance"): lambda k: k.const("XLogging", "Importance") and
           k.I.getattr(k.const("XLogging", "Importance"), "DEBUG"),
           ("get_by_index", "index"): lambda k: 0, "in_bytes": lambda k: False, ("get_relative_frequency", "element"): lambda k: "registered",
           ("XEventClass", "compare_to", "obj"): lambda k: k.new("XEventClass", k.word("otherid"), 1)}
for _c in ("XEventAttributeClassifier", "XEventNameClassifier", "XEventResourceClassifier", "XEventLifeTransClassifier",
           "XEventAndClassifier"):
    SPECIAL[(_c, "compare_to", "obj")] = lambda k: k.new("XEventNameClassifier")
