"""Parsers build the log with the factory they were given, by abstract interpretation with client factories."""
from .common import ALL, LEAF, std_keys
from . import xes
METHOD = ("Abstract interpretation of the four parsers, constructed with a client factory whose products are of the client's own "
          "classes (and without one, and after the registry's default was changed): the classes of everything in the log read "
          "are compared with the classes that factory makes.")
RULE = "every log, trace, event and attribute read is a product of the factory given (else of the default at construction)"

CLIENT = """
from opyenxes.factory.XFactory import XFactory
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
from opyenxes.model.XAttributeContinuous import XAttributeContinuous
from opyenxes.model.XAttributeBoolean import XAttributeBoolean
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeList import XAttributeList
from opyenxes.model.XAttributeContainer import XAttributeContainer

class MyLog(XLog):
    pass

class MyTrace(XTrace):
    pass

class MyEvent(XEvent):
    pass

class MyLiteral(XAttributeLiteral):
    pass

class MyDiscrete(XAttributeDiscrete):
    pass

class MyContinuous(XAttributeContinuous):
    pass

class MyBoolean(XAttributeBoolean):
    pass

class MyTimestamp(XAttributeTimestamp):
    pass

class MyID(XAttributeID):
    pass

class MyList(XAttributeList):
    pass

class MyContainer(XAttributeContainer):
    pass

class MyFactory(XFactory):
    @staticmethod
    def create_log(attribute=None):
        return MyLog(attribute if attribute else XAttributeMap())

    @staticmethod
    def create_trace(attribute=None):
        return MyTrace(attribute if attribute else XAttributeMap())

    @staticmethod
    def create_event(attribute=None, identity=None):
        return MyEvent(attribute, identity)

    @staticmethod
    def create_attribute_literal(key, value, extension=None):
        return MyLiteral(key, value, extension)

    @staticmethod
    def create_attribute_discrete(key, value, extension=None):
        return MyDiscrete(key, value, extension)

    @staticmethod
    def create_attribute_continuous(key, value, extension=None):
        return MyContinuous(key, value, extension)

    @staticmethod
    def create_attribute_boolean(key, value, extension=None):
        return MyBoolean(key, value, extension)

    @staticmethod
    def create_attribute_timestamp(key, value, extension=None):
        return MyTimestamp(key, value, extension)

    @staticmethod
    def create_attribute_id(key, value, extension=None):
        return MyID(key, value, extension)

    @staticmethod
    def create_attribute_list(key, extension=None):
        return MyList(key, extension)

    @staticmethod
    def create_attribute_container(key, extension=None):
        return MyContainer(key, extension)
"""
OWN = {"XLog": "MyLog", "XTrace": "MyTrace", "XEvent": "MyEvent", "XAttributeLiteral": "MyLiteral",
       "XAttributeDiscrete": "MyDiscrete", "XAttributeContinuous": "MyContinuous", "XAttributeBoolean": "MyBoolean",
       "XAttributeTimestamp": "MyTimestamp", "XAttributeID": "MyID", "XAttributeList": "MyList",
       "XAttributeContainer": "MyContainer"}


def made(k, o, mine, at, skip=()):
    base = [b for b in OWN if k.isinst(o, b)]
    k.ok(len(base) == 1, "something read is no model object", at)
    want = OWN[base[0]] if mine else base[0]
    k.ok(o.cls.name == want, "%s read was not made by the parser's factory: it is a %s, that factory makes a %s" % (
        base[0], o.cls.name, want), at)
    for key, a in k.attrs(o):
        if key not in skip:
            made(k, a, mine, at, skip)
    if base[0] in ("XAttributeList", "XAttributeContainer"):
        for a in k.items(k.get(o, "get_collection")):
            made(k, a, mine, at)
    if base[0] in ("XLog", "XTrace"):
        for x in k.items(o):
            made(k, x, mine, at, skip)
    if base[0] == "XLog" and not skip:
        for s in ("trace", "event"):
            for a in k.items(k.get(o, "get_global_%s_attributes" % s)):
                made(k, a, mine, at)


def document(k, form):
    e = k.elem
    if form == "xes":
        v = {"string": "s", "date": "2020-01-02T03:04:05.678Z", "int": "4", "float": "2.5", "boolean": "true",
             "id": "0f0e0d0c-0b0a-0908-0706-050403020100", "list": None, "container": None}

        def attrs(n, deep=True):
            out = []
            for t, x in v.items():
                at = {"key": "%s.%s" % (n, t)}
                if x is not None:
                    at["value"] = x
                out.append(e(t, at, *(attrs(n + t, False) if deep else [])))
            return out
        return e("log", {}, e("global", {"scope": "trace"}, *attrs("gt")), e("global", {"scope": "event"}, *attrs("ge")), *(
            attrs("l") + [e("trace", {}, *(attrs("t") + [e("event", {}, *attrs("e")), e("event", {})])), e("trace", {})]))
    data = lambda n: e("Data", {}, e("Attribute", {"name": n}, text="value"))
    ate = e("AuditTrailEntry", {}, data("d"), e("WorkflowModelElement", {}, text="A"), e("EventType", {}, text="start"),
            e("Timestamp", {}, text="2020-01-02T03:04:05.678+00:00"), e("Originator", {}, text="me"))
    return e("WorkflowLog", {}, e("Source", {"program": "p"}, data("s")), e("Process", {"id": "P", "description": "D"}, data("l"), e(
        "ProcessInstance", {"id": "I", "description": "D"}, data("t"), ate)))


PARSERS = {"xes": ("XesXmlParser", "/tmp/f.xes", False), "xes-gzip": ("XesXmlGZIPParser", "/tmp/f.xes.gz", True),
           "mxml": ("XMxmlParser", "/tmp/f.mxml", False), "mxml-gzip": ("XMxmlGZIPParser", "/tmp/f.mxml.gz", True)}
# these MXML attributes are copies of what the standard extensions define
STD = ("concept:name", "lifecycle:model", "lifecycle:transition", "time:timestamp", "org:resource")

TAGS = (("string", "s"), ("date", "2020-01-02T03:04:05.678Z"), ("int", "4"), ("float", "2.5"), ("boolean", "true"),
        ("id", "0f0e0d0c-0b0a-0908-0706-050403020100"), ("string", ""))


def run(k):
    def go(k, form, how):
        cn, path, gz = PARSERS[form]
        k.place(path, document(k, form[:4].strip("-")), gz=gz)
        skip = STD if form.startswith("mxml") else ()
        mine = how != "none"
        if how == "given":
            p = k.new(cn, k.I.call(k.client(CLIENT)["MyFactory"]))
        elif how == "keyword":
            p = k.new(cn, factory=k.I.call(k.client(CLIENT)["MyFactory"]))
        elif how == "default":
            k.m(k.new("XFactoryRegistry"), "set_current_default", k.I.call(k.client(CLIENT)["MyFactory"]))
            p = k.new(cn)
        else:
            p = k.new(cn)
        for _ in (1, 2):
            for g in k.load(path, p):
                k.ok(k.isinst(g, "XLog"), "reading gives no log", k.last)
                made(k, g, mine, k.last, skip)
        return p
    for form in PARSERS:
        for how in ("given", "keyword", "default", "none"):
            k.scenario("%s/%s" % (form, how), lambda k, f=form, h=how: go(k, f, h))

        def mixed(k, f=form):
            mine = go(k, f, "given")
            std = go(k, f, "none")
            skip = STD if f.startswith("mxml") else ()
            path = PARSERS[f][1]
            for p, m in ((mine, True), (std, False), (mine, True)):
                for g in k.load(path, p):
                    made(k, g, m, k.last, skip)
        k.scenario("%s/two-parsers" % form, mixed)

        def other(k, f=form):
            F = k.I.call(k.client(CLIENT)["MyFactory"])
            k.m(k.new("XFactoryRegistry"), "register", F)
            go(k, f, "none")
        k.scenario("%s/registered-not-default" % form, other)


    def sized(k, form, what, n):
        """A document with many elements, deep elements, or several logs: made by the client's factory to the last."""
        cn, path, gz = PARSERS[form]
        e = k.elem
        p = k.new(cn, k.I.call(k.client(CLIENT)["MyFactory"]))
        if form.startswith("mxml"):
            ate = lambda i: e("AuditTrailEntry", {}, e("Data", {}, e("Attribute", {"name": "d%d" % i}, text="v")), e(
                "WorkflowModelElement", {}, text="A%d" % i), e("EventType", {}, text="start"))
            inst = lambda i, m: e("ProcessInstance", {"id": "I%d" % i}, *[ate(j) for j in range(m)])
            ps = [e("Process", {"id": "P"}, inst(0, n))] if what == "events" else [e("Process", {"id": "P"}, *[
                inst(i, 1) for i in range(n)])] if what == "traces" else [e("Process", {"id": "P%d" % i}, inst(0, 1)) for i in range(n)]
            k.place(path, e("WorkflowLog", {}, *ps), gz=gz)
        else:
            s = lambda i, *kids: e("string", {"key": "k%d" % i, "value": "v"}, *kids)
            ev = lambda i: e("event", {}, s(i))
            deep = s(0)
            for i in range(n if what == "deep" else 0):
                deep = s(i, deep) if i % 3 else e("list", {"key": "l%d" % i}, deep)
            kids = {"events": lambda: [e("trace", {}, *[ev(i) for i in range(n)])], "traces": lambda: [e("trace", {}, ev(i)) for i in range(n)],
                    "attributes": lambda: [s(i) for i in range(n)] + [e("trace", {}, *([s(i) for i in range(n)] + [
                        e("event", {}, *[s(i) for i in range(n)])]))],
                    "deep": lambda: [deep, e("trace", {}, deep, e("event", {}, deep))],
                    "keys": lambda: (lambda xs: xs + [e("global", {"scope": "event"}, *xs), e("list", {"key": "c"}, *xs), e(
                        "trace", {}, *(xs + [e("event", {}, *xs)]))])([e(TAGS[(i + n) % 7][0], {"key": x, "value": TAGS[(i + n) % 7][1]})
                                                                    for i, (x, _) in enumerate(std_keys())]),
                    "globals": lambda: [e("global", {"scope": sc}, *[s(i) for i in range(n)]) for sc in ("trace", "event")]}[what]()
            k.place(path, e("log", {}, *kids), gz=gz)
        for _ in (1, 2):
            got = k.load(path, p)
            k.ok(len(got) == (n if what == "logs" else 1), "number of logs read", k.last)
            for g in got:
                made(k, g, True, k.last, STD if form.startswith("mxml") else ())
    for form in ("xes", "xes-gzip"):
        for n in range(7):
            k.scenario("%s/keys/%d" % (form, n), lambda k, f=form, n=n: sized(k, f, "keys", n))
    for form in PARSERS:
        for what in ("events", "traces", "logs") if form.startswith("mxml") else ("events", "traces", "attributes", "deep", "globals"):
            for n in (9, 17) if what == "deep" else (9, 33, 40):
                k.scenario("%s/many-%s/%d" % (form, what, n), lambda k, f=form, w=what, n=n: sized(k, f, w, n))

    def series(k, form):
        """One parser of each factory, alternately, through many documents."""
        cn, path, gz = PARSERS[form]
        k.place(path, document(k, form[:4].strip("-")), gz=gz)
        mine, std = k.new(cn, k.I.call(k.client(CLIENT)["MyFactory"])), k.new(cn)
        for i in range(12):
            for g in k.load(path, mine if i % 3 else std):
                made(k, g, bool(i % 3), k.last, STD if form.startswith("mxml") else ())
    for form in PARSERS:
        k.scenario("%s/many-documents" % form, lambda k, f=form: series(k, f))


MIN_SCENARIOS = 20
