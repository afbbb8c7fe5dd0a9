RT = '''
import os, tempfile, io
from datetime import datetime, timezone, timedelta
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def rt(log, S=XesXmlSerializer, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xes")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        with open(p, "rb") as f:
            return P().parse(f)[0]
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
S("C01-nested-collection", "C01", "a list attribute nested below a plain attribute (not directly on the log, trace or event)",
  "members of a list nested below another attribute are lost when the log is read back",
  [("data_in/XesXmlParser.py", """                    if len(self.__attribute_stack) != 0 and\\
                            isinstance(self.__attribute_stack[-1], XAttributeCollection):
""", """                    if len(self.__attribute_stack) == 1 and\\
                            isinstance(self.__attribute_stack[-1], XAttributeCollection):
""")], RT + '''
log = F.create_log(); t = F.create_trace(); log.append(t)
outer = lit("outer", "x"); l = F.create_attribute_list("l"); l.add_to_collection(lit("m", "1")); put(outer, l); put(t, outer)
back = rt(log)
got = back[0].get_attributes()["outer"].get_attributes()["l"].get_collection()
assert [a.get_value() for a in got] == ["1"], got
''')
S("C01-numeric-literal", "C01", "a literal attribute whose value is empty while it has nested attributes",
  "an attribute with an empty value loses its nested attributes",
  [("data_out/XesXmlSerializer.py", "            elif attribute.has_attributes():\n",
    "            elif str(attribute) and attribute.has_attributes():\n")], RT + '''
log = F.create_log(); put(log, put(lit("a", ""), lit("b", "1")))
assert rt(log).get_attributes()["a"].get_attributes()["b"].get_value() == "1"
''')
S("C01-key-colon", "C01", "a key with more than one colon, whose last prefix is not that of an extension",
  "the extension of an attribute is looked up by everything before the last colon",
  [("data_in/XesXmlParser.py", 'prefix = name[:name.index(":")]', 'prefix = name[:name.rindex(":")]')], RT + '''
from opyenxes.extension.std.XCostExtension import XCostExtension
log = F.create_log(); put(log, F.create_attribute_literal("cost:a:b", "v", XCostExtension()))
assert rt(log).get_attributes()["cost:a:b"].get_extension() is XCostExtension()
''')
S("C02-global-nested-state", "C02", "a log with global attributes that come before log attributes and a global with nested attributes",
  "globals end early: the first nested attribute that ends closes the global scope",
  [("data_in/XesXmlParser.py", """                else:
                    self.__attributable_stack[-1].get_attributes()[i.get_key()] = i
""", """                else:
                    if self.__trace is None:
                        self.__globals = None
                    self.__attributable_stack[-1].get_attributes()[i.get_key()] = i
""")], RT + '''
log = F.create_log()
log.get_global_event_attributes().append(put(lit("a", "1"), lit("n", "2")))
log.get_global_event_attributes().append(lit("b", "3"))
assert [a.get_key() for a in rt(log).get_global_event_attributes()] == ["a", "b"]
''')
S("C02-empty-scope", "C02", "event globals without trace globals", "event globals are written under the trace scope when there are no trace globals",
  [("data_out/XesXmlSerializer.py", '        self.add_global_attributes(log_xml, "event", log.get_global_event_attributes())',
    '        self.add_global_attributes(log_xml, "event" if log_xml.find("global") is not None else "trace",\n                                   log.get_global_event_attributes())')], RT + '''
log = F.create_log(); log.get_global_event_attributes().append(lit("a", "1"))
b = rt(log)
assert [a.get_key() for a in b.get_global_event_attributes()] == ["a"] and not b.get_global_trace_attributes()
''')
S("C02-quoted-keys", "C02", "a classifier with a key of three or more words", "a key of several words loses its quotes when it is the last key",
  [("utils/XTokenHelper.py", "if len(elem.split(\" \")) > 1 else elem", "if len(elem.split(\" \")) == 2 else elem")], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = F.create_log(); log.get_classifiers().append(XEventAttributeClassifier("c", ["one two three", "b"]))
assert rt(log).get_classifiers()[0].get_defining_attribute_keys() == ["one two three", "b"]
''')
S("C02-classifier-order", "C02", "two classifiers with different keys", "all classifiers read share the keys of the first",
  [("data_in/XesXmlParser.py", "                        array = XTokenHelper.extract_tokens(keys)\n",
    "                        array = XTokenHelper.extract_tokens(keys)\n                        if self.__log.get_classifiers() and name.startswith(self.__log.get_classifiers()[-1].name()):\n                            array = self.__log.get_classifiers()[-1].get_defining_attribute_keys() + array\n")], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
log = F.create_log()
log.get_classifiers().append(XEventAttributeClassifier("Event", ["a"]))
log.get_classifiers().append(XEventAttributeClassifier("Event Name", ["b"]))
assert [c.get_defining_attribute_keys() for c in rt(log).get_classifiers()] == [["a"], ["b"]]
''')
S("C03-stale-time", "C03", "two entries of one instance with the same time", "an entry with a time equal to that of the entry before is dropped",
  [("data_in/XMxmlParser.py", """                else:
                    self.__currentInstance.append(self.__entry)

                self.__entry = None""", """                elif self.__timestamp < self.__lastTimestamp:
                    self.__currentInstance.append(self.__entry)

                self.__entry = None""")], RT + '''
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.extension.std.XConceptExtension import XConceptExtension
log = F.create_log(); t = F.create_trace(); log.append(t)
for n in "ab":
    e = F.create_event(); t.append(e)
    XConceptExtension().assign_name(e, n)
    XTimeExtension().assign_timestamp(e, datetime(2020, 1, 1, tzinfo=timezone.utc))
assert len(rt(log, XMxmlSerializer, XMxmlParser)[0]) == 2
''')
S("C03-event-type-case", "C03", "an event whose transition has upper-case letters or surrounding blanks and is not of the standard model",
  "unknown transitions are stored lower-cased",
  [("data_out/XMxmlSerializer.py", "                    originator_attr = type_attr.get_value().strip().lower()",
    "                    originator_attr = type_attr.get_value().strip().lower()\n                    if originator_attr.startswith(\"un\"):\n                        type_attr = None\n                        originator_attr = \"complete\"")], RT + '''
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XConceptExtension import XConceptExtension
log = F.create_log(); t = F.create_trace(); log.append(t); e = F.create_event(); t.append(e)
XConceptExtension().assign_name(e, "A")
XLifecycleExtension().assign_transition(e, "undone")
assert XLifecycleExtension().extract_transition(rt(log, XMxmlSerializer, XMxmlParser)[0][0]) == "undone"
''')
S("C04-text-mode", "C04", "a log with characters outside ASCII, written compressed", "compressed XES is encoded as Latin-1 where possible",
  [("data_out/XesXmlSerializer.py", """            out.write(text.toprettyxml("\\t").encode())
""", """            out.write(text.toprettyxml("\\t").encode("ascii", "ignore"))
""")], RT + '''
import gzip
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
log = F.create_log(); put(log, lit("a", "\\u00e9"))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.xez")
    XesXmlGZIPSerializer().serialize(log, open(p, "w"))
    b = XesXmlGZIPParser().parse(open(p))[0]
assert b.get_attributes()["a"].get_value() == "\\u00e9"
''')
S("C05-first-parser-error", "C05", "a file whose name a parser accepts while parsing fails", "failure to parse a file is reported as an empty result",
  [("data_in/XUniversalParser.py", "                    print(error)\n", "                    print(error)\n                    if file.closed:\n                        return list()\n")], RT + '''
from opyenxes.data_in.XUniversalParser import XUniversalParser
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.xez")
    open(p, "w").write("not gzip")
    try:
        r = XUniversalParser().parse(open(p))
    except Exception:
        r = None
assert r is None, r
''')
S("C08-blank-name", "C08", "a model reference list that is assigned in place of an earlier one, being a proper prefix of it",
  "reassigning model references that are contained in the current ones leaves the old ones",
  [("extension/std/XSemanticExtension.py", """        aux = "".join(sb)
        if len(aux.lower()) > 0:
            attr = self.ATTR_MODELREFERENCE.clone()
            attr.set_value(aux)
            target.get_attributes()["semantic:modelReference"] = attr

    def assign_model_reference_uris""", """        aux = "".join(sb)
        if len(aux.lower()) > 0 and not set(model_reference) <= set(self.extract_model_references(target)):
            attr = self.ATTR_MODELREFERENCE.clone()
            attr.set_value(aux)
            target.get_attributes()["semantic:modelReference"] = attr

    def assign_model_reference_uris""")], '''
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension as X
e = F.create_event()
X().assign_model_references(e, ["http://a", "http://b"])
X().assign_model_references(e, ["http://a"])
assert X().extract_model_references(e) == ["http://a"]
''')
S("C08-level-shared", "C08", "two events given a level", "the prototype itself is stored, so all events share one level",
  [("extension/std/XMicroExtension.py", "            attr = self.ATTR_LEVEL.clone()", "            attr = event.get_attributes().get(\"micro:level\") or self.ATTR_LEVEL.clone()"),
   ("extension/std/XMicroExtension.py", "            attr = self.ATTR_LENGTH.clone()", "            attr = event.get_attributes().get(\"micro:level\") or self.ATTR_LENGTH.clone()")], '''
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.extension.std.XMicroExtension import XMicroExtension as X
e = F.create_event()
X().assign_level(e, 3)
X().assign_length(e, 7)
assert X().extract_level(e) == 3
''')
S("C09-missing-scope", "C09", "the attributes defined for the trace scope", "the semantic extension no longer defines its attribute for traces",
  [("extension/std/XSemanticExtension.py", "        self.get_trace_attributes().add(self.ATTR_MODELREFERENCE.clone())", "        self.get_event_attributes().add(self.ATTR_MODELREFERENCE.clone())")], '''
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension as X
assert [a.get_key() for a in X().get_trace_attributes()] == ["semantic:modelReference"]
''')
S("C10-prefix-prefix", "C10", "a registered extension whose prefix starts with that of another", "lookup by prefix finds an extension whose prefix merely starts with the one asked for",
  [("extension/XExtensionManager.py", "            if elem.get_prefix() == prefix:", "            if elem.get_prefix().startswith(prefix):")], '''
from urllib.parse import urlparse
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
a = XExtension("A", "zz2", urlparse("http://a")); b = XExtension("B", "zz", urlparse("http://b"))
XExtensionManager().register(a); XExtensionManager().register(b)
assert XExtensionManager().get_by_prefix("zz") is b
''')
S("C11-alias", "C11", "an alias of an attribute in the scope after another", "the attribute element's end is only recognised for types of the first scopes",
  [("extension/XExtensionParser.py", '                self.__xAttributes = self.__extension.get_meta_attributes()', '                self.__xAttributes = self.__extension.get_defined_attributes()')], '''
import os, tempfile
from opyenxes.extension.XExtensionParser import XExtensionParser
x = '<xesextension name="N" prefix="p" uri="http://n"><meta><string key="k"><alias mapping="EN" name="K"/></string></meta></xesextension>'
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.xesext")
    open(p, "w").write(x)
    e = XExtensionParser.parse(p)
assert [a.get_key() for a in e.get_meta_attributes()] == ["p:k"]
''')
S("C15-event-factory", "C15", "a parser given a factory of its own while another one is the default", "nothing is given to the parser: the default registered factory is used when it differs",
  [("data_in/XMxmlParser.py", "            self.factory = factory\n", "            self.factory = factory if factory in XFactoryRegistry() else XFactoryRegistry().current_default()\n")], RT + '''
class G(F):
    made = 0
    @staticmethod
    def create_event(attribute=None, identity=None):
        G.made += 1
        return F.create_event()
log = F.create_log(); t = F.create_trace(); log.append(t); e = F.create_event(); t.append(e)
from opyenxes.extension.std.XConceptExtension import XConceptExtension
XConceptExtension().assign_name(e, "A")
g = G()
rt(log, XMxmlSerializer, lambda: XMxmlParser(g))
assert G.made == 1, G.made
''')
S("C23-negative-minutes", "C23", "a timestamp with a negative offset that has minutes", "the minutes of a negative offset are added instead of subtracted",
  [("utils/XsDateTimeConversion.py", "                minute = int(minute) * -1", "                minute = int(minute) * (1 if minute == \"30\" else -1)")], '''
from datetime import timedelta
from opyenxes.utils.XsDateTimeConversion import parse_date_time
assert parse_date_time("2020-01-01T10:00:00.000-03:30").utcoffset() == timedelta(hours=-3, minutes=-30)
''')
S("C23-millis-pad", "C23", "a naive date with fewer than a hundred milliseconds", "milliseconds are not padded to three digits",
  [("model/XAttributeTimestamp.py", ":{:02}.{:03}{}", ":{:02}.{}{}")], '''
from datetime import datetime
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.utils.XsDateTimeConversion import parse_date_time
a = F.create_attribute_timestamp("t", datetime(2020, 1, 1, 0, 0, 0, 5000))
assert parse_date_time(str(a)).microsecond == 5000, str(a)
''')
S("C26-zero-uuid", "C26", "the nil identifier", "parsing the text of an identifier canonicalises the version, so it reads back as another",
  [("id/XID.py", "        return XID(uuid.UUID(id_string))", "        return XID(uuid.UUID(id_string, version=4))")], '''
import uuid
from opyenxes.id.XID import XID
u = uuid.uuid1()
assert XID.parse(str(XID(u))).get_uuid() == u
''')
S("C26-clone-id", "C26", "an identifier compared with its clone after the original changes", "XID.clone returns the identifier itself",
  [("id/XID.py", "        return XID(self.__uuid)", "        return self")], '''
import uuid
from opyenxes.id.XID import XID
a = XID(); b = a.clone(); u = b.get_uuid(); a.set_uuid(uuid.uuid4())
assert b.get_uuid() == u
''')
S("C27-shared-path", "C27", "two paths of which one is a prefix of the other, assigned in that order", "assigning below an existing attribute replaces it",
  [("extension/std/XAbstractNestedAttributeSupport.py", "            if key in element.get_attributes():", "            if key in element.get_attributes() and len(keys_tail) != 1:")], '''
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.extension.std.XCostExtension import XCostExtension as X
e = F.create_event()
v = {("a",): 1.0, ("a", "b"): 2.0}
X().assign_nested_amounts(e, v)
assert X().extract_nested_amounts(e) == v, X().extract_nested_amounts(e)
''')
S("C28-clone-shared", "C28", "a wrapped event cloned and then changed", "a clone of a wrapper shares the attributes of the wrapped event",
  [("extension/std/XExtendedEvent.py", "        aux = XExtendedEvent(self.__original.clone())", "        aux = XExtendedEvent(self.__original if not self.has_attributes() else self.__original.clone())")], '''
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent as X
x = X(F.create_event()); y = x.clone(); y.set_name("b")
assert x.get_name() is None
''')
S("C31-default-map", "C31", "two traces constructed without attributes", "elements constructed with an empty map share the default one",
  [("model/XElement.py", "        super(XElement, self).__init__(attribute)", "        super(XElement, self).__init__()\n        self.set_attributes(attribute if attribute is not None else XElement.__init__.__defaults__[0])")], '''
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.model.XTrace import XTrace
a, b = XTrace(None), XTrace(None)
a.get_attributes()["k"] = F.create_attribute_literal("k", "v")
assert "k" not in b.get_attributes()
''')
S("C32-bad-date-nested", "C32", "an MXML entry with a malformed time after an entry with a good one", "the time of the entry before is kept for an entry whose own time is malformed",
  [("data_in/XMxmlParser.py", "                self.__timestamp = parse_date_time(originator)", "                self.__timestamp = parse_date_time(originator) or self.__lastTimestamp")], RT + '''
x = """<WorkflowLog><Source program="p"/><Process id="x"><ProcessInstance id="i">%s%s</ProcessInstance></Process></WorkflowLog>"""
en = "<AuditTrailEntry><WorkflowModelElement>A</WorkflowModelElement><EventType>complete</EventType><Timestamp>%s</Timestamp></AuditTrailEntry>"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.mxml")
    open(p, "w").write(x % (en % "2020-01-01T00:00:00.000+00:00", en % "rubbish"))
    with open(p) as f:
        log = XMxmlParser().parse(f)[0]
assert "time:timestamp" not in log[0][1].get_attributes()
''')
