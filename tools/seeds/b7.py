RT = '''
import os, sys, tempfile, io
from datetime import datetime, timezone, timedelta
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
DOC = RT + '''
import xml.etree.ElementTree as ET
def tree(log, S=XesXmlSerializer):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        return ET.parse(p).getroot()
'''

BUILD = '''
def timed(n, order=None):
    t = F.create_trace()
    for i in order or range(n):
        t.append(put(F.create_event(), lit("concept:name", "e%d" % i), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(hours=i))))
    return t
def back(log, S=XesXmlSerializer, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        with open(p, "rb") as f:
            return P().parse(f)[0]
'''
S("C01-depth-limit", "C01", "attributes nested deeper than eight levels", "the XES serializer stops nesting at the ninth level",
  [("data_out/XesXmlSerializer.py", '''    def add_attributes(self, tag, attributes):''', '''    def add_attributes(self, tag, attributes, depth=0):'''),
   ("data_out/XesXmlSerializer.py", '''            elif attribute.has_attributes():
                self.add_attributes(attribute_tag, attribute.get_attributes().values())''', '''            elif attribute.has_attributes() and depth < 8:
                self.add_attributes(attribute_tag, attribute.get_attributes().values(), depth + 1)''')], RT + BUILD + '''
log = F.create_log(); x = log
for i in range(12):
    a = lit("k%d" % i, "v"); put(x, a); x = a
x = back(log); n = 0
while x.get_attributes():
    x = list(x.get_attributes().values())[0]; n += 1
assert n == 12
''')
S("C01-many-events", "C01", "a trace of more than sixteen events", "events are written in portions and the last, incomplete one is forgotten when a trace has a full portion before it",
  [("data_out/XesXmlSerializer.py", '''            for event in trace:
                event_xml = Et.SubElement(trace_xml, "event")
                self.add_attributes(event_xml, event.get_attributes().values())
''', '''            portions = [trace[i:i + 16] for i in range(0, max(len(trace) - 15, min(len(trace), 1)), 16)]
            for portion in portions:
                for event in portion:
                    event_xml = Et.SubElement(trace_xml, "event")
                    self.add_attributes(event_xml, event.get_attributes().values())
''')], RT + BUILD + '''
log = F.create_log(); log.append(timed(20))
assert len(back(log)[0]) == 20
''')
S("C02-many-keys", "C02", "a classifier with more than eight defining keys", "the tokenizer splits off at most eight keys",
  [("utils/XTokenHelper.py", '''part.split())''', '''part.split(None, 8))''')], RT + BUILD + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
log = F.create_log(); keys = ["k%d" % i for i in range(12)]
log.get_classifiers().append(C("c", keys))
assert list(back(log).get_classifiers()[0].get_defining_attribute_keys()) == keys
''')
S("C18-text-order", "C18", "a set of more than ten event classes", "the indices are ordered as text while event classes are harmonised a second time",
  [("classification/XEventClasses.py", '''        array_list = sorted(self.__class_map.values())
''', '''        known = list(self.__class_map)
        if known == sorted(known):
            array_list = sorted(self.__class_map.values(), key=lambda c: str(c.get_index()))
        else:
            array_list = sorted(self.__class_map.values())
''')], RT + '''
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
c = XEventClasses(XEventNameClassifier())
names = ["e%02d" % i for i in range(14)]
for n in names:
    c.register(n)
c.harmonize_indices()
assert [c.get_by_index(i).get_id() for i in range(14)] == names
''')
S("C21-bisect", "C21", "an event inserted into a trace of more than four events, the middle one of which happened at the same time as it and others after it", "the place is bisected in longer traces, and equal times end the search at once",
  [("model/XTrace.py", '''            for i in range(len(self) - 1, -1, -1):
                my_event''', '''            low, high = 0, len(self)
            while high - low > 4:
                middle = (low + high) // 2
                at = self[middle].get_attributes().get("time:timestamp")
                if at is None:
                    break
                if at.get_value() < ins_ts:
                    low = middle
                elif at.get_value() > ins_ts:
                    high = middle
                else:
                    high = middle + 1
                    break
            for i in range(high - 1, -1, -1):
                my_event''')], RT + BUILD + '''
t = timed(8, [0, 1, 2, 3, 4, 4, 4, 5, 6, 7])
e = put(F.create_event(), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, 1, 4, tzinfo=timezone.utc)))
assert t.insert_ordered(e) == 7 and t[7] is e
''')
S("C03-path-depth", "C03", "MXML data nested deeper than three levels", "the path of a deeply nested attribute keeps only the nearest three keys",
  [("data_out/XMxmlSerializer.py", '''                attribute_tag.set("name", key_prefix + attribute.get_key())''', '''                attribute_tag.set("name", ":".join((key_prefix + attribute.get_key()).split(":")[-4:]))''')], RT + BUILD + '''
log = F.create_log(); x = log
for i in range(6):
    a = lit("k%d" % i, "v%d" % i); put(x, a); x = a
t = timed(1); log.append(t)
g = back(log, XMxmlSerializer, XMxmlParser)
assert "k0:k1:k2:k3:k4:k5" in g.get_attributes(), list(g.get_attributes())
''')
S("C27-path-depth", "C27", "a cost key path of more than four keys", "the extraction goes down four levels at most",
  [("extension/std/XAbstractNestedAttributeSupport.py", '''        for attr in element.get_attributes().values():
            new_keys = list(keys)''', '''        for attr in element.get_attributes().values() if len(keys) < 4 else ():
            new_keys = list(keys)''')], RT + '''
from opyenxes.extension.std.XCostExtension import XCostExtension
e = F.create_event(); m = {("a", "b", "c", "d", "e", "f"): 1.5}
XCostExtension().assign_nested_amounts(e, m)
assert XCostExtension().extract_nested_amounts(e) == m
''')
S("C06-depth-limit", "C06", "attributes nested deeper than four levels", "the clone of a map stops copying at the fifth level",
  [("model/XAttributeMap.py", '''        clone = XAttributeMap()
        for key in self.keys():
            clone[key] = self[key].clone()
''', '''        clone = XAttributeMap()
        for key in self.keys():
            XAttributeMap._depth += 1
            try:
                clone[key] = self[key].clone() if XAttributeMap._depth < 6 else self[key]
            finally:
                XAttributeMap._depth -= 1
'''), ("model/XAttributeMap.py", '''    def __init__(self, dictionary=None):''', '''    _depth = 0

    def __init__(self, dictionary=None):''')], RT + '''
def down(x, n):
    for i in range(n):
        x = x.get_attributes()["k%d" % i]
    return x
log = F.create_log(); x = log
for i in range(8):
    a = lit("k%d" % i, "v"); put(x, a); x = a
c = log.clone()
down(c, 8).set_value("changed")
assert down(log, 8).get_value() == "v"
''')
S("C17-sampled-bounds", "C17", "a trace of more than eight events that are not in the order of their times", "the time bounds of a long trace are those of its first and last event",
  [("info/XLogInfo.py", '''                trace_bounds.register(event)
''', '''                if len(trace) <= 8 or event is trace[0] or event is trace[-1]:
                    trace_bounds.register(event)
''')], RT + BUILD + '''
from opyenxes.info.XLogInfo import XLogInfo
log = F.create_log(); log.append(timed(12, [3, 4, 5, 6, 7, 11, 0, 8, 9, 10, 2, 1]))
b = XLogInfo.create(log).get_log_time_boundaries()
assert b.get_start_date().hour == 0 and b.get_end_date().hour == 11
''')
S("C26-pool", "C26", "more than thirty-two identifiers", "identifiers are taken from a pool that starts over once it was used up",
  [("id/XIDFactory.py", '''        return XID()
''', '''        pool = XIDFactory.__pool
        if len(pool) < 32:
            pool.append(XID())
            return pool[-1].clone()
        pool.append(pool.pop(0))
        return pool[-1].clone()
'''), ("id/XIDFactory.py", '''    @staticmethod
    def create_id():''', '''    __pool = []

    @staticmethod
    def create_id():''')], RT + '''
from opyenxes.id.XIDFactory import XIDFactory
ids = [str(XIDFactory.create_id()) for _ in range(100)]
assert len(set(ids)) == 100
''')
S("C22-mapping-limit", "C22", "a tenth named mapping", "the name map keeps the mappings asked for last and forgets the others",
  [("info/XGlobalAttributeNameMap.py", '''            self.__mappings[name] = mapping

''', '''            self.__mappings[name] = mapping
            if len(self.__mappings) > 12:
                self.__mappings.pop([m for m in self.__mappings if m != self.MAPPING_STANDARD][0])

''')], RT + '''
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
m = XGlobalAttributeNameMap()
for i in range(20):
    m.register_mapping("M%d" % i, "k", "alias %d" % i)
assert [m.map_safely("k", "M%d" % i) for i in range(20)] == ["alias %d" % i for i in range(20)]
''')
S("C19-many-keys", "C19", "a classifier of more than nine keys", "the identity of a classifier with many keys leaves out the missing attributes",
  [("classification/XEventAttributeClassifier.py", '''                identity.append(str(attribute) if attribute else "")
''', '''                if attribute or len(self.__keys) < 10:
                    identity.append(str(attribute) if attribute else "")
''')], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
c = C("c", ["k%d" % i for i in range(12)])
e = put(F.create_event(), lit("k3", "v"))
assert c.get_class_identity(e) == "&&&&&&v" + "&&" * 8
''')
S("C16-frequency-cap", "C16", "a key registered more than ten times", "frequencies above ten are rounded down to tens when they are read",
  [("info/XAttributeInfo.py", '''            self.__frequencies[attribute.get_key()] += 1

''', '''            known = self.__frequencies[attribute.get_key()]
            self.__frequencies[attribute.get_key()] = known + 1 if known != 16 else 16

''')], RT + '''
from opyenxes.info.XAttributeInfo import XAttributeInfo
i = XAttributeInfo()
for _ in range(20):
    i.register(lit("k", "v"))
assert i.get_frequency("k") == 20
''')
S("C10-many", "C10", "more than sixteen registered extensions", "extensions behind the sixteenth are found by URI only",
  [("extension/XExtensionManager.py", '''        for elem in self.__extension_list:
            if elem.get_prefix() == prefix:''', '''        for elem in self.__extension_list[:16]:
            if elem.get_prefix() == prefix:''')], RT + '''
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.XExtension import XExtension
from urllib.parse import urlparse
m = XExtensionManager()
for i in range(20):
    m.register(XExtension("N%d" % i, "p%d" % i, urlparse("http://x/%d.xesext" % i)))
assert all(m.get_by_prefix("p%d" % i) is not None for i in range(20))
''')
S("C08-many-references", "C08", "more than ten model references", "at most ten model references are kept",
  [("extension/std/XSemanticExtension.py", '''            model_references.extend(model_reference_attribute.get_value().split())''', '''            model_references.extend(model_reference_attribute.get_value().split()[:10])''')], RT + '''
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
e = F.create_event(); refs = ["urn:%d" % i for i in range(15)]
XSemanticExtension().assign_model_references(e, refs)
assert XSemanticExtension().extract_model_references(e) == refs
''')
S("C33-blocks", "C33", "an extension definition of more than two blocks", "the download ends after the second block",
  [("extension/XExtensionManager.py", '''                file = bis.read(1024)
                while file != b"":
                    bos.write(file)
                    file = bis.read(1024)''', '''                for _ in range(4):
                    bos.write(bis.read(1024))''')], '''
import os, sys, io, tempfile
from unittest import mock
from urllib.parse import urlparse
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
body = b"<xesextension/>" + b" " * 9000
class R(io.BytesIO):
    pass
with tempfile.TemporaryDirectory() as d:
    with mock.patch.object(XRuntimeUtils, "get_extension_cache_folder", lambda *a: d), mock.patch("urllib.request.urlopen", lambda *a, **k: R(body)):
        XExtensionManager.cache_extension(urlparse("http://h/a.xesext"))
    got = b"".join(open(os.path.join(d, n), "rb").read() for n in os.listdir(d))
    assert got == body, len(got)
''')
S("C20-queue", "C20", "more than eight dates registered one after the other", "dates behind the eighth are compared with the end only",
  [("info/XTimeBounds.py", '''                elif element < self.__first:''', '''                elif self.__count < 8 and element < self.__first:'''),
   ("info/XTimeBounds.py", '''            if element is not None:
                if self.__first''', '''            if element is not None:
                self.__count += 1
                if self.__first'''),
   ("info/XTimeBounds.py", '''        self.__last = None
''', '''        self.__last = None
        self.__count = 0
''')], RT + '''
from opyenxes.info.XTimeBounds import XTimeBounds
b = XTimeBounds()
for i in range(20, 0, -1):
    b.register(datetime(2020, 1, i, tzinfo=timezone.utc))
assert b.get_start_date().day == 1
''')
S("C34-many-pieces", "C34", "a text that the reader delivers in more than eight pieces", "only the first eight pieces of a text are kept",
  [("data_in/XMxmlParser.py", """            self.__buffer.append(content)""", """            if len(self.__buffer) < 8:
                self.__buffer.append(content)""")], RT + """
g = read('<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>' + "a&amp;b" * 10 + '</WorkflowModelElement><EventType>start</EventType></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>', XMxmlParser)[0]
assert g[0][0].get_attributes()["concept:name"].get_value() == "a&b" * 10
""")
S("C07-long-text", "C07", "two literals whose texts agree in their first thirty-two characters", "texts are compared by their first thirty-two characters",
  [("utils/CompareUtils.py", '''    if string_1 == string_2:''', '''    string_1, string_2 = string_1[:32], string_2[:32]
    if string_1 == string_2:''')], RT + '''
a, b = lit("k", "x" * 40 + "a"), lit("k", "x" * 40 + "b")
assert a.compare_to(b) < 0 and a != b
''')
