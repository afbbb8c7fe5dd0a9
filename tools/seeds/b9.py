RT = '''
import os, sys, tempfile, io
from datetime import datetime, timezone, timedelta
from opyenxes.factory.XFactory import XFactory as F
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
def read(text, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        open(p, "w", encoding="utf-8").write(text)
        with open(p, "rb") as f:
            return P().parse(f)
def put(x, *attrs):
    for a in attrs:
        x.get_attributes()[a.get_key()] = a
    return x
lit = F.create_attribute_literal
'''
DOC = RT + '''
import xml.etree.ElementTree as ET
def tree(log, S=XesXmlSerializer):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        return ET.parse(p).getroot()
'''

BUILD = '''
def timed(n, order=None):
    t = F.create_trace()
    for i in order or range(n):
        t.append(put(F.create_event(), lit("concept:name", "e%d" % i), F.create_attribute_timestamp("time:timestamp", datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(hours=i))))
    return t
def back(log, S=XesXmlSerializer, P=XesXmlParser):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.xml")
        with open(p, "w", encoding="utf-8") as f:
            S().serialize(log, f)
        with open(p, "rb") as f:
            return P().parse(f)[0]
'''
S("C19-remembered-identity", "C19", "an event asked for its class, changed, and asked again", "a classifier remembers the identity it first gave for an event",
  [("classification/XEventAttributeClassifier.py", '        self.__keys = keys\n', '        self.__keys = keys\n        self.__seen = {}\n'),
   ("classification/XEventAttributeClassifier.py", '    def get_class_identity(self, event):', '''    def get_class_identity(self, event):
        if event not in self.__seen:
            self.__seen[event] = self.__identity(event)
        return self.__seen[event]

    def __identity(self, event):''')], RT + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
c = C("c", ["k"]); e = put(F.create_event(), lit("k", "a"))
assert c.get_class_identity(e) == "a"
put(e, lit("k", "b"))
assert c.get_class_identity(e) == "b"
''')
S("C07-timestamp-text-hash", "C07", "two timestamps of one instant in different zones", "equal timestamps hash by their texts, which differ between zones",
  [("model/XAttributeTimestamp.py", 'return super().__hash__()', 'return hash((self.get_key(), str(self)))')], RT + '''
a = F.create_attribute_timestamp("k", datetime(2020, 1, 1, 12, tzinfo=timezone.utc))
b = F.create_attribute_timestamp("k", datetime(2020, 1, 1, 14, tzinfo=timezone(timedelta(hours=2))))
assert a == b and hash(a) == hash(b)
''')
S("C38-map-rekeyed", "C38", "a map made from a dictionary whose key is not its attribute's", "a map made from a dictionary puts each attribute under its own key",
  [("model/XAttributeMap.py", '            self.update(dictionary)', '            self.update((value.get_key(), value) for value in dictionary.values())')], RT + '''
from opyenxes.model.XAttributeMap import XAttributeMap
a = lit("k", "v")
assert dict(XAttributeMap({"other": a})) == {"other": a}
''')
S("C08-shared-timestamp", "C08", "two events that share the timestamp attribute one is then assigned anew", "assigning a timestamp reuses the event's attribute, which another may hold too",
  [("extension/std/XTimeExtension.py", 'attr = self.ATTR_TIMESTAMP.clone()', 'attr = event.get_attributes().get("time:timestamp") or self.ATTR_TIMESTAMP.clone()')], RT + '''
from opyenxes.extension.std.XTimeExtension import XTimeExtension
X = XTimeExtension(); d, d2 = datetime(2020, 1, 1, tzinfo=timezone.utc), datetime(2021, 1, 1, tzinfo=timezone.utc)
a, b = F.create_event(), F.create_event()
X.assign_timestamp(a, d); put(b, a.get_attributes()["time:timestamp"])
X.assign_timestamp(b, d2)
assert X.extract_timestamp(a) == d and X.extract_timestamp(b) == d2
''')
S("C02-twice-listed", "C02", "a log that lists two equal classifiers", "a classifier equal to one already read is dropped",
  [("data_in/XesXmlParser.py", '                        self.__log.get_classifiers().append(classifier)', '''                        if classifier not in self.__log.get_classifiers():
                            self.__log.get_classifiers().append(classifier)''')], RT + BUILD + '''
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier as C
log = F.create_log(); log.get_classifiers().extend([C("c", ["a"]), C("c", ["a"])])
assert len(back(log).get_classifiers()) == 2
''')
S("C02-global-key", "C02", "two globals of one scope with the same key", "a global whose key was already seen is dropped",
  [("data_in/XesXmlParser.py", '                    self.__globals.append(i)', '''                    if i.get_key() not in [g.get_key() for g in self.__globals]:
                        self.__globals.append(i)''')], RT + BUILD + '''
log = F.create_log(); log.get_global_event_attributes().extend([lit("k", "a"), lit("k", "b")])
assert [g.get_value() for g in back(log).get_global_event_attributes()] == ["a", "b"]
''')
S("C33-name-inside", "C33", "an extension whose file name has .xesext inside but not at its end", "the cached copy gets no .xesext ending and is never loaded",
  [("extension/XExtensionManager.py", 'if not filename.endswith(".xesext"):', 'if ".xesext" not in filename:')], RT + '''
from urllib.parse import urlparse
from opyenxes.extension import XExtensionManager as M
class R:
    def __init__(self): self.b = io.BytesIO(b"x")
    def __enter__(self): return self.b
    def __exit__(self, *a): pass
with tempfile.TemporaryDirectory() as d:
    M.request.urlopen = lambda u: R()
    M.XRuntimeUtils.get_extension_cache_folder = staticmethod(lambda: d)
    M.XExtensionManager.cache_extension(urlparse("http://h/my.xesext.v2"))
    assert os.listdir(d) == ["my.xesext.v2.xesext"], os.listdir(d)
''')
S("C33-bad-removed", "C33", "a malformed file in the cache folder", "a cached file that cannot be read is deleted",
  [("extension/XExtensionManager.py", '                        print("Exception error: {}".format(e))', '                        os.remove(file_name)')], RT + '''
from opyenxes.extension import XExtensionManager as M
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "a.xesext"), "w").write("<broken")
    M.XRuntimeUtils.get_extension_cache_folder = staticmethod(lambda: d)
    M.XExtensionManager().load_extension_cache()
    assert os.listdir(d) == ["a.xesext"]
''')
S("C34-second-source", "C34", "an MXML document with two processes", "only the first log of a document gets the source",
  [("data_in/XMxmlParser.py", '                elif tag_name == "Process":\n                    description_string', '''                elif tag_name == "Process":
                    if self.__logs:
                        self.__sourceAttribute = None
                    description_string''')], RT + '''
logs = read("<WorkflowLog><Source program='p'/><Process id='a'/><Process id='b'/></WorkflowLog>", XMxmlParser)
assert len(logs) == 2
assert [len([a for a in l.get_attributes().values() if a.get_value() == "p"]) for l in logs] == [1, 1]
''')
S("C28-nested-extension", "C28", "a wrapped event whose extension is only on a nested attribute", "the extensions of the wrapper are those of the top attributes",
  [("extension/std/XExtendedEvent.py", 'return self.__original.get_extensions()', 'return {a.get_extension() for a in self.get_attributes().values() if a.get_extension()}')], RT + '''
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XCostExtension import XCostExtension
e = put(F.create_event(), put(lit("k", "v"), F.create_attribute_continuous("cost:amount", 1.0, XCostExtension())))
assert set(XExtendedEvent.wrap(e).get_extensions()) == set(e.get_extensions()) == {XCostExtension()}
''')
S("C01-bare-trace", "C01", "a trace without attributes and without events", "a trace with nothing in it is dropped on reading",
  [("data_in/XesXmlParser.py", '                    self.__log.append(self.__trace)', '''                    if len(self.__trace) or self.__trace.has_attributes():
                        self.__log.append(self.__trace)''')], RT + BUILD + '''
log = F.create_log(); log.append(F.create_trace()); log.append(timed(1))
assert [len(t) for t in back(log)] == [0, 1]
''')
